"""C30: p/h refinement of single-phase problems."""
import copy
import warnings

from hypothesis import strategies as st

from .. import gen, solvable
from ..core import Inconclusive, Sub, arr, check_close, check_true, fail, loud, note, reading
from ..env import mp, np

ASSUMPTIONS = [
    "single-phase problems (the refinement keeps one mesh for all phases and judges only some of them: no multi-phase guarantee)",
    "the residual a solution is judged by is the relative state residual (C17) on the residual grid given to the optimizer, recomputed by a fresh fixed-mesh optimizer; solutions within 1 % of the tolerance decide nothing",
    "cases in which ipopt fails decide nothing",
    "meshes are seen where the optimizer solves (its solve method, once per mesh)",
]


@st.composite
def strat(draw, tier="quick"):
    s = draw(solvable.problems(max_ph=1, max_x=3, params=True, stiff=draw(st.booleans()), free_tf=draw(st.booleans()),
                               grid=gen.grids(max_seg=3, max_deg=4)))
    if draw(st.integers(0, 7)):
        s["engine"] = "numerical"
    s["tol"] = draw(st.sampled_from([1e-1, 1e-2, 1e-2, 1e-3, 1e-4, 1e-6]))
    s["max_iter"] = draw(st.integers(1, 3 if tier == "quick" else 4))
    s["pmax"] = draw(st.sampled_from([None, 3, 5, 6, 8]))
    s["pmin"] = draw(st.sampled_from([None, 1, 2, 4]))
    s["gt"] = draw(st.sampled_from(["spectral", "spectral", "mid-points"]))
    s["n_grid"] = draw(st.sampled_from([4, 6, 8]))
    s["thr"] = draw(st.sampled_from([None, 0.5, 1.0, 1.5, 1e6]))
    s["segs"] = draw(st.sampled_from([None, None, [1, 2], [4, 20], [2, 30]]))
    s["given_widths"] = draw(st.booleans())
    return s


class Recorder:
    """Meshes and solutions of the solves of an optimizer."""

    def __init__(self, mpo):
        self.mpo, self.runs, self.solve = mpo, [], mpo.solve
        mpo.solve = self

    def __call__(self, *a, **k):
        sol = self.solve(*a, **k)
        self.runs.append(dict(mesh=mesh_of(self.mpo), sol=sol, ok=bool(self.mpo.nlp_solver.stats()["success"])))
        return sol


def mesh_of(mpo):
    with reading("mesh reported by the optimizer"):
        o = [int(p) for p in mpo.poly_orders]
        check_true(len(o) == mpo.n_segments, "degrees and number of segments", degrees=o, n_segments=mpo.n_segments)
        return o, arr(mpo._nlp_sw_params).ravel()


def on_mesh(s, mesh):
    return dict(s, orders=list(mesh[0]), widths=[list(mesh[1])])


def residual(s, run):
    """Largest relative state residual by a fresh fixed-mesh optimizer."""
    q = on_mesh(s, run["mesh"])
    n = gen.Nlp(q, mp.mpopt)
    n.mpo._nlp_sw_params = list(run["mesh"][1])
    n.mpo._MAX_GRID_POINTS = s["n_grid"]
    n.mpo.grid_type = [s["gt"]]
    _, _, _, res = n.mpo.get_states_residuals(run["sol"], residual_type="relative")
    return max(np.abs(arr(r)).max() for r in res[0])


def degree_at(mesh, y):
    c = np.concatenate([[0], np.cumsum(mesh[1])])
    k = int(np.clip(np.searchsorted(c, y) - 1, 0, len(mesh[0]) - 1))
    return mesh[0][k]


def check(s):
    gen.apply_settings(s)
    kw = {k: v for k, v in (("poly_order_max", s["pmax"]), ("poly_order_min", s["pmin"]),
                            ("non_smooth_threshold", s["thr"])) if v is not None}
    if s["segs"]:
        kw.update(seg_min=s["segs"][0], seg_max=s["segs"][1])
    nseg = len(s["orders"])
    mpo = mp.mpopt_ph_adaptive(gen.build_ocp(s), nseg, list(s["orders"]), s["scheme"], grid_type=s["gt"],
                               max_residual=s["tol"], n_grid_points=s["n_grid"], **kw)
    pmax = max(16 if s["pmax"] is None else s["pmax"], max(s["orders"]))
    rec = Recorder(mpo)
    d = {"nlp_solver_options": dict(solvable.OPTS)}
    start = [1 / nseg] * nseg
    if s["given_widths"]:
        start = list(s["widths"][0])
        d["mpopt_options"] = {"nlp_sw_params": list(start)}
    before = copy.deepcopy(d)
    with loud(), warnings.catch_warnings():
        warnings.simplefilter("ignore")
        sol = mpo.solve_ph(max_iter=s["max_iter"], solve_dict=d)
    check_true(d == before, "the solver arguments of the caller changed", before=before, after=d)
    runs = rec.runs
    check_true(1 <= len(runs) <= 2 * s["max_iter"], "number of solves", got=len(runs), max_iter=s["max_iter"])
    with reading("returned solution"):
        x = arr(sol["x"]).ravel()
    # --- meshes
    check_true(runs[0]["mesh"][0] == list(s["orders"]), "degrees of the first mesh", got=runs[0]["mesh"][0])
    check_close(runs[0]["mesh"][1], start, 1e-12, "widths of the first mesh")
    for i, r in enumerate(runs):
        o, w = r["mesh"]
        what = f"mesh {i}"
        check_true(len(w) == len(o), f"{what}: one width per segment", widths=w, degrees=o)
        check_true(np.all(w > 0) and abs(w.sum() - 1) < 1e-9, f"{what}: the widths do not sum to one", widths=w)
        check_true(max(o) <= pmax, f"{what}: degree above the maximum", degrees=o, maximum=pmax)
        if i:
            prev = runs[i - 1]["mesh"]
            c, c0 = np.cumsum(w), np.cumsum(prev[1])
            check_true(all(np.abs(c - v).min() < 1e-9 for v in c0), f"{what}: segments were not refined but moved",
                       before=prev, after=r["mesh"])
            for y in c - w / 2:
                check_true(degree_at(r["mesh"], y) >= degree_at(prev, y), f"{what}: the degree decreased",
                           before=prev, after=r["mesh"])
    # --- the returned solution belongs to the reported mesh
    mesh = mesh_of(mpo)
    if not all(r["ok"] for r in runs):
        raise Inconclusive("ipopt failed")
    q = on_mesh(s, mesh)
    n = gen.Nlp(q, mp.mpopt)
    check_true(len(x) == len(n.lbx), "size of the solution for the reported mesh", got=len(x), want=len(n.lbx))
    check_close(x, arr(runs[-1]["sol"]["x"]).ravel(), 0, "the returned solution is not the last one found", scale=1.0)
    v, f = solvable.infeasibility(n, x, mesh[1])
    check_true(v < 1e-6, "the returned solution is infeasible on the reported mesh", violation=v, mesh=mesh)
    check_close(f, float(arr(sol["f"]).ravel()[0]), 1e-7, "cost on the reported mesh", scale=1.0)
    post = mpo.process_results(sol, plot=False, residual_x=True)
    t = arr(post.get_data([0], interpolate=True)[2]).ravel()
    idx = n.idx[0]
    tt = [float(np.ravel(x[idx[k]])[0]) / s["scale"]["t"] for k in ("t0", "tf")]
    check_close(t[[0, -1]], tt, 1e-9, "times of the processed results", scale=1.0)
    bp = tt[0] + (tt[1] - tt[0]) * np.cumsum(mesh[1])
    check_true(all(np.abs(t - b).min() < 1e-8 * max(1, abs(b)) for b in bp), "interpolated times miss a segment boundary")
    note(f"solves={len(runs)}")
    if len(mesh[0]) > nseg:
        note("segments split")
    # --- stopping
    rs = [residual(s, r) for r in runs]
    for i, r in enumerate(rs):
        if abs(r - s["tol"]) <= 0.01 * s["tol"]:
            raise Inconclusive("residual at the tolerance")
        last = i == len(rs) - 1
        if r < s["tol"]:
            check_true(last, "a solution within the tolerance was refined", residuals=rs, tol=s["tol"])
    if rs[-1] > s["tol"]:
        check_true(len(runs) == 2 * s["max_iter"], "refinement ended above the tolerance before the last iteration",
                   residuals=rs, tol=s["tol"], solves=len(runs), max_iter=s["max_iter"])


# ------------------------------------------------------------- max residuals
@st.composite
def max_strat(draw, tier="quick"):
    nx = draw(st.integers(1, 3))
    num = st.one_of(st.integers(-5, 5).map(float), st.floats(-1e3, 1e3, allow_nan=False))
    return dict(nx=nx, r=draw(st.lists(st.lists(st.lists(st.lists(num, min_size=nx, max_size=nx), min_size=1, max_size=5),
                                                min_size=1, max_size=4), min_size=1, max_size=3)))


def check_max(s):
    got = mp.mpopt_ph_adaptive.get_abs_max_residual([[np.array(q) for q in p] for p in s["r"]])
    with reading("largest residuals"):
        check_true(len(got) == len(s["r"]), "phases")
        for p, ph in zip(got, s["r"]):
            check_true(len(p) == len(ph), "segments")
            for (i, m), seg in zip(p, ph):
                a = np.abs(np.array(seg))
                check_close(m, a.max(axis=0), 0, "largest residual", scale=1.0)
                i = np.array(i)
                check_true(np.all(a[i, np.arange(s["nx"])] == a.max(axis=0)), "index of the largest residual", got=i)


SUBS = [
    Sub("refinement", strat, check, 120, 1500,
        "small single-phase problems (smooth and with steep forcing), 1-3 starting segments of degree 1-4 and given or equal "
        "widths, degree limits, tolerances, residual grids, splitting thresholds, 1-4 iterations; every mesh of the "
        "history, the returned solution and the stopping; non-trivial: tolerance of at most 1e-2",
        lambda s: s["tol"] <= 1e-2, classify=lambda s: gen.spec_labels(s) + [f"tol={s['tol']}", f"max_iter={s['max_iter']}"]),
    Sub("largest", max_strat, check_max, 300, 5000,
        "residual lists of random shape; non-trivial: several segments",
        lambda s: any(len(p) > 1 for p in s["r"])),
]
