"""C16: dynamics residuals."""
from hypothesis import strategies as st

from .. import gen, ref, solpoly
from ..core import Sub, arr, check_close, check_true, fail, reading
from ..env import mp, np

ASSUMPTIONS = [
    "residuals compared to 1e-6 relative to the size of the terms that cancel in them",
    "for the default grids the points are taken from the returned times (that these grids are right is C19)",
    "segments without points return no residual (None) and no times",
]
CLS = {"fixed": "mpopt", "h": "mpopt_h_adaptive", "adaptive": "mpopt_adaptive"}
GRIDS = ["fixed", "mid-points", "spectral"]


@st.composite
def extras(draw, s):
    s["cls"] = draw(st.sampled_from(["fixed", "fixed", "h", "adaptive"]))
    s["pts"] = [gen.seg_points(draw, s["orders"], s["tau"], 0, 4) for _ in range(s["nph"])]
    for q in s["pts"]:
        if not any(q):
            q[draw(st.integers(0, len(q) - 1))] = [draw(st.integers(0, 64))]
    s["mode"] = draw(st.sampled_from(["own", "own", "default", "arg"]))
    s["gt"] = [draw(st.sampled_from(GRIDS)) for _ in range(s["nph"])]
    s["n_grid"] = draw(st.sampled_from([1, 4, 7, 15]))
    s["rel"] = draw(st.booleans())
    return s


@st.composite
def strat(draw, tier="quick"):
    s = draw(gen.specs(maybe=("links", "midu", "path", "tc"), max_ph=3, depth=2, wild=draw(st.integers(0, 3)) == 0,
                       grid=gen.grids(max_seg=4, max_deg=6)))
    return draw(extras(s))


@st.composite
def poly_strat(draw, tier="quick"):
    s = draw(solpoly.poly_specs(grid=gen.grids(max_seg=3, max_deg=5)))
    s = draw(extras(s))
    s["rel"] = False
    return s


def optimizer(s, z_of=None):
    mp.mpopt._MAX_GRID_POINTS = s["n_grid"]
    n, vs, sol = gen.with_solution(s, getattr(mp, CLS[s["cls"]]), z_of=z_of)
    n.mpo._MAX_GRID_POINTS = s["n_grid"]
    if s["mode"] == "default":
        n.mpo.grid_type = list(s["gt"])
    return n, vs, sol


def request(s, mpo):
    """Keyword arguments and the grid type of each phase."""
    if s["mode"] == "own":
        return dict(nodes=[gen.to_tau(s, q) for q in s["pts"]])
    return dict() if s["mode"] == "default" else dict(grid_type=s["gt"][0])


def read_times(s, ti, vs, want=None):
    """Times per phase and segment -> segment coordinates."""
    taus, flat = [], []
    with reading("times of the residuals"):
        check_true(len(ti) == s["nph"], "times per phase", got=len(ti))
        for ph in range(s["nph"]):
            check_true(len(ti[ph]) == len(s["orders"]), "times per segment", got=len(ti[ph]))
            row = [arr(np.concatenate([arr(v).ravel() for v in q]) if len(q) else []).ravel() for q in ti[ph]]
            flat.append(row)
            taus.append([gen.taus_of_times(s, ph, vs, k, q) for k, q in enumerate(row)])
    return taus, flat


def check_taus(s, mpo, taus):
    for ph in range(s["nph"]):
        if s["mode"] == "own":
            want = gen.to_tau(s, s["pts"][ph])
        else:
            gt = s["gt"][ph] if s["mode"] == "default" else s["gt"][0]
            want = mpo.get_residual_grid_taus(ph, gt)
        for k in range(len(s["orders"])):
            w = arr(want[k]).ravel()
            check_true(len(w) == len(taus[ph][k]), f"number of points in segment {k} of phase {ph}",
                       got=len(taus[ph][k]), want=len(w))
            check_close(taus[ph][k], w, 1e-7, f"position of the times in segment {k} of phase {ph}")
            if s["mode"] == "own":
                taus[ph][k] = w
    return taus


def terms(s, vs, ph, taus):
    """(derivative, duration-scaled dynamics) per segment at the points."""
    r = ref.Ref(s)
    g, v, w = r.g, vs[ph], s["widths"][ph]
    x, u, a, t0, tf = r.un(v)
    out = []
    for k in range(g.nseg):
        n = len(taus[k])
        if n == 0:
            out.append(None)
            continue
        one = [q if i == k else np.zeros(0) for i, q in enumerate(taus)]
        xi, ui = g.interp(x, one), g.interp(u, one)
        env = dict(x=list(xi.T), u=list(ui.T), t=gen.seg_times(s, ph, vs, k, taus[k]),
                   a=[np.full(n, q) for q in a])
        f = r.dyn_values(ph, env, n)
        h = (tf - t0) / g.dtau * w[k]
        out.append((g.dinterp(v["X"], one), h * r.sx * f))
    return out


def r_scale(s):
    return np.array(s["scale"]["x"], float)


def compare(s, vs, taus, res, rel, zero=False):
    with reading("residuals"):
        check_true(len(res) == s["nph"], "residuals per phase", got=len(res))
    for ph in range(s["nph"]):
        T = terms(s, vs, ph, taus[ph])
        div = np.ones(s["nx"])
        if rel:
            div = np.max([np.abs(q[1]).max(axis=0) for q in T if q is not None], axis=0)
            div[div == 0] = 1.0
        size = np.abs(vs[ph]["X"]).max(axis=0)
        with reading("residuals"):
            check_true(len(res[ph]) == len(s["orders"]), "residuals per segment", got=len(res[ph]))
            for k, q in enumerate(T):
                what = f"dynamics residual in segment {k} of phase {ph}"
                if q is None:
                    check_true(res[ph][k] is None or len(res[ph][k]) == 0, what + " without points")
                    continue
                got = arr(res[ph][k])
                got = got.reshape(len(q[0]), s["nx"])
                p = s["orders"][k]
                sc = np.maximum(np.abs(q[0]).max(axis=0) + np.abs(q[1]).max(axis=0), size * p * p) + 1e-3 * r_scale(s)
                want = (q[0] - q[1]) / div
                if zero:
                    check_true(np.abs(want / sc).max() < 1e-8, "reference residual of a polynomial solution")
                check_close(got, want, 1e-6 if s["engine"] == "numerical" else 1e-5, what,
                            scale=np.broadcast_to(sc / div, want.shape))


def check(s, z_of=None):
    n, vs, sol = optimizer(s, z_of)
    kw = request(s, n.mpo)
    ti, res = n.mpo.get_dynamics_residuals(sol, residual_type="relative" if s["rel"] else None, **kw)
    taus, _ = read_times(s, ti, vs)
    taus = check_taus(s, n.mpo, taus)
    compare(s, vs, taus, res, s["rel"], zero=z_of is not None)
    # one phase at a time
    for ph in range(s["nph"]):
        t1, r1, dyn = n.mpo.get_dynamics_residuals_single_phase(
            sol, ph, target_nodes=[np.array(q) for q in taus[ph]])
        with reading("single phase residuals"):
            for k in range(len(s["orders"])):
                if len(taus[ph][k]) == 0:
                    continue
                check_close(arr(t1[k]).ravel(), gen.seg_times(s, ph, vs, k, taus[ph][k]), 1e-9, "times of a phase")
        one = [r1 if p == ph else res[p] for p in range(s["nph"])]
        T = terms(s, vs, ph, taus[ph])
        with reading("dynamics terms"):
            for k, q in enumerate(T):
                if q is None:
                    continue
                check_close(arr(dyn[k]).reshape(q[1].shape), q[1], 1e-6, "dynamics terms of a phase",
                            scale=np.abs(q[1]).max(axis=0) + 1e-3 * r_scale(s))
                got = arr(one[ph][k]).reshape(q[0].shape)
                sc = np.abs(q[0]).max(axis=0) + np.abs(q[1]).max(axis=0) + 1e-3 * r_scale(s)
                sc = np.maximum(sc, np.abs(vs[ph]["X"]).max(axis=0) * s["orders"][k] ** 2)
                check_close(got, q[0] - q[1], 1e-5, "residual of a phase", scale=np.broadcast_to(sc, got.shape))


def check_poly(s):
    check(s, z_of=lambda n: solpoly.point(s))


def interesting(s):
    return s["nph"] > 1 or len(s["orders"]) > 1 or "scaled" in gen.spec_labels(s)


def labels(s):
    return gen.spec_labels(s) + [s["cls"], s["mode"], "relative" if s["rel"] else "absolute"]


SUBS = [
    Sub("residuals", strat, check, 500, 8000,
        "random solution vector of a random problem; own points per phase and segment, grid type per "
        "phase or for all; absolute and relative; non-trivial: several segments or phases or scaling",
        interesting, classify=labels),
    Sub("polynomial", poly_strat, check_poly, 250, 4000,
        "problems with a polynomial solution of nonlinear dynamics: the residual vanishes everywhere; "
        "non-trivial: several segments or phases or scaling", interesting, classify=labels),
]
