"""C13: scaling is pure conditioning."""
from hypothesis import strategies as st

from .. import gen, ref
from ..core import Inconclusive, Sub, arr, check_close, check_true, fail, reading
from ..env import ca, mp, np

ASSUMPTIONS = [
    "metamorphic: the same optimizer class with and without scale factors; corresponding constraints are those at the same position",
    "the residual tolerance of the adaptive optimizer's mid-point residuals is defined in units of the scaled states: these rows are compared with unscaled states only",
]
CLS = {"fixed": "mpopt", "h": "mpopt_h_adaptive", "adaptive": "mpopt_adaptive"}


@st.composite
def strat(draw, tier="quick"):
    s = draw(gen.specs(maybe=("run", "term", "path", "tc", "midu", "diff_u", "duc", "links"),
                       max_ph=3, depth=2, grid=gen.grids(max_seg=3, max_deg=5)))
    sc = gen.scales if draw(st.booleans()) else st.sampled_from([1.0, 0.01, 100.0, 8.0, 0.125])
    s["scale"] = dict(x=draw(gen.vec(s["nx"], sc)), u=draw(gen.vec(s["nu"], sc)),
                      a=draw(gen.vec(s["na"], sc)), t=draw(sc))
    s["cls"] = draw(st.sampled_from(["fixed", "fixed", "h", "adaptive", "adaptive"]))
    s["mid"] = s["cls"] == "adaptive" and draw(st.booleans())
    if s["mid"]:
        s["scale"]["x"] = [1.0] * s["nx"]
    return s


def unit(s):
    return dict(s, scale=dict(x=[1.0] * s["nx"], u=[1.0] * s["nu"], a=[1.0] * s["na"], t=1.0))


def rescale(s, vs):
    sc = s["scale"]
    return [dict(X=v["X"] * np.array(sc["x"]), U=v["U"] * np.array(sc["u"]), A=v["A"] * np.array(sc["a"]),
                 t0=v["t0"] * sc["t"], tf=v["tf"] * sc["t"]) for v in vs]


def optimizer(s):
    mpo = gen.make(s, getattr(mp, CLS[s["cls"]]))
    if s["cls"] == "adaptive":
        mpo.mid_residuals = s["mid"]
    return gen.Nlp(s, mpo=mpo)


def check(s):
    a, b = optimizer(unit(s)), optimizer(s)
    check_true(a.m == b.m and a.n == b.n, "size of the program", unscaled=(a.n, a.m), scaled=(b.n, b.m))
    pts = [gen.random_point(dict(unit(s), zseed=s["zseed"] + k)) for k in (0, 7919, 104729)]
    G, H, F, K = [], [], [], []
    for vs in pts:
        f, g = a.eval(vs, s["widths"])
        f2, g2 = b.eval(rescale(s, vs), s["widths"])
        F.append(f)
        K.append(f2)
        G.append(g)
        H.append(g2)
    tol = 1e-7
    if max(s["orders"]) > 6:
        tol = 1e-6
    for f, f2 in zip(F, K):
        # cancellation is bounded by the size of the data
        check_close(f2, f, tol * 10, "objective of the scaled problem", scale=max(1.0, abs(f)))
    G, H = np.array(G), np.array(H)
    if G.size == 0:
        return
    i = np.argmax(np.abs(G), axis=0)
    cols = np.arange(G.shape[1])
    big = np.abs(G[i, cols])
    use = big > 1e-3
    k = np.ones(G.shape[1])
    k[use] = H[i, cols][use] / G[i, cols][use]
    if (k <= 0).any():
        fail("a scaled constraint is a negative multiple of the unscaled one", row=int(np.argmin(k)),
             factor=k.min())
    for r in range(len(G)):
        check_close((H[r] / k)[use], G[r][use], 1e-6, "scaled constraint is no multiple of the unscaled one",
                    scale=np.maximum(1.0, big[use]))
    for name, u, v in (("lower", a.lbg, b.lbg), ("upper", a.ubg, b.ubg)):
        fin = use & np.isfinite(u)
        check_true(np.array_equal(np.isfinite(u), np.isfinite(v)), f"{name} constraint bounds: infinities differ")
        check_close(v[fin] / k[fin], u[fin], 1e-6, f"{name} bound of a constraint, scaled back")
    # variable bounds
    za, zb = np.full(a.n, np.nan), np.full(b.n, np.nan)
    fac = np.ones(a.n)
    sc = s["scale"]
    for ph in range(s["nph"]):
        d, e = a.idx[ph], b.idx[ph]
        for key, c in (("X", sc["x"]), ("U", sc["u"])):
            for j in range(d[key].shape[1]):
                same(a, b, d[key][:, j], e[key][:, j], c[j])
        for j in range(s["na"]):
            same(a, b, d["A"][[j]], e["A"][[j]], sc["a"][j])
        for q in ("t0", "tf"):
            same(a, b, [d[q]], [e[q]], sc["t"])
    # initial guess and retrieved data
    for opt in (a, b):
        opt.mpo._nlp_sw_params = [float(v) for q in s["widths"] for v in q]
    za = arr(a.mpo.initialize_solution()).ravel()
    zb = arr(b.mpo.initialize_solution()).ravel()
    for za, zb in ((za, zb), (a.pack(pts[0], s["widths"]), b.pack(rescale(s, pts[0]), s["widths"]))):
        pa = a.mpo.process_results({"x": ca.DM(za)}, plot=False, residual_dx=False)
        pb = b.mpo.process_results({"x": ca.DM(zb)}, plot=False, residual_dx=False)
        for interpolate in (False, True):
            for ph in range(s["nph"]):
                da, db = pa.get_data([ph], interpolate), pb.get_data([ph], interpolate)
                for name, p, q in zip("xuta", da, db):
                    check_close(q, arr(p), 1e-9, f"retrieved {name} (interpolate={interpolate})",
                                scale=max(1.0, np.abs(arr(p)).max() if arr(p).size else 1.0))


def same(a, b, i, j, c):
    for name, u, v in (("lower", a.lbx[i], b.lbx[j]), ("upper", a.ubx[i], b.ubx[j])):
        fin = np.isfinite(u)
        check_true(np.array_equal(fin, np.isfinite(v)), f"{name} variable bounds: infinities differ")
        check_close(v[fin] / c, u[fin], 1e-10, f"{name} variable bound, scaled back")


# ------------------------------------------------ solved: same optimum found
@st.composite
def solved(draw, tier="quick"):
    nx = draw(st.integers(1, 2))
    sc = st.sampled_from([1.0, 0.1, 10.0, 0.5, 4.0])
    return dict(
        nx=nx, scheme=draw(st.sampled_from(gen.SCHEMES)), orders=draw(st.lists(st.integers(2, 4), min_size=1, max_size=2)),
        A=draw(gen.vec(nx * nx, st.integers(-8, 8).map(lambda k: k / 8))),
        q=draw(gen.vec(nx, gen.positive)), x0=draw(gen.vec(nx)), T=draw(st.sampled_from([0.5, 1.0, 2.0])),
        free_a=draw(st.booleans()),
        scale=dict(x=draw(gen.vec(nx, sc)), u=draw(gen.vec(nx, sc)), a=[draw(sc)], t=draw(sc)),
    )


def lq(c, scaled):
    nx = c["nx"]
    o = mp.OCP(nx, nx, 1, n_params=1)
    A = np.array(c["A"]).reshape(nx, nx)
    o.dynamics[0] = lambda x, u, t, a: [sum(A[i, j] * x[j] for j in range(nx)) + u[i] for i in range(nx)]
    o.running_costs[0] = lambda x, u, t, a: sum(c["q"][i] * x[i] * x[i] + u[i] * u[i] for i in range(nx)) + (a[0] - 1) * (a[0] - 1)
    o.terminal_costs[0] = lambda xf, tf, x0, t0, a: (xf[0] - 1) * (xf[0] - 1)
    o.x00[0] = c["x0"]
    o.xf0[0] = c["x0"]
    o.lbtf[0] = o.ubtf[0] = o.tf0[0] = c["T"]
    if not c["free_a"]:
        o.lba[0] = o.uba[0] = 0.5
    if scaled:
        sc = c["scale"]
        o.scale_x, o.scale_u, o.scale_a, o.scale_t = np.array(sc["x"]), np.array(sc["u"]), np.array(sc["a"]), sc["t"]
    return o


def check_solved(c):
    gen.apply_settings(dict(engine="numerical"))
    res = []
    for scaled in (False, True):
        m = mp.mpopt(lq(c, scaled), len(c["orders"]), list(c["orders"]), c["scheme"])
        sol = m.solve(nlp_solver_options={"ipopt.max_iter": 100, "ipopt.tol": 1e-10, "ipopt.acceptable_iter": 0})
        ok = m.nlp_solver.stats()["success"]
        if not ok:
            raise Inconclusive("solver did not converge")
        p = m.process_results(sol, plot=False, residual_dx=False)
        res.append((float(sol["f"]), [arr(q) for q in p.get_data([0])]))
    (f, d), (f2, d2) = res
    check_close(f2, f, 1e-6, "optimal cost of the scaled problem")
    for name, p, q in zip("xuta", d, d2):
        check_close(q, p, 2e-5, f"optimal {name} of the scaled problem")


SUBS = [
    Sub("nlp", strat, check, 350, 5000,
        "random problem with and without scale factors (states, controls, parameters, time), all "
        "features, three optimizer classes: objective, constraint values and bounds, variable "
        "bounds, initial guess and retrieved data; non-trivial: some factor different from one",
        lambda s: "scaled" in gen.spec_labels(s), classify=lambda s: gen.spec_labels(s) + [s["cls"], f"mid={s['mid']}"]),
    Sub("solved", lambda tier: solved(), check_solved, 60, 800,
        "linear-quadratic problem solved with and without scaling; non-trivial: some factor "
        "different from one", lambda c: any(v != 1 for k in "xua" for v in c["scale"][k]) or c["scale"]["t"] != 1),
]
SUBS[1].weight = 1.5
