"""C23: solving returns the optimum."""
from hypothesis import strategies as st

from .. import gen, ref, solvable, solpoly
from ..core import Inconclusive, Sub, arr, check_close, check_true, fail, reading
from ..env import mp, np
from ..solvable import CLS, add, mul

ASSUMPTIONS = [
    "problems whose optimum is known: manufactured tracking problems (zero of a sum of squares along polynomial trajectories) and classical problems with closed-form solutions",
    "cost compared to 1e-5, trajectories to 1e-3 relative; closed-form problems on several segments use LGR, whose multi-segment transcription is exact for them",
    "every generated problem converges with ipopt on the unchanged tree, so a solver failure is a violation except for the adaptive optimizer (nonconvex in the widths), where a failure or a feasible worse local optimum is inconclusive",
]


DEFAULT_TOL = 5e-4

# --------------------------------------------------- manufactured optimum
def shift(coef, c):
    out = list(coef)
    out[0] = out[0] + c
    return out


@st.composite
def track_strat(draw, tier="quick"):
    g = draw(gen.grids(max_seg=4, max_deg=6, max_nodes=20))
    if g["orders"] == [1]:
        g["orders"] = [2]  # as many equations as variables: ipopt then ignores the cost
    deg = min(g["orders"])
    nx, nph = draw(st.integers(1, 2)), draw(st.sampled_from([1, 1, 2, 3]))
    na = draw(st.integers(0, 2))
    half = st.integers(-8, 8).map(lambda k: k / 8)
    px = [draw(gen.vec(draw(st.integers(1, min(deg, 3) + 1)), half)) for _ in range(nx)]
    pu = [draw(gen.vec(draw(st.integers(1, min(deg, 3) + 1)), half)) for _ in range(nx)]
    jumps = [[0.0] * nx]
    for _ in range(nph - 1):
        j = draw(gen.vec(nx, st.sampled_from([0.0, 0.0, 0.25, -0.5])))
        jumps.append([a + b for a, b in zip(jumps[-1], j)])
    aopt = draw(gen.vec(na, half))
    t0 = draw(st.sampled_from([0.0, 0.0, 0.5, -1.0]))
    dur = [draw(st.sampled_from([0.5, 0.75, 1.0])) for _ in range(nph)]
    cuts = [t0 + sum(dur[:k]) for k in range(nph + 1)]
    free = [draw(st.booleans()) for _ in range(nph)]
    cpoly = draw(gen.vec(draw(st.integers(1, 3 if deg >= 2 else 2)), half))
    B = [draw(st.sampled_from([1.0, 2.0, -1.0])) for _ in range(nx)]
    s = dict(g)
    s.update(nx=nx, nu=nx, na=na, nph=nph)
    phases, allx = [], []
    for p in range(nph):
        X = [shift(px[i], jumps[p][i]) for i in range(nx)]
        allx.append(X)
        dx = [["-", ["x", i], solpoly.powers(X[i])] for i in range(nx)]
        du = [["-", ["u", i], solpoly.powers(pu[i])] for i in range(nx)]
        da = [["-", ["a", i], ["c", aopt[i]]] for i in range(na)]
        dyn = []
        for i in range(nx):
            e = add(solpoly.powers(solpoly.dcoef(X[i])), mul(B[i], du[i]))
            for _ in range(draw(st.integers(0, 2))):
                d = draw(st.sampled_from(dx + da))
                f = draw(st.sampled_from([["c", 0.5], ["c", -0.5], ["sin", ["x", 0]], ["cos", ["t"]]]))
                e = add(e, mul(0.5, ["*", f, d]))
            dyn.append(e)
        run = add(*[mul(draw(st.sampled_from([1.0, 0.5, 2.0])), ["sq", e]) for e in du + dx])
        if draw(st.booleans()) and not any(free):
            run = add(run, solpoly.powers(cpoly))
            const = True
        else:
            const = False
        term = None
        tt = []
        if free[p]:
            tt.append(["sq", ["-", ["tf"], ["c", cuts[p + 1]]]])
        tt += [["sq", e] for e in da]
        end = draw(st.sampled_from(["free", "fixed", "penalty"]))
        dxf = [["-", ["xf", i], solpoly_at(X[i])] for i in range(nx)]
        if end == "penalty":
            tt += [mul(2, ["sq", e]) for e in dxf]
        if tt:
            term = mul(2, add(*tt))
        P = dict(dyn=dyn, run=run, term=term, tc=dxf if end == "fixed" and not free[p] else None, const=const)
        lim = 3.0
        grid = np.linspace(cuts[p], cuts[p + 1], 50)
        top = float(np.abs(solpoly.polyval(X[0], grid)).max()) + lim
        P["path"] = [["-", ["sq", ["x", 0]], ["c", top * top]]] if draw(st.booleans()) else None
        if draw(st.booleans()):
            P["x00"] = [float(solpoly.polyval(c, cuts[p])) for c in X]
            P["xf0"] = [float(solpoly.polyval(c, cuts[p + 1])) for c in X]
            P["u00"] = [float(solpoly.polyval(c, cuts[p])) for c in pu]
            P["uf0"] = [float(solpoly.polyval(c, cuts[p + 1])) for c in pu]
        else:
            P["x00"] = [float(solpoly.polyval(c, cuts[p])) for c in X]
            P["xf0"], P["u00"], P["uf0"] = [0.0] * nx, [0.0] * nx, [0.25] * nx
        P["a0"] = [0.0] * na
        P["lbx"], P["ubx"], P["lbu"], P["ubu"] = [], [], [], []
        for c in X:
            v = solpoly.polyval(c, grid)
            P["lbx"].append(float(v.min()) - lim)
            P["ubx"].append(draw(st.sampled_from([None, float(v.max()) + lim])))
        for c in pu:
            v = solpoly.polyval(c, grid)
            P["lbu"].append(float(v.min()) - lim)
            P["ubu"].append(draw(st.sampled_from([None, float(v.max()) + lim])))
        P["lba"], P["uba"] = [-2.0] * na, [2.0] * na
        P["t00"], P["tf0"] = cuts[p], cuts[p + 1] + (0.125 if free[p] else 0.0)
        P["lbt0"] = P["ubt0"] = cuts[p]
        if p > 0 and free[p - 1]:
            P["lbt0"], P["ubt0"] = cuts[p] - 0.2, cuts[p] + 0.2
            P["t00"] = P["t00"] + 0.125
        P["lbtf"], P["ubtf"] = (cuts[p + 1] - 0.2, cuts[p + 1] + 0.2) if free[p] else (cuts[p + 1],) * 2
        P["midu"], P["diff_u"] = int(draw(st.booleans())), int(draw(st.integers(0, 3)) == 0)
        P["duc"] = 0
        slope = max(float(np.abs(np.gradient(solpoly.polyval(c, grid), grid)).max()) for c in pu)
        P["lbdu"], P["ubdu"] = -60.0 - 20 * slope, 60.0 + 20 * slope
        phases.append(P)
    s["phases"] = phases
    s["links"] = [[i, i + 1] for i in range(nph - 1)]
    s["lbe"] = [[b - a for a, b in zip(jumps[k], jumps[k + 1])] for k in range(nph - 1)]
    s["ube"] = s["lbe"]
    sc = st.sampled_from([1.0, 0.5, 2.0, 4.0])
    if draw(st.booleans()):
        s["scale"] = dict(x=draw(gen.vec(nx, sc)), u=draw(gen.vec(nx, sc)), a=draw(gen.vec(na, sc)), t=draw(sc))
    else:
        s["scale"] = dict(x=[1.0] * nx, u=[1.0] * nx, a=[1.0] * na, t=1.0)
    s["widths"] = draw(gen.widths(len(s["orders"]), nph))
    s["zseed"] = 0
    s["px"], s["pu"], s["aopt"], s["cuts"], s["cpoly"] = allx, [pu] * nph, aopt, cuts, cpoly
    s["cls"] = draw(st.sampled_from(["fixed", "fixed", "h", "adaptive"]))
    s["own_widths"] = draw(st.booleans())
    s["default_opts"] = draw(st.integers(0, 4)) == 0
    return s


def solpoly_at(coef):
    """Polynomial of the end time."""
    e = ["c", coef[-1]]
    for c in reversed(coef[:-1]):
        e = add(["c", c], ["*", ["tf"], e])
    return e


def run_solve(s):
    kw = dict() if s.get("no_opts") else dict(nlp_solver_options={"ipopt.acceptable_tol": 1e-8} if s.get("default_opts") else solvable.OPTS)
    mpo = gen.make(s, getattr(mp, CLS[s["cls"]]))
    if s["cls"] == "fixed" and s.get("own_widths"):
        kw["mpopt_options"] = {"nlp_sw_params": [v for w in s["widths"] for v in w]}
    if s["cls"] == "h":
        kw["max_iter"] = 3
    sol = mpo.solve(**kw)
    return mpo, sol


def solved(mpo, s):
    if solvable.square(mpo):
        raise Inconclusive("as many equations as variables: ipopt ignores the cost")
    st_ = mpo.nlp_solver.stats()
    if not st_["success"]:
        if s["cls"] == "adaptive":
            raise Inconclusive("ipopt failed on the adaptive problem")
        fail("the solver did not converge", status=st_["return_status"])


def local_optimum(mpo, sol, s, want):
    """The adaptive problem is not convex (widths, mid-point residuals): a
    worse local optimum decides nothing if it is feasible."""
    if s["cls"] == "adaptive" and float(arr(sol["f"]).ravel()[0]) > want + 1e-4:
        nlp = gen.Nlp(s, getattr(mp, CLS[s["cls"]]))
        v, f = solvable.infeasibility(nlp, sol["x"], None)
        check_true(v < 1e-5, "the returned solution is infeasible", violation=v)
        check_close(arr(sol["f"]).ravel()[0], f, 1e-7, "reported cost", scale=1.0)
        raise Inconclusive("worse local optimum of the adaptive problem")


def check_track(s):
    mpo, sol = run_solve(s)
    solved(mpo, s)
    want = 0.0
    for p, P in enumerate(s["phases"]):
        if P["const"]:
            c = np.polynomial.polynomial.polyint(s["cpoly"])
            a, b = s["cuts"][p], s["cuts"][p + 1]
            want += np.polynomial.polynomial.polyval(b, c) - np.polynomial.polynomial.polyval(a, c)
    loose = 100 if s["default_opts"] or s["engine"] == "symbolic" else 1
    local_optimum(mpo, sol, s, want)
    check_close(arr(sol["f"]).ravel()[0], want, 1e-6 * loose, "optimal cost", scale=1.0)
    post = mpo.process_results(sol, plot=False, residual_dx=False)
    tol = 2e-3 * (10 if s["default_opts"] else 1)
    for p in range(s["nph"]):
        x, u, t, a = [arr(q) for q in post.get_data([p])]
        t = t.ravel()
        check_close(t[[0, -1]], s["cuts"][p: p + 2], tol, f"optimal start and end time of phase {p}", scale=1.0)
        X = np.stack([solpoly.polyval(c, t) for c in s["px"][p]], 1)
        U = np.stack([solpoly.polyval(c, t) for c in s["pu"][p]], 1)
        check_close(x, X, tol, f"optimal states of phase {p}", scale=1.0)
        check_close(u, U, 10 * tol, f"optimal controls of phase {p}", scale=1.0)
        if s["na"]:
            check_close(a.ravel(), s["aopt"], tol, f"optimal parameters of phase {p}", scale=1.0)
        xi, ui, ti, _ = post.get_data([p], interpolate=True)
        xi, ti = arr(xi), arr(ti).ravel()
        X = np.stack([solpoly.polyval(c, ti) for c in s["px"][p]], 1)
        check_close(xi, X, 10 * tol, f"interpolated optimal states of phase {p}", scale=1.0)


# ------------------------------------------------------- closed-form optima
def base(s, nx, nu, T):
    P = dict(dyn=None, run=None, term=None, path=None, tc=None, x00=[0.0] * nx, xf0=[1.0] * nx,
             u00=[0.0] * nu, uf0=[0.0] * nu, a0=[], t00=0.0, tf0=T, lbx=[None] * nx, ubx=[None] * nx,
             lbu=[None] * nu, ubu=[None] * nu, lba=[], uba=[], lbt0=0.0, ubt0=0.0, lbtf=T, ubtf=T,
             midu=0, diff_u=0, duc=0, lbdu=-50.0, ubdu=50.0)
    s.update(nx=nx, nu=nu, na=0, nph=1, phases=[P], links=[], lbe=[], ube=[],
             scale=dict(x=s["sx"][:nx], u=s["su"][:nu], a=[], t=s["stime"]), zseed=0)
    return P


@st.composite
def closed_strat(draw, tier="quick"):
    kind = draw(st.sampled_from(["min_energy", "min_time", "bounded", "lqr", "free_time", "chain"]))
    s = dict(draw(gen.grids(max_seg=3, max_deg=6, max_nodes=16)))
    if s["orders"] == [1]:
        s["orders"] = [2]
    if len(s["orders"]) > 1:
        s["scheme"] = "LGR"
    if kind in ("min_energy", "chain", "free_time"):
        lo = {"min_energy": 3, "free_time": 3, "chain": 5}[kind]
        s["orders"] = [max(p, lo) for p in s["orders"]][:2]
        if s["scheme"] == "CGL":
            if kind == "chain":
                s["scheme"] = "LGL"
            else:
                s["orders"] = [min(p, 4) for p in s["orders"]]
    if kind == "lqr":
        s["orders"] = s["orders"][:1]
    s["engine"] = "numerical"
    sc = st.sampled_from([1.0, 1.0, 0.5, 2.0, 4.0])
    s["sx"], s["su"], s["stime"] = draw(gen.vec(3, sc)), draw(gen.vec(1, sc)), draw(sc)
    s["kind"] = kind
    s["p"] = draw(gen.vec(4, st.sampled_from([0.5, 1.0, 1.5, 2.0])))
    s["neg"] = draw(st.booleans())
    s["cls"] = draw(st.sampled_from(["fixed", "fixed", "h", "adaptive"]))
    s["widths"] = draw(gen.widths(len(s["orders"]), 1))
    s["own_widths"] = draw(st.booleans())
    return s


def closed(s):
    """Completes the problem; returns cost, x(t), u(t), final time."""
    T, d, b, q = s["p"]
    sg = -1.0 if s["neg"] else 1.0
    d = sg * d
    k = s["kind"]
    if k == "min_energy":
        # x1' = x2, x2' = u, rest to rest over d: x1 = d (3 s^2 - 2 s^3)
        P = base(s, 2, 1, T)
        P["dyn"] = [["x", 1], ["u", 0]]
        P["run"] = ["sq", ["u", 0]]
        P["tc"] = [["-", ["xf", 0], ["c", d]], ["xf", 1]]
        P["xf0"] = [d, 0.0]
        cost = 12 * d * d / T**3
        return cost, lambda t: np.stack([d * (3 * (t / T) ** 2 - 2 * (t / T) ** 3),
                                         6 * d / T * (t / T - (t / T) ** 2)], 1), \
            lambda t: (6 * d / T**2 * (1 - 2 * t / T))[:, None], T
    if k == "chain":
        # triple integrator, rest to rest: quintic
        P = base(s, 3, 1, T)
        P["dyn"] = [["x", 1], ["x", 2], ["u", 0]]
        P["run"] = ["sq", ["u", 0]]
        P["tc"] = [["-", ["xf", 0], ["c", d]], ["xf", 1], ["xf", 2]]
        P["xf0"] = [d, 0.0, 0.0]
        cost = 720 * d * d / T**5

        def x(t):
            y = t / T
            return np.stack([d * (10 * y**3 - 15 * y**4 + 6 * y**5), d / T * 30 * (y**2 - 2 * y**3 + y**4),
                             d / T**2 * (60 * y - 180 * y**2 + 120 * y**3)], 1)
        return cost, x, lambda t: (d / T**3 * (60 - 360 * t / T + 360 * (t / T) ** 2))[:, None], T
    if k == "min_time":
        # x' = u, |u| <= b: T = |d| / b
        P = base(s, 1, 1, 1.0)
        P["dyn"] = [["u", 0]]
        P["term"] = ["tf"]
        P["tc"] = [["-", ["xf", 0], ["c", d]]]
        P["lbu"], P["ubu"] = [-b], [b]
        P["xf0"] = [d]
        P["lbtf"], P["ubtf"] = 0.01, 20.0
        Tf = abs(d) / b
        return Tf, lambda t: (sg * b * t)[:, None], lambda t: np.full((len(t), 1), sg * b), Tf
    if k == "bounded":
        # x' = q u + 0.5, maximize sg * integral of u with |u| <= b
        P = base(s, 1, 1, T)
        P["dyn"] = [add(mul(q, ["u", 0]), ["c", 0.5])]
        P["run"] = mul(-sg, ["u", 0])
        P["lbu"], P["ubu"] = [-b], [b]
        return -b * T, lambda t: ((q * sg * b + 0.5) * t)[:, None], lambda t: np.full((len(t), 1), sg * b), T
    if k == "lqr":
        # x' = a x + u, integral of q x^2 + u^2: Riccati p' = -2 a p + p^2 - q
        a = 0.5 * sg
        P = base(s, 1, 1, T)
        P["dyn"] = [add(mul(a, ["x", 0]), ["u", 0])]
        P["run"] = add(mul(q, ["sq", ["x", 0]]), ["sq", ["u", 0]])
        P["x00"] = [b]
        w = np.sqrt(a * a + q)

        def phi(r):  # x(t)/x0 = phi(T-t)/phi(T);   p = q sinh/(w cosh - a sinh)
            return (w * np.cosh(w * r) - a * np.sinh(w * r)) / w
        p0 = q * np.sinh(w * T) / (w * np.cosh(w * T) - a * np.sinh(w * T))

        def x(t):
            return (b * phi(T - t) / phi(T))[:, None]

        def u(t):
            r = T - t
            return -(q * np.sinh(w * r) / (w * np.cosh(w * r) - a * np.sinh(w * r)))[:, None] * x(t)
        return p0 * b * b, x, u, T
    # free_time: double integrator, energy + weight * time, rest to rest
    P = base(s, 2, 1, 1.0)
    P["dyn"] = [["x", 1], ["u", 0]]
    P["run"] = add(["sq", ["u", 0]], ["c", q])
    P["tc"] = [["-", ["xf", 0], ["c", d]], ["xf", 1]]
    P["xf0"] = [d, 0.0]
    P["lbtf"], P["ubtf"] = 0.3, 10.0
    Tf = (36 * d * d / q) ** 0.25
    P["tf0"] = 1.25
    cost = 12 * d * d / Tf**3 + q * Tf
    return cost, lambda t: np.stack([d * (3 * (t / Tf) ** 2 - 2 * (t / Tf) ** 3),
                                     6 * d / Tf * (t / Tf - (t / Tf) ** 2)], 1), \
        lambda t: (6 * d / Tf**2 * (1 - 2 * t / Tf))[:, None], Tf


def check_closed(s):
    cost, x_of, u_of, T = closed(s)
    if s["kind"] == "lqr":
        return check_conv(s, cost, x_of, u_of)
    mpo, sol = run_solve(s)
    solved(mpo, s)
    local_optimum(mpo, sol, s, cost)
    check_close(arr(sol["f"]).ravel()[0], cost, 1e-5, f"optimal cost ({s['kind']})", scale=1.0)
    post = mpo.process_results(sol, plot=False, residual_dx=False)
    x, u, t, a = [arr(q) for q in post.get_data([0])]
    t = t.ravel()
    check_close(t[[0, -1]], [0.0, T], 1e-3, "optimal start and end time", scale=1.0)
    check_close(x, x_of(t), 2e-3, f"optimal states ({s['kind']})", scale=max(1.0, np.abs(x_of(t)).max()))
    if s["kind"] in ("min_time", "bounded"):
        u_tol = 2e-3
    else:
        u_tol = 2e-2
    check_close(u, u_of(t), u_tol, f"optimal controls ({s['kind']})", scale=max(1.0, np.abs(u_of(t)).max()))
    nlp = gen.Nlp(s, getattr(mp, CLS[s["cls"]]))
    v, _ = solvable.infeasibility(nlp, sol["x"], arr(mpo._nlp_sw_params).ravel())
    check_true(v < 1e-6, "the returned solution is infeasible", violation=v)


def check_conv(s, cost, x_of, u_of):
    errs = []
    for p in (2, 4, 7):
        c = dict(s, orders=[p], cls="fixed")
        mpo, sol = run_solve(c)
        solved(mpo, c)
        post = mpo.process_results(sol, plot=False, residual_dx=False)
        x, u, t, a = [arr(q) for q in post.get_data([0])]
        t = t.ravel()
        errs.append((abs(arr(sol["f"]).ravel()[0] - cost), np.abs(x - x_of(t)).max(), np.abs(u - u_of(t)).max()))
    for i, name in enumerate(("cost", "states", "controls")):
        e = [q[i] for q in errs]
        lim = (5e-3, 2e-2, 0.4) if s["scheme"] == "CGL" else (2e-6, 1e-4, 1e-2)
        check_true(e[2] <= lim[i] * max(1, abs(cost)), f"error of the {name} at degree 7", errors=e)
        check_true(e[2] <= e[0] + 1e-6, f"error of the {name} does not decrease with the degree", errors=e)


@st.composite
def default_strat(draw, tier="quick"):
    s = draw(closed_strat(tier))
    if s["kind"] == "lqr":
        s["kind"] = "bounded"
    s["cls"] = draw(st.sampled_from(["fixed", "fixed", "h"]))
    s["weight"] = draw(st.sampled_from([1.0, 1.0, 0.1, 0.01, 0.001]))
    return s


def check_default(s):
    """No options at all: the cost is multiplied with a weight, which makes
    loose tolerances visible."""
    cost, x_of, u_of, T = closed(s)
    P = s["phases"][0]
    for k in ("run", "term"):
        if P.get(k) is not None:
            P[k] = mul(s["weight"], P[k])
    mpo, sol = run_solve(dict(s, no_opts=True))
    solved(mpo, s)
    f = arr(sol["f"]).ravel()[0] / s["weight"]
    check_close(f, cost, DEFAULT_TOL, f"optimal cost with the default options ({s['kind']}), divided by its weight", scale=1.0)


SUBS = [
    Sub("tracking", track_strat, check_track, 220, 3500,
        "problems with a manufactured optimum: 1-3 phases with jumps, free or fixed times, parameters, nonlinear "
        "dynamics, path and terminal constraints, three optimizers, three schemes, scaling; cost, states, controls, "
        "times, parameters and interpolated states; non-trivial: several phases or segments or scaling",
        lambda s: s["nph"] > 1 or len(s["orders"]) > 1 or "scaled" in gen.spec_labels(s),
        classify=lambda s: gen.spec_labels(s) + [s["cls"]]),
    Sub("closed_form", closed_strat, check_closed, 160, 2500,
        "minimum energy (double and triple integrator), minimum time, bang control, free end time, LQR with "
        "convergence over degrees; non-trivial: all", classify=lambda s: [s["kind"], s["cls"], s["scheme"]]),
    Sub("defaults", default_strat, check_default, 80, 1500,
        "closed-form problems without any solver options and with the cost multiplied by a weight down to 1e-3; "
        "non-trivial: a weight other than one", lambda s: s["weight"] != 1.0,
        classify=lambda s: [s["kind"], s["cls"], f"weight={s['weight']}"]),
]
