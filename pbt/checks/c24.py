"""C24: one phase or several linked ones."""
from hypothesis import strategies as st

from .. import gen, ref, solvable
from ..core import Inconclusive, Sub, arr, check_close, check_true, fail, reading
from ..env import ca, mp, np
from ..solvable import CLS, add, mul

ASSUMPTIONS = [
    "metamorphic: both programs come from the code under test; no reference values",
    "every phase has the same segments (the grid is common to all phases), so the single phase has the pattern repeated",
    "a row of the single phase that belongs to a cut node occurs in the linked problem, which has the row of its other side as well",
    "slope continuity of controls is left out: its rows are scaled by the relative widths, which a cut changes",
    "optima: LGR, where several segments are exact for the polynomial optima used; smooth problems at degree 7 and 8 (to the accuracy of the grid)",
]


@st.composite
def strat(draw, tier="quick"):
    s = draw(gen.specs(maybe=("run", "path", "midu", "diff_u"), max_ph=1, depth=2, max_x=2, max_u=2,
                       grid=gen.grids(max_seg=2, max_deg=4, max_nodes=9)))
    m = draw(st.integers(2, 4))
    ek = [("xf", s["nx"]), ("tf", None)] + ([("a", s["na"])] if s["na"] else [])
    ek0 = [("x0", s["nx"]), ("t0", None)] + ([("a", s["na"])] if s["na"] else [])
    s["end"] = dict(
        term=draw(gen.exprs(ek, 2)) if draw(st.booleans()) else None,
        tc=draw(st.lists(gen.exprs(ek, 2), min_size=1, max_size=2)) if draw(st.booleans()) else None,
        term0=draw(gen.exprs(ek0, 2)) if draw(st.booleans()) else None,
        tc0=draw(st.lists(gen.exprs(ek0, 2), min_size=1, max_size=2)) if draw(st.booleans()) else None,
    )
    k = draw(st.lists(st.integers(1, 5), min_size=m, max_size=m))
    s["cut"] = [v / sum(k) for v in k]
    s["w"] = draw(gen.widths(len(s["orders"]), m))
    s["cls"] = draw(st.sampled_from(["fixed", "fixed", "adaptive", "h"]))
    s["pts"] = [gen.seg_points(draw, s["orders"], s["tau"], 1, 3) for _ in range(m)]
    return s


def end_parts(s, p, m):
    """Terminal cost and constraints of phase p of m."""
    e, term, tc = s["end"], [], []
    if p == 0:
        term += [e["term0"]] if e["term0"] is not None else []
        tc += e["tc0"] or []
    if p == m - 1:
        term += [e["term"]] if e["term"] is not None else []
        tc += e["tc"] or []
    return (add(*term) if term else None), (tc or None)


def single(s):
    m = len(s["cut"])
    P = dict(s["phases"][0])
    P["term"], P["tc"] = end_parts(s, 0, 1)
    return dict(s, orders=s["orders"] * m, phases=[P], nph=1,
                widths=[[c * q for c, w in zip(s["cut"], s["w"]) for q in w]])


def linked(s):
    m = len(s["cut"])
    out = []
    for p in range(m):
        P = dict(s["phases"][0])
        P["term"], P["tc"] = end_parts(s, p, m)
        out.append(P)
    nx = s["nx"]
    return dict(s, phases=out, nph=m, links=[[i, i + 1] for i in range(m - 1)], lbe=[[0.0] * nx] * (m - 1),
                ube=[[0.0] * nx] * (m - 1), widths=s["w"])


def cut_point(s, v):
    """The trajectory of the single phase as trajectories of the phases."""
    m, n = len(s["cut"]), sum(s["orders"])
    c = np.concatenate([[0.0], np.cumsum(s["cut"])])
    T = v["tf"] - v["t0"]
    return [dict(X=v["X"][p * n: (p + 1) * n + 1], U=v["U"][p * n: (p + 1) * n + 1], A=v["A"],
                 t0=v["t0"] + T * c[p], tf=v["t0"] + T * c[p + 1]) for p in range(m)]


def check(s):
    a, b = single(s), linked(s)
    m, nseg, n = b["nph"], len(s["orders"]), sum(s["orders"])
    cls = getattr(mp, CLS[s["cls"]])
    na_, nb = gen.Nlp(a, cls), gen.Nlp(b, cls)
    for q in (na_, nb):
        if q.adaptive:
            q.mpo.mid_residuals = False
    if na_.adaptive:
        na_, nb = gen.Nlp(a, mpo=na_.mpo), gen.Nlp(b, mpo=nb.mpo)
    va = gen.random_point(a)
    vb = cut_point(s, va[0])
    fa, ga = na_.eval(va, a["widths"])
    fb, gb = nb.eval(vb, b["widths"])
    check_close(fb, fa, 1e-9, "objective of the linked phases differs from that of the single phase",
                scale=1.0 + sum(abs(q) for q in (fa, fb)))
    # bounds of the variables
    A, B = na_.idx[0], nb.idx
    for p in range(m):
        for k in ("X", "U"):
            lo, hi = na_.lbx[A[k]][p * n: (p + 1) * n + 1], na_.ubx[A[k]][p * n: (p + 1) * n + 1]
            check_close(nb.lbx[B[p][k]], lo, 1e-12, f"lower bounds of {k} in phase {p}")
            check_close(nb.ubx[B[p][k]], hi, 1e-12, f"upper bounds of {k} in phase {p}")
    for k, p in (("t0", 0), ("tf", -1)):
        check_close(nb.lbx[B[p][k]], na_.lbx[A[k]], 1e-12, f"lower bound of {k}")
        check_close(nb.ubx[B[p][k]], na_.ubx[A[k]], 1e-12, f"upper bound of {k}")
    # rows
    live = ~(np.isneginf(na_.lbg) & np.isposinf(na_.ubg))
    P = s["phases"][0]
    per_cut = s["nx"] * 2 + s["nu"] + 1 + len(P["path"] or []) + (s["nu"] if P["diff_u"] else 0)
    per_cut += 1 if na_.adaptive else 0
    got, want = gen.live_rows(nb.lbg, nb.ubg), int(live.sum()) + (m - 1) * per_cut
    check_true(got == want, "number of constraints of the linked phases", got=got, want=want)
    zero = np.zeros((m - 1) * (s["nx"] + s["nu"] + 1))
    cat = np.concatenate
    gen.rows_present(gb, nb.lbg, nb.ubg, cat([ga[live], zero]), cat([na_.lbg[live], zero]), cat([na_.ubg[live], zero]),
                     1e-8 * max(1.0, np.abs(ga).max() * 1e-2), "constraints of the linked phases")
    # retrieved, interpolated data and residuals
    sa, sb = {"x": ca.DM(na_.pack(va, a["widths"]))}, {"x": ca.DM(nb.pack(vb, b["widths"]))}
    na_.mpo._nlp_sw_params = [float(v) for q in a["widths"] for v in q]
    nb.mpo._nlp_sw_params = [float(v) for q in b["widths"] for v in q]
    pa = na_.mpo.process_results(sa, plot=False, residual_dx=False)
    pb = nb.mpo.process_results(sb, plot=False, residual_dx=False)
    xa, ua, ta, _ = [arr(q) for q in pa.get_data([0])]
    xb, ub, tb, _ = [arr(q) for q in pb.get_data(list(range(m)))]
    rep = cat([np.arange(p * n, (p + 1) * n + 1) for p in range(m)])
    check_close(xb, xa[rep], 1e-11, "states of the phases")
    check_close(ub, ua[rep], 1e-11, "controls of the phases")
    check_close(tb.ravel(), ta.ravel()[rep], 1e-10, "times of the phases", scale=1.0)
    nodes_b = [gen.to_tau(s, q) for q in s["pts"]]
    nodes_a = [[q for w in nodes_b for q in w]]
    ta_, ra = na_.mpo.get_dynamics_residuals(sa, nodes=nodes_a)
    tb_, rb = nb.mpo.get_dynamics_residuals(sb, nodes=nodes_b)
    with reading("dynamics residuals"):
        for p in range(m):
            for k in range(nseg):
                one, two = arr(ra[0][p * nseg + k]), arr(rb[p][k])
                sc = 1.0 + np.abs(va[0]["X"]).max() * 50 + np.abs(one).max()
                check_close(two.ravel(), one.ravel(), 1e-8, f"dynamics residual in phase {p}", scale=sc)
                t1 = np.concatenate([arr(q).ravel() for q in ta_[0][p * nseg + k]])
                t2 = np.concatenate([arr(q).ravel() for q in tb_[p][k]])
                check_close(t2, t1, 1e-9, f"times of the residuals in phase {p}", scale=1.0)
    xa, _, ta, *_ = na_.mpo.interpolate_single_phase(sa, 0, target_nodes=nodes_a[0])
    xa, ta = arr(xa), arr(ta).ravel()
    at = 0
    for p in range(m):
        xb, _, tb, *_ = nb.mpo.interpolate_single_phase(sb, p, target_nodes=nodes_b[p])
        xb, tb = arr(xb), arr(tb).ravel()
        check_close(xb, xa[at: at + len(xb)], 1e-10, f"interpolated states of phase {p}", scale=1.0 + np.abs(xa).max())
        check_close(tb, ta[at: at + len(xb)], 1e-9, f"interpolation times of phase {p}", scale=1.0)
        at += len(xb)
    check_true(at == len(xa), "number of interpolated points")


# ------------------------------------------------------------------- optima
@st.composite
def opt_strat(draw, tier="quick"):
    g = dict(scheme="LGR", tau=draw(st.sampled_from([[-1, 1], [0, 1]])), engine="numerical")
    kind = draw(st.sampled_from(["chain", "smooth"]))
    m = draw(st.integers(2, 4))
    k = draw(st.lists(st.integers(1, 3), min_size=m, max_size=m))
    cls = draw(st.sampled_from(["fixed", "fixed", "h"]))
    if kind == "chain":
        nx = draw(st.integers(1, 3))
        g["orders"] = draw(st.lists(st.integers(2 * nx - 1 if nx > 1 else 2, 6), min_size=1, max_size=2))
        v = st.integers(-8, 8).map(lambda q: q / 4)
        s = dict(g, nx=nx, nu=1, na=0, nph=1, zseed=0, x0=draw(gen.vec(nx, v)), xf=draw(gen.vec(nx, v)),
                 T=draw(st.sampled_from([0.5, 1.0, 2.0])), t0=draw(st.sampled_from([0.0, 1.0, -0.5])),
                 free=draw(gen.vec(nx, st.booleans())), rc=draw(st.sampled_from([1.0, 0.5, 2.0])))
        s["free"][0] = False
        sc = st.sampled_from([1.0, 1.0, 0.5, 2.0])
        s["scale"] = dict(x=draw(gen.vec(nx, sc)), u=draw(gen.vec(1, sc)), a=[], t=draw(sc))
    else:
        orders = [draw(st.integers(7, 8))]
        s = dict(draw(solvable.problems(max_ph=1, max_x=2, grid=st.just(dict(g, orders=orders)))))
    s["kind"], s["cls"] = kind, cls
    s["cut"] = [v / sum(k) for v in k]
    s["w"] = draw(gen.widths(len(s["orders"]), m))
    s["float"] = draw(st.integers(0, 3)) == 0
    return s


def chain_phase(s):
    nx = s["nx"]
    dyn = [["x", i + 1] for i in range(nx - 1)] + [["u", 0]]
    tc = [["-", ["xf", i], ["c", s["xf"][i]]] for i in range(nx) if not s["free"][i]]
    return dict(dyn=dyn, run=mul(s["rc"], ["sq", ["u", 0]]), term=None, path=None, tc=tc, x00=s["x0"], xf0=s["xf"],
                u00=[0.0], uf0=[0.0], a0=[], t00=s["t0"], tf0=s["t0"] + s["T"], lbx=[None] * nx, ubx=[None] * nx,
                lbu=[None], ubu=[None], lba=[], uba=[], lbt0=s["t0"], ubt0=s["t0"], lbtf=s["t0"] + s["T"],
                ubtf=s["t0"] + s["T"], midu=0, diff_u=0, duc=0, lbdu=-50.0, ubdu=50.0)


def two_problems(s):
    P = chain_phase(s) if s["kind"] == "chain" else s["phases"][0]
    m = len(s["cut"])
    t0, T = P["t00"], P["tf0"] - P["t00"]
    c = np.concatenate([[0.0], np.cumsum(s["cut"])])
    c[-1] = 1.0
    one = dict(s, orders=s["orders"] * m, phases=[P], nph=1, links=[], lbe=[], ube=[],
               widths=[[q * v for q, w in zip(s["cut"], s["w"]) for v in w]])
    phases = []
    mix = [(1 - q) * np.array(P["x00"], float) + q * np.array(P["xf0"], float) for q in c]
    for p in range(m):
        Q = dict(P, x00=list(mix[p]), xf0=list(mix[p + 1]), t00=t0 + T * c[p], tf0=t0 + T * c[p + 1])
        if p < m - 1:
            Q["term"], Q["tc"] = None, None
        e = 0.1 * T * min(s["cut"]) if s["float"] else 0.0
        Q["lbt0"] = Q["t00"] - (e if p else 0.0)
        Q["ubt0"] = Q["t00"] + (e if p else 0.0)
        Q["lbtf"] = Q["tf0"] - (e if p < m - 1 else 0.0)
        Q["ubtf"] = Q["tf0"] + (e if p < m - 1 else 0.0)
        phases.append(Q)
    nx = s["nx"]
    many = dict(s, phases=phases, nph=m, links=[[i, i + 1] for i in range(m - 1)], lbe=[[0.0] * nx] * (m - 1),
                ube=[[0.0] * nx] * (m - 1), widths=s["w"])
    return one, many


def solve(s):
    mpo = gen.make(s, getattr(mp, CLS[s["cls"]]))
    kw = dict(nlp_solver_options=solvable.OPTS)
    if s["cls"] == "fixed":
        kw["mpopt_options"] = {"nlp_sw_params": [v for w in s["widths"] for v in w]}
    if s["cls"] == "h":
        kw["max_iter"] = 2
    sol = mpo.solve(**kw)
    if solvable.square(mpo):
        raise Inconclusive("as many equations as variables")
    if not mpo.nlp_solver.stats()["success"]:
        if s["float"]:
            raise Inconclusive("ipopt failed")
        fail("the solver did not converge", phases=s["nph"], status=mpo.nlp_solver.stats()["return_status"])
    return mpo, sol


def check_opt(s):
    one, many = two_problems(s)
    m1, s1 = solve(one)
    m2, s2 = solve(many)
    f1, f2 = float(arr(s1["f"]).ravel()[0]), float(arr(s2["f"]).ravel()[0])
    p1 = m1.process_results(s1, plot=False, residual_dx=False)
    p2 = m2.process_results(s2, plot=False, residual_dx=False)
    # the linked problem has additional rows: its optimum is never better
    tol = 1e-6 if s["kind"] == "chain" else 3e-3
    # (the h-adaptive optimizer solves on grids of its own, which do not correspond)
    if not s["float"] and s["cls"] == "fixed":
        check_true(f2 >= f1 - 1e-6 * (1 + abs(f1)), "the linked phases have a better optimum than the single phase",
                   linked=f2, single=f1)
    check_close(f2, f1, tol, "optimal cost of the linked phases and of the single phase", scale=1.0 + abs(f1))
    x2, u2, t2, _ = [arr(q) for q in p2.get_data(list(range(many["nph"])))]
    t2 = t2.ravel()
    P = one["phases"][0]
    check_close(t2[[0, -1]], [P["t00"], P["tf0"]], 1e-6, "start and end of the linked phases", scale=1.0)
    # states of the single phase at the times of the phases
    x1 = single_at(one, m1, p1, t2)
    check_close(x2, x1, 2e-3 if s["kind"] == "chain" else 3e-2, "optimal states of the linked phases and of the single phase", scale=1.0 + np.abs(x1).max())


def single_at(one, mpo, post, t):
    """States of the single phase at given times: own barycentric formula on
    the retrieved node values."""
    x, _, tn, _ = [arr(q) for q in post.get_data([0])]
    tn = tn.ravel()
    out = np.zeros((len(t), x.shape[1]))
    ends = np.concatenate([[0], np.cumsum(one["orders"])])
    for i, q in enumerate(t):
        k = int(np.clip(np.searchsorted(tn[ends], q) - 1, 0, len(ends) - 2))
        sl = slice(ends[k], ends[k + 1] + 1)
        xs = tn[sl]
        L = [np.prod([(q - xs[b]) / (xs[a] - xs[b]) for b in range(len(xs)) if b != a]) for a in range(len(xs))]
        out[i] = np.array(L) @ x[sl]
    return out


SUBS = [
    Sub("program", strat, check, 300, 6000,
        "random problems cut into 2-4 phases at random times, same random trajectory in both: objective, bounds, "
        "rows, retrieved and interpolated data, dynamics residuals; non-trivial: unequal cut",
        lambda s: len(set(s["cut"])) > 1,
        classify=lambda s: gen.spec_labels(s) + [s["cls"], f"cut={len(s['cut'])}"] + [k for k, v in s["end"].items() if v]),
    Sub("optima", opt_strat, check_opt, 100, 2000,
        "integrator chains and smooth nonlinear problems solved in one phase and in 2-4 linked phases, with fixed or "
        "free cut times; non-trivial: all", classify=lambda s: [s["kind"], s["cls"], f"float={s['float']}"]),
]
