"""C22: segment widths as variables."""
from hypothesis import strategies as st

from .. import gen, ref, solvable
from ..core import Inconclusive, Sub, arr, check_close, check_true, fail, reading
from ..env import mp, np
from .c16 import terms

ASSUMPTIONS = [
    "the fixed-width program used for the shared terms is itself pinned by C06-C10",
    "the control switches for mid points and slope continuity of the fixed optimizer play no part here: controls are always bounded at the mid points",
    "rows compared to 1e-7 relative (1e-6 for mid-point residuals) with their bounds",
]
A = mp.mpopt_adaptive


@st.composite
def strat(draw, tier="quick"):
    s = draw(gen.specs(maybe=("run", "term", "path", "tc", "diff_u", "links", "midu", "duc"), max_ph=3, depth=2,
                       max_x=2, max_u=2, grid=gen.grids(max_seg=4, max_deg=5)))
    s["mid_res"] = draw(st.booleans())
    s["lbh"] = [draw(st.sampled_from([1e-4, 1e-2, 0.05])) for _ in range(s["nph"])]
    s["ubh"] = [draw(st.sampled_from([1.0, 0.9, 0.75])) for _ in range(s["nph"])]
    s["tolr"] = [draw(st.sampled_from([1e-3, 1e-2, 0.5])) for _ in range(s["nph"])]
    s["set_by"] = draw(st.sampled_from(["class", "instance", "default"]))
    return s


def defaults():
    return A._SEG_WIDTH_MIN, A._SEG_WIDTH_MAX, A._TOL_RESIDUAL


def optimizer(s):
    nph = s["nph"]
    lbh, ubh, tol = s["lbh"], s["ubh"], s["tolr"]
    if s["set_by"] == "class":
        A._SEG_WIDTH_MIN, A._SEG_WIDTH_MAX, A._TOL_RESIDUAL = lbh[0], ubh[0], tol[0]
    d = defaults()
    if s["set_by"] != "instance":
        lbh, ubh, tol = [d[0]] * nph, [d[1]] * nph, [d[2]] * nph
    mpo = gen.make(s, A)
    if s["set_by"] == "instance":
        mpo.lbh, mpo.ubh, mpo.tol_residual = list(lbh), list(ubh), list(tol)
    mpo.mid_residuals = s["mid_res"]
    return mpo, lbh, ubh, tol


def mids(s, r, vs, tol):
    """Extra rows (value, lb, ub), live ones only."""
    out = []
    for ph in range(s["nph"]):
        b, v, w = r.bound_vectors(ph), vs[ph], s["widths"][ph]
        for key, lo, hi, sc in (("U", "lbu", "ubu", r.su), ("X", "lbx", "ubx", r.sx)):
            m = r.g.interp(v[key], r.g.mids())
            for j in range(m.shape[1]):
                if np.isfinite(b[lo][j]) or np.isfinite(b[hi][j]):
                    out += [(q, b[lo][j] * sc[j], b[hi][j] * sc[j]) for q in m[:, j]]
    res = []
    if s["mid_res"]:
        for ph in range(s["nph"]):
            T = terms(s, vs, ph, r.g.mids())
            for k, q in enumerate(T):
                res += [(val, -tol[ph], tol[ph]) for val in (s["widths"][ph][k] * (q[0] - q[1])).ravel()]
    return out, res


def check(s):
    mpo, lbh, ubh, tol = optimizer(s)
    n = gen.Nlp(s, mpo=mpo)
    plain = dict(s, phases=[dict(P, midu=0, duc=0) for P in s["phases"]])
    fx = gen.Nlp(plain, mp.mpopt)
    r = ref.Ref(s)
    vs = gen.random_point(s)
    nseg = len(s["orders"])
    check_true(n.hidx is not None and n.hidx.shape == (s["nph"], nseg), "segment widths are variables")
    for ph in range(s["nph"]):
        check_close(n.lbx[n.hidx[ph]], [lbh[ph]] * nseg, 1e-12, f"lower width bounds of phase {ph}")
        check_close(n.ubx[n.hidx[ph]], [ubh[ph]] * nseg, 1e-12, f"upper width bounds of phase {ph}")
        for k in ("X", "U", "A"):
            check_close(n.lbx[n.idx[ph][k]], fx.lbx[fx.idx[ph][k]], 1e-12, f"lower bounds of {k}, phase {ph}")
            check_close(n.ubx[n.idx[ph][k]], fx.ubx[fx.idx[ph][k]], 1e-12, f"upper bounds of {k}, phase {ph}")
        for k in ("t0", "tf"):
            check_close(n.lbx[n.idx[ph][k]], fx.lbx[fx.idx[ph][k]], 1e-12, f"lower bound of {k}, phase {ph}")
            check_close(n.ubx[n.idx[ph][k]], fx.ubx[fx.idx[ph][k]], 1e-12, f"upper bound of {k}, phase {ph}")
    f, g = n.eval(vs, s["widths"])
    f1, g1 = fx.eval(vs, s["widths"])
    check_close(f, f1, 1e-9, "objective differs from that of the fixed-width problem", scale=1.0)
    extra, res = mids(s, r, vs, tol)
    sums = [(0.0, 0.0, 0.0)] * s["nph"]
    live = gen.live_rows(fx.lbg, fx.ubg)
    have = gen.live_rows(n.lbg, n.ubg)
    check_true(have == live + len(sums) + len(extra) + len(res), "number of constraints", got=have, fixed=live,
               widths=len(sums), mid_bounds=len(extra), mid_residuals=len(res))
    k = ~(np.isneginf(fx.lbg) & np.isposinf(fx.ubg))
    rows = list(zip(g1[k], fx.lbg[k], fx.ubg[k])) + sums + extra
    gen.rows_present(g, n.lbg, n.ubg, *map(np.array, zip(*rows)), 1e-7, "constraints of the adaptive problem")
    if res:
        big = max(1.0, max(abs(q[0]) for q in res))
        gen.rows_present(g, n.lbg, n.ubg, *map(np.array, zip(*(rows + res))), 1e-7 * max(1.0, min(10.0, big)),
                         "mid-point rows of the adaptive problem")
    # the sum of the widths is constrained: rows away from a sum of one
    z = n.pack(vs, s["widths"])
    for ph in range(s["nph"]):
        z2 = z.copy()
        z2[n.hidx[ph]] *= 1.25
        g2 = arr(n.fn(z2)[1]).ravel()
        eq = (n.lbg == 0) & (n.ubg == 0)
        check_true(np.any(np.abs(np.abs(g2[eq]) - 0.25) < 1e-9), f"no constraint on the sum of widths of phase {ph}")
        # ... and is zero at a sum of one, whatever the widths
        hit = eq & (np.abs(np.abs(g2) - 0.25) < 1e-9)
        check_true(np.any(np.abs(g[hit]) < 1e-9), f"the constraint on the sum of widths of phase {ph} does not hold at one")


@st.composite
def solve_strat(draw, tier="quick"):
    s = draw(solvable.problems(max_ph=2, max_x=3, stiff=draw(st.booleans()), params=True,
                               grid=gen.grids(max_seg=3, max_deg=4, max_nodes=12)))
    s["mid_res"] = draw(st.booleans())
    s["lbh"] = [draw(st.sampled_from([1e-2, 0.1])) for _ in range(s["nph"])]
    s["ubh"] = [draw(st.sampled_from([1.0, 0.9])) if len(s["orders"]) > 1 else 1.0 for _ in range(s["nph"])]
    s["tolr"] = [draw(st.sampled_from([1e-1, 1e-2])) for _ in range(s["nph"])]
    s["set_by"] = "instance"
    s["twice"] = draw(st.booleans())
    return s


def check_solve(s):
    mpo, lbh, ubh, tol = optimizer(s)
    spy = solvable.spy(mpo)
    sol = mpo.solve()
    if s["twice"]:
        # a second solve of the same optimizer reports the second widths
        x0 = arr(sol["x"]).ravel() * 0.5
        sol = mpo.solve(initial_solution={"x": x0})
        check_close(arr(spy.calls[-1]["kw"]["x0"]).ravel(), x0, 0, "start of the second solve", scale=1.0)
    x = arr(sol["x"]).ravel()
    check_close(x, spy.calls[-1]["x"], 0, "returned solution", scale=1.0)
    nlp = gen.Nlp(s, mpo=optimizer(s)[0])
    with reading("reported widths"):
        w = arr(mpo._nlp_sw_params).ravel()
    check_close(w, x[nlp.hidx].ravel(), 1e-13, "reported widths are not those of the solution")
    post = mpo.process_results(sol, plot=False, residual_dx=False)
    check_close(arr(post.options["seg_widths"]).ravel(), w, 1e-13, "widths of the processed results")
    if not spy.calls[-1]["ok"]:
        raise Inconclusive("ipopt failed")
    for ph in range(s["nph"]):
        h = x[nlp.hidx[ph]]
        check_close(h.sum(), 1.0, 1e-6, "sum of the widths")
        check_true(np.all(h >= lbh[ph] - 1e-6) and np.all(h <= ubh[ph] + 1e-6), "width outside of its bounds", h=h)
    v, f = solvable.infeasibility(nlp, x, None)
    check_true(v < 1e-6, "the returned solution is infeasible", violation=v)
    # it is feasible and has this cost on these widths in the fixed problem
    fx = gen.Nlp(s)
    vs = [dict(X=x[d["X"]], U=x[d["U"]], A=x[d["A"]], t0=x[d["t0"]], tf=x[d["tf"]]) for d in nlp.idx]
    ww = [x[nlp.hidx[ph]] for ph in range(s["nph"])]
    v, f1 = solvable.infeasibility(fx, fx.pack(vs, ww), np.concatenate(ww))
    check_true(v < 1e-5, "infeasible for the fixed-width problem on these widths", violation=v)
    check_close(f1, f, 1e-6, "cost on these widths", scale=1.0)


SUBS = [
    Sub("program", strat, check, 500, 8000,
        "random problems (1-3 phases, 1-4 segments of random widths, scaling, all kinds of constraints, mid-point "
        "residuals on or off, width bounds and tolerances per class or instance); objective, every constraint row "
        "with its bounds and their number; non-trivial: several segments",
        lambda s: len(s["orders"]) > 1,
        classify=lambda s: gen.spec_labels(s) + [f"set_by={s['set_by']}", f"mid_residuals={s['mid_res']}"]),
    Sub("solve", solve_strat, check_solve, 100, 1500,
        "adaptive solves of small problems, also repeated; non-trivial: several segments",
        lambda s: len(s["orders"]) > 1, classify=gen.spec_labels),
]
