"""C21: the h-adaptive solve."""
from hypothesis import strategies as st

from .. import gen, solvable
from ..core import Inconclusive, Sub, arr, check_close, check_true, fail, reading
from ..env import ca, mp, np

ASSUMPTIONS = [
    "the NLP solver is ipopt on small problems; cases in which ipopt itself reports failure still have to report the widths used, but are not judged for feasibility",
    "no iterations allowed (max_iter=0) is left out: there is no solution to return",
    "the residuals in the iteration record are those of the public residual function (pinned by C16) on the recorded solution and widths",
]
H = mp.mpopt_h_adaptive


@st.composite
def strat(draw, tier="quick"):
    s = draw(solvable.problems(max_ph=2, max_x=3, stiff=draw(st.booleans()), params=True,
                               grid=gen.grids(max_seg=4, max_deg=4, max_nodes=14)))
    s["max_iter"] = draw(st.sampled_from([1, 2, 3, 4, 6, 10]))
    s["method"] = draw(st.sampled_from([None, ["residual", "merge_split"], ["residual", "equal_area"],
                                        ["residual", None], ["control_slope", None]]))
    s["tol"] = [draw(st.sampled_from([1e-1, 1e-2, 1e-3, 1e-4, 1e-9])) for _ in range(s["nph"])]
    s["start"] = draw(st.sampled_from(["none", "none", "none", "solution", "again"]))
    s["gt"] = draw(st.sampled_from(["fixed", "fixed", "mid-points", "spectral"]))
    s["mute"] = draw(st.booleans())
    return s


def options(s):
    if s["method"] is None:
        return {}
    m, sub = s["method"]
    return {"mpopt_options": dict(method=m, **({"sub_method": sub} if sub else {}))}


def max_residual(s, x, w):
    mpo = gen.make(s, mp.mpopt)
    mpo.create_nlp()
    mpo.grid_type = [s["gt"]] * s["nph"]
    mpo._nlp_sw_params = list(w)
    _, res = mpo.get_dynamics_residuals({"x": ca.DM(x)})
    return max(np.abs(arr(q)).max() for r in res for q in r if q is not None)


def check(s):
    mp.mpopt._MUTE_ = s["mute"]
    ns, nph = len(s["orders"]), s["nph"]
    mpo = gen.make(s, H)
    spy = solvable.spy(mpo)
    mpo.tol_residual = list(s["tol"])
    mpo.grid_type = [s["gt"]] * nph
    equal = np.full(ns * nph, 1.0 / ns)
    kw = dict(max_iter=s["max_iter"], **options(s))
    if s["start"] == "solution":
        fixed = gen.make(s, mp.mpopt)
        kw["initial_solution"] = fixed.solve(nlp_solver_options=solvable.OPTS)
    elif s["start"] == "again":
        kw["initial_solution"] = mpo.solve(**kw)
        spy.calls.clear()
    given = kw.get("initial_solution")
    given_x = None if given is None else arr(given["x"]).ravel()
    w_start = equal if s["start"] != "again" else arr(mpo._nlp_sw_params).ravel()
    sol = mpo.solve(**kw)
    n = len(spy.calls)
    check_true(n <= s["max_iter"], "more NLPs solved than allowed", solved=n, allowed=s["max_iter"])
    with reading("result of the h-adaptive solve"):
        w = arr(mpo._nlp_sw_params).ravel()
        x = arr(sol["x"]).ravel()
        info, count = dict(mpo.iter_info), int(mpo.iter_count)
    check_true(len(w) == ns * nph and np.all(w >= 0), "reported widths", widths=w)
    check_close(w.reshape(nph, ns).sum(axis=1), np.ones(nph), 1e-9, "sum of the reported widths")
    check_true(count == n, "iteration count differs from the NLPs solved", count=count, solved=n)
    if n == 0:
        check_true(given is not None and ns > 1, "nothing was solved")
        check_close(x, given_x, 0, "returned solution without a solve")
        err = max_residual(s, given_x, w_start)
        check_true(err < min(s["tol"]) * (1 + 1e-6), "no NLP solved although the residual is larger than the tolerance",
                   residual=err, tol=s["tol"])
        if s["start"] == "again":
            check_close(w, w_start, 0, "widths reported without a solve")
        check_true(sorted(info) == [0], "iteration record without a solve", record=info)
        return
    last = spy.calls[-1]
    check_close(x, last["x"], 0, "the returned solution is not that of the last NLP", scale=1.0)
    check_close(w, arr(last["kw"]["p"]).ravel(), 1e-13, "reported widths are not those of the returned solution")
    for c in spy.calls:
        p = arr(c["kw"]["p"]).ravel()
        check_close(p.reshape(nph, ns).sum(axis=1), np.ones(nph), 1e-9, "sum of the widths of an NLP")
    # iteration record
    check_true(sorted(info) == list(range(1, n + 1)), "iterations of the record", record=sorted(info), solved=n)
    if ns > 1:
        for k, c in enumerate(spy.calls):
            err = max_residual(s, c["x"], arr(c["kw"]["p"]).ravel())
            check_close(info[k + 1], err, 1e-6, f"residual of iteration {k + 1} in the record", scale=1e-6)
        # the record explains the end of the iterations
        errs = [float(info[k]) for k in range(1, n + 1)]
        check_true(all(e >= min(s["tol"]) * (1 - 1e-6) for e in errs[:-1]),
                   "iterated although the tolerance was reached", errors=errs, tol=s["tol"])
    # warm starts: each NLP starts from the previous solution
    for a, b in zip(spy.calls, spy.calls[1:]):
        check_close(arr(b["kw"]["x0"]).ravel(), a["x"], 0, "iterations start from the previous solution", scale=1.0)
    if given is not None:
        check_close(arr(spy.calls[0]["kw"]["x0"]).ravel(), given_x, 0, "start from the given solution", scale=1.0)
    else:
        check_close(arr(spy.calls[0]["kw"]["p"]).ravel(), equal, 1e-13, "first iteration on equal widths")
    if not last["ok"]:
        raise Inconclusive("ipopt failed")
    nlp = gen.Nlp(s)
    v, f = solvable.infeasibility(nlp, x, w)
    check_true(v < 1e-6, "the returned solution is infeasible on the reported widths", violation=v)
    check_close(arr(sol["f"]).ravel()[0], f, 1e-7, "objective of the returned solution on the reported widths",
                scale=1.0)
    # solving the fixed problem on these widths from here stays here
    fixed = gen.make(s, mp.mpopt)
    again = fixed.solve(initial_solution={k: sol[k] for k in ("x", "lam_x", "lam_g")},
                        nlp_solver_options=solvable.OPTS, mpopt_options={"nlp_sw_params": list(w)})
    check_close(arr(again["f"]).ravel()[0], f, 1e-5, "optimal cost of the fixed problem on the reported widths",
                scale=1.0)
    if given is None and (ns == 1 or s["max_iter"] == 1):
        fixed = gen.make(s, mp.mpopt)
        ref = fixed.solve(nlp_solver_options=solvable.OPTS)
        check_close(f, arr(ref["f"]).ravel()[0], 1e-6, "cost of the fixed optimizer on equal widths", scale=1.0)
        check_close(x, arr(ref["x"]).ravel(), 1e-5, "solution of the fixed optimizer on equal widths", scale=1.0)
    # retrieval and residuals of the returned solution use its widths
    post = mpo.process_results(sol, plot=False, residual_dx=True)
    with reading("processed results"):
        ww = arr(post.options["seg_widths"]).ravel()
    check_close(ww, w, 1e-13, "widths of the processed results")


SUBS = [
    Sub("solve", strat, check, 260, 3500,
        "h-adaptive solves of small control problems (1-2 phases, 1-4 segments, smooth and kinked forcing), all "
        "refinement methods, 1-10 iterations, tolerances per phase, cold and warm starts; non-trivial: several "
        "segments and iterations allowed",
        lambda s: len(s["orders"]) > 1 and s["max_iter"] > 1,
        classify=lambda s: gen.spec_labels(s) + [f"method={s['method']}", f"max_iter={s['max_iter']}",
                                                 f"start={s['start']}"]),
]
