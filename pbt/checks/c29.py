"""C29: the one-call solve equals the manual pipeline."""
import copy

from hypothesis import strategies as st

from .. import gen, solvable
from ..core import Inconclusive, Sub, arr, check_close, check_true, loud, reading
from ..env import mp, np
from .c25 import SETS
from .c28 import lines_of

ASSUMPTIONS = [
    "manual pipeline: an optimizer of class mpopt for the given grid and scheme, its solve with the given arguments and its process_results with the given switches; that these are right is pinned by C01-C18, C25 and C28",
    "the solver is deterministic: same calls give the same iterates (compared to 1e-9)",
    "the accuracy of a failed ipopt run is no part of the property, only that both runs agree",
]


@st.composite
def strat(draw, tier="quick"):
    s = draw(solvable.problems(max_ph=3, max_x=3, params=True, free_tf=draw(st.booleans()),
                               grid=gen.grids(max_seg=4, max_deg=5, max_nodes=14)))
    s["engine"] = draw(st.sampled_from(["numerical", "numerical", "symbolic"]))
    s["form"] = draw(st.sampled_from(["lists", "lists", "keywords", "int", "default scheme"]))
    s["rx"] = draw(st.sampled_from([None, False, True]))
    s["rdx"] = draw(st.sampled_from([None, False, True]))
    s["plot"] = draw(st.sampled_from([None, True, False, False]))
    args = {}
    if draw(st.booleans()):
        args["opts"] = draw(st.sampled_from(["tight", "default", "two", "seven", "sqp"]))
    if draw(st.booleans()):
        args["init"] = draw(st.sampled_from(["x", "x0", "none"]))
    if draw(st.booleans()):
        args["widths"] = True
    if draw(st.booleans()):
        args["reinit"] = draw(st.booleans())
    s["args"] = args
    s["give"] = bool(args) or draw(st.booleans())
    s["loud"] = draw(st.booleans())
    s["minimal"] = draw(st.integers(0, 9)) == 0
    return s


def grid_args(s):
    """Positional and keyword arguments of the one-call solve, and what they mean."""
    n, orders, scheme = len(s["orders"]), list(s["orders"]), s["scheme"]
    if s["minimal"]:
        return (), {}, (1, [9], "LGR")
    if s["form"] == "int":
        d = max(orders[0], 2)
        return (1, d, scheme), {}, (1, [d], scheme)
    if s["form"] == "keywords":
        return (), dict(poly_orders=orders, n_segments=n, scheme=scheme), (n, orders, scheme)
    if s["form"] == "default scheme":
        return (n, orders), {}, (n, orders, "LGR")
    return (n, orders, scheme), {}, (n, orders, scheme)


def solver_args(s, nseg, size):
    a, out = s["args"], {}
    if "opts" in a:
        out["solver"], out["nlp_solver_options"] = copy.deepcopy(SETS[a["opts"]])
    if "init" in a:
        rng = np.random.RandomState(3)
        out["initial_solution"] = None if a["init"] == "none" else {a["init"]: rng.uniform(-0.5, 1.0, size)}
    if "widths" in a:
        w = s["widths"] if nseg == len(s["orders"]) else [[1 / nseg] * nseg] * s["nph"]
        out["mpopt_options"] = {"nlp_sw_params": [v for q in w for v in q]}
    if "reinit" in a:
        out["reinitialize_nlp"] = a["reinit"]
    return out


def equal(a, b, what):
    a, b = arr(a), arr(b)
    if a.shape == b.shape and not (np.all(np.isfinite(a)) and np.all(np.isfinite(b))):
        raise Inconclusive("the solver diverged")
    check_true(a.shape == b.shape, f"{what}: shapes", got=a.shape, want=b.shape)
    check_close(a, b, 1e-9, what, scale=1.0 + (np.abs(b).max() if b.size else 0))


def check(s):
    import matplotlib.pyplot as plt

    gen.apply_settings(s)
    pos, kw, (nseg, orders, scheme) = grid_args(s)
    m = mp.mpopt(gen.build_ocp(s), nseg, orders, scheme)
    mm = mp.mpopt(gen.build_ocp(s), nseg, orders, scheme)
    mm.create_nlp()
    size = arr(mm.initialize_solution()).size
    args = solver_args(s, nseg, size)
    switches = {k: v for k, v in (("residual_x", s["rx"]), ("residual_dx", s["rdx"])) if v is not None}
    pk = {} if s["plot"] is None else {"plot": s["plot"]}
    give = {"solve_dict": copy.deepcopy(args)} if s["give"] else {}
    with loud(s["loud"]):
        with reading("result of the one-call solve"):
            mpo, post = mp.solve(gen.build_ocp(s), *pos, **kw, **pk, **switches, **give)
        figs = [[lines_of(ax) for ax in plt.figure(i).axes] for i in plt.get_fignums()]
        plt.close("all")
        sol = m.solve(**(args if s["give"] else {}))
        want = m.process_results(sol, **pk, **switches)
        figs2 = [[lines_of(ax) for ax in plt.figure(i).axes] for i in plt.get_fignums()]
    check_true(type(mpo) is mp.mpopt, "class of the optimizer", got=type(mpo).__name__)
    with reading("solution of the one-call solve"):
        x, f = post.solution["x"], post.solution["f"]
    equal(x, sol["x"], "solution")
    equal(f, sol["f"], "objective value")
    for k in ("lam_x", "lam_g"):
        equal(post.solution[k], sol[k], f"multipliers {k}")
    # the optimizer is the one that found it: grid, program, later evaluations
    check_true(list(mpo.poly_orders) == list(orders) and mpo.n_segments == nseg and mpo.colloc_scheme == scheme,
               "grid of the optimizer", orders=mpo.poly_orders, n_segments=mpo.n_segments, scheme=mpo.colloc_scheme)
    equal(arr(mpo._nlp_sw_params).ravel(), arr(m._nlp_sw_params).ravel(), "segment widths")
    equal(mpo.get_solver_warm_start_input_parameters(None)["x0"], m.get_solver_warm_start_input_parameters(None)["x0"],
          "start of the optimizer")
    ta, ra = mpo.get_dynamics_residuals(post.solution)
    tb, rb = m.get_dynamics_residuals(sol)
    for p, q in zip(ra, rb):
        for a, b in zip(p, q):
            if b is not None:
                equal(a, b, "dynamics residuals by the optimizer")
    # the post-processor
    for interp in (False, True):
        for ph in range(s["nph"]):
            for name, a, b in zip("xuta", post.get_data([ph], interp), want.get_data([ph], interp)):
                equal(a, b, f"data {name} of phase {ph}, interpolate={interp}")
        for name, a, b in zip("xut", post.get_data([], interp), want.get_data([], interp)):
            equal(a, b, f"data {name} of the default phases, interpolate={interp}")
    r1, r2 = post.residuals, want.residuals
    rx = s["rx"] if s["rx"] is not None else False
    rdx = s["rdx"] if s["rdx"] is not None else True
    keys = [k for k, on in (("t_x", rx), ("t_dx", rdx)) if on]
    for name, r in (("one-call", r1), ("manual", r2)):
        check_true(sorted(r or {}) == sorted(keys), f"residuals of the {name} pipeline", got=sorted(r or {}), want=keys)
    for k in keys:
        for i in (0, 1):
            for p, q in zip(r1[k][i], r2[k][i]):
                for a, b in zip(p, q):
                    if b is None:
                        check_true(a is None or len(a) == 0, f"residuals {k}")
                    else:
                        equal(a, b, f"residuals {k}")
    # plots
    plots = s["plot"] if s["plot"] is not None else True
    check_true(len(figs) == len(figs2) == (1 if plots else 0), "number of figures", one_call=len(figs), manual=len(figs2))
    for fa, fb in zip(figs, figs2):
        check_true(len(fa) == len(fb) == 2 + len(keys), "number of axes", got=len(fa), want=2 + len(keys))
        for i, (a, b) in enumerate(zip(fa, fb)):
            check_true(len(a) == len(b), "number of curves", got=len(a), want=len(b))
            for p in a:
                check_true(any(near(p, q) for q in b), f"axis {i} of the plot shows another curve")


def near(a, b):
    return all(p.shape == q.shape and np.allclose(p, q, rtol=1e-7, atol=1e-9) for p, q in zip(a, b))


SUBS = [
    Sub("pipeline", strat, check, 200, 2500,
        "small problems (1-3 phases, parameters, free end time, both engines); positional, keyword, integer and default "
        "grid arguments; solver, options, initial guess, widths and reinitialization; residual and plot switches, also "
        "left out; solution, multipliers, data, residuals and plots compared; non-trivial: solver arguments or "
        "switches given or several segments",
        lambda s: bool(s["args"]) or s["rx"] is not None or s["rdx"] is not None or len(s["orders"]) > 1,
        classify=lambda s: gen.spec_labels(s) + [f"form={s['form']}", f"plot={s['plot']}"] + [f"arg={k}" for k in s["args"]]
        + [f"rx={s['rx']}", f"rdx={s['rdx']}"]),
]
