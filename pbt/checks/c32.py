"""C32: the parts of the nonlinear program."""
from hypothesis import strategies as st

from .. import gen
from ..core import Sub, arr, check_close, check_true, fail, reading
from ..env import ca, mp, np
from ..solvable import CLS

ASSUMPTIONS = [
    "the whole program of a fresh optimizer, against which the parts are judged, is itself pinned by C06-C12 and C22",
    "the parts are asked for through the documented methods (variables of a phase, discretized phase, event constraints, "
    "initial guess, whole program, solver); trajectories need the whole program first and are not among them",
    "constraint rows are compared with their bounds, in any order; values to 1e-9",
]


@st.composite
def strat(draw, tier="quick"):
    s = draw(gen.specs(maybe=("run", "term", "path", "tc", "links", "midu", "diff_u", "duc"), max_ph=3, depth=2,
                       grid=gen.grids(max_seg=4, max_deg=5, max_nodes=14)))
    s["cls"] = draw(st.sampled_from(["fixed", "h", "adaptive"]))
    ph = st.integers(0, s["nph"] - 1)
    op = st.one_of(st.tuples(st.sampled_from(["vars", "disc", "disc", "guess_phase"]), ph).map(list),
                   st.sampled_from(["events", "guess", "program", "solver", "reset"]).map(lambda q: [q, 0]))
    s["ops"] = draw(st.lists(op, min_size=1, max_size=8))
    # what was asked for on another grid, before the optimizer was given this one and reset (as solve_ph does)
    s["before"] = None
    if draw(st.integers(0, 2)) == 0:
        s["before"] = dict(grid=draw(gen.grids(max_seg=4, max_deg=5, max_nodes=14)),
                           ops=draw(st.lists(op, min_size=1, max_size=4)))
    return s


def widths(s):
    return [float(v) for w in s["widths"] for v in w]


def num(v):
    return np.concatenate([np.ravel(np.array(q, float)) for q in v]) if len(v) else np.zeros(0)


def check(s):
    cls = getattr(mp, CLS[s["cls"]])
    n = gen.Nlp(s, cls)
    vs = gen.random_point(s)
    z = n.pack(vs, s["widths"])
    fw, gw = n.eval(vs, s["widths"])
    guess = arr(n.mpo.initialize_solution()).ravel()
    size = n.n // s["nph"]
    if s["before"]:
        g = s["before"]["grid"]
        k = len(g["orders"])
        mpo = gen.make(dict(s, orders=g["orders"], scheme=g["scheme"], int_orders=False,
                            widths=[[1 / k] * k] * s["nph"]), cls)
    else:
        mpo = gen.make(s, cls)
    disc, events, found = {}, [], {}
    regrid = [["regrid", 0]] if s["before"] else []
    for op, p in (s["before"]["ops"] if s["before"] else []) + regrid + s["ops"]:
        if regrid and op in ("guess", "guess_phase"):
            # of the grid of that moment: only the calls count before the change
            before = mpo.initialize_solution() if op == "guess" else mpo.init_solution_per_phase(p)
            if mpo.n_segments == len(s["orders"]) and list(mpo.poly_orders) == list(s["orders"]) \
                    and mpo.colloc_scheme == s["scheme"]:
                want = guess if op == "guess" else guess[p * size:(p + 1) * size]
                check_close(arr(before).ravel(), want, 0, "initial guess after a change of the grid", scale=1.0)
            continue
        if op == "vars":
            found.setdefault(p, mpo.get_nlp_variables(p))
        elif op == "disc":
            disc.setdefault(p, []).append(mpo.discretize_phase(p))
        elif op == "events":
            events.append(mpo.get_event_constraints())
        elif op == "guess":
            check_close(arr(mpo.initialize_solution()).ravel(), guess, 0, "initial guess", scale=1.0)
        elif op == "guess_phase":
            check_close(arr(mpo.init_solution_per_phase(p)).ravel(), guess[p * size:(p + 1) * size], 0,
                        f"initial guess of phase {p}", scale=1.0)
        else:  # new variables: what was found before belongs to the old ones
            disc, events, found = {}, [], {}
            if op == "regrid":
                mpo.n_segments, mpo.poly_orders, mpo.colloc_scheme = len(s["orders"]), list(s["orders"]), s["scheme"]
                mpo.reset_mpopt()
            elif op == "program":
                mpo.create_nlp()
            elif op == "solver":
                mpo.create_solver(options={"ipopt.print_level": 0, "print_time": 0})
            else:
                mpo.reset_mpopt()
    # the parts of all phases, asked for once more, make up the program
    for p in range(s["nph"]):
        if p not in disc:
            disc[p] = [mpo.discretize_phase(p)]
    events.append(mpo.get_event_constraints())
    Z = [found[p] if p in found else mpo.get_nlp_variables(p) for p in range(s["nph"])]
    with reading("variables of the phases"):
        lb, ub = num([q[1] for q in Z]), num([q[2] for q in Z])
        ins = [ca.vertcat(*[q[0] for q in Z])]
    check_true(ins[0].shape[0] == n.n, "number of variables of all phases", got=ins[0].shape[0], want=n.n)
    check_close(lb, n.lbx, 1e-12, "lower bounds of the variables of the phases")
    check_close(ub, n.ubx, 1e-12, "upper bounds of the variables of the phases")
    args = [z]
    if not n.adaptive:
        ins.append(mpo.seg_widths[:])
        args.append(widths(s))

    def value(e, what):
        with reading(what):
            return arr(ca.Function("v", ins, [ca.vertcat(*e) if isinstance(e, (list, tuple)) else e])(*args)).ravel()
    n_max = max(max(len(v) for v in disc.values()), len(events))
    for k in range(n_max):
        G, lo, hi, J = [], [], [], 0.0
        for p in range(s["nph"]):
            D = disc[p][min(k, len(disc[p]) - 1)]
            with reading(f"discretized phase {p}"):
                check_true(len(D) == 4, "a discretized phase has constraints, two bounds and a cost", got=len(D))
                G.append(value(D[0], f"constraints of phase {p}"))
                lo.append(num([D[1]]))
                hi.append(num([D[2]]))
                J += float(value(D[3], f"cost of phase {p}")[0])
            check_true(len(G[-1]) == len(lo[-1]) == len(hi[-1]), f"constraints of phase {p} and their bounds")
        E = events[min(k, len(events) - 1)]
        with reading("event constraints"):
            if s["nph"] > 1 and len(E[0]):
                G.append(value([ca.vertcat(q) for q in E[0]], "event constraints"))
                lo.append(num(E[1]))
                hi.append(num(E[2]))
        G, lo, hi = [np.concatenate(q) for q in (G, lo, hi)]
        check_true(len(G) == len(lo) == len(hi), "constraints and their bounds")
        check_close(J, fw, 1e-9, "sum of the costs of the phases", scale=1.0 + abs(fw))
        got, want = gen.live_rows(lo, hi), gen.live_rows(n.lbg, n.ubg)
        check_true(got == want, "number of constraints of the parts", got=got, want=want)
        gen.rows_present(G, lo, hi, gw, n.lbg, n.ubg, 1e-9, "constraints of the parts")


SUBS = [
    Sub("parts", strat, check, 150, 2500,
        "random problems, three optimizers, sequences of 1-8 requests (variables, discretized phases, events, guesses, "
        "program, solver, reset) on a fresh optimizer, or on one that was asked on another grid before; the parts against the whole program of another one; "
        "non-trivial: several phases or the first request is for a part",
        lambda s: s["nph"] > 1 or s["ops"][0][0] in ("vars", "disc", "events"),
        classify=lambda s: gen.spec_labels(s) + [s["cls"], "first=" + s["ops"][0][0]] + ["regrid"] * bool(s["before"])),
]
