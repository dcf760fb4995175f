"""C08: path and terminal constraints."""
from hypothesis import strategies as st

from .. import gen, ref
from ..core import Sub, check_true, fail
from ..env import mp, np

ASSUMPTIONS = ["values compared up to 1e-8 relative to max(1, |value|); rows with two infinite bounds are vacuous and ignored"]
TOL = 1e-8


@st.composite
def strat(draw, tier="quick"):
    big = tier == "thorough"
    g = gen.grids(max_seg=6 if big else 4, max_deg=6, max_nodes=40 if big else 24)
    s = draw(gen.specs(maybe=("path", "tc", "path", "tc", "run", "links"), max_ph=3, grid=g, depth=2))
    consts = {}
    for k in ("PATH", "TERMINAL"):
        if draw(st.integers(0, 3)) == 0:
            a, b = sorted([draw(gen.eighths), draw(gen.eighths)])
            consts[f"LB_{k}_CONSTRAINTS"], consts[f"UB_{k}_CONSTRAINTS"] = a, b
    s["consts"] = consts
    return s


def bnds(s):
    c = s["consts"]
    return (
        (c.get("LB_PATH_CONSTRAINTS", -np.inf), c.get("UB_PATH_CONSTRAINTS", 0.0)),
        (c.get("LB_TERMINAL_CONSTRAINTS", 0.0), c.get("UB_TERMINAL_CONSTRAINTS", 0.0)),
    )


def check(s):
    n = gen.Nlp(s)
    r = ref.Ref(s)
    vs = gen.random_point(s)
    f, g = n.eval(vs, s["widths"])
    (pl, pu), (tl, tu) = bnds(s)
    want, lb, ub = [], [], []
    for ph in range(s["nph"]):
        for q, a, b in ((r.path_rows(ph, vs[ph], s["widths"][ph]).ravel(), pl, pu),
                        (r.term_rows(ph, vs[ph]).ravel(), tl, tu)):
            want += list(q)
            lb += [a] * len(q)
            ub += [b] * len(q)
    # everything else that is in the program
    other = s["nph"] * s["nx"] * r.g.N
    for k in range(len(s["links"])):
        other += s["nu"] + 1 + sum(
            1 for a, b in zip(s["lbe"][k], s["ube"][k]) if not (a is None and b is None))
    have = gen.live_rows(n.lbg, n.ubg)
    check_true(have == len(want) + other, "number of constraints", got=have, want=len(want) + other,
               path_and_terminal=len(want))
    gen.rows_present(g, n.lbg, n.ubg, want, lb, ub, TOL, "path and terminal constraints")


def nontrivial(s):
    return any(q["path"] is not None or q["tc"] is not None for q in s["phases"])


SUBS = [
    Sub("rows", strat, check, 1000, 14000,
        "random problem whose phases have 0-3 path and terminal constraints each, default or own "
        "bounds, at a random NLP point; every row with its bounds, and the total number of rows; "
        "non-trivial: some phase has such a constraint", nontrivial, classify=gen.spec_labels),
]
