"""C06: dynamics constraints are the collocated ODE."""
from hypothesis import strategies as st

from .. import gen, ref
from ..core import Sub, check_close, check_true, fail
from ..env import mp, np

ASSUMPTIONS = [
    "reference transcription (pbt/ref.py): barycentric differentiation on independently computed nodes",
    "decision vector layout is taken from the optimizer's own trajectory functions (property C14)",
    "value comparison up to 1e-7 relative to max(1, |value|); equality rows up to their sign",
]
TOL = 1e-7


def strat(tier):
    big = tier == "thorough"
    return st.one_of(
        gen.specs(on=(), maybe=("run", "term"), max_ph=3),
        gen.specs(on=(), maybe=("run", "links", "path", "tc"), max_ph=3,
                  grid=gen.grids(max_seg=6 if big else 4, max_deg=8, high=True,
                                 max_nodes=40 if big else 28)),
    )


def dyn_tol(s):
    return TOL * (10 if max(s["orders"]) > 8 else 1)


def check(s):
    n = gen.Nlp(s)
    r = ref.Ref(s)
    vs = gen.random_point(s)
    f, g = n.eval(vs, s["widths"])
    plain = not s["links"] and all(P["path"] is None and P["tc"] is None for P in s["phases"])
    want_n = s["nph"] * s["nx"] * r.g.N
    if plain:
        check_true(n.m == want_n, "number of constraints of a problem with dynamics only",
                   got=n.m, want=want_n)
    else:
        eq = int(((n.lbg == 0) & (n.ubg == 0)).sum())
        extra = sum(len(P["tc"]) for P in s["phases"] if P["tc"])
        for k in range(len(s["links"])):
            extra += s["nu"] + 1
            extra += sum(1 for a, b in zip(s["lbe"][k], s["ube"][k]) if a == 0 and b == 0)
        check_true(eq == want_n + extra, "number of equality constraints", got=eq,
                   want=want_n + extra)
    rows = [r.dynamics_rows(ph, vs[ph], s["widths"][ph]) for ph in range(s["nph"])]
    want = np.concatenate([q.ravel() for q in rows])
    z = np.zeros(len(want))
    gen.rows_present(g, n.lbg, n.ubg, want, z, z, dyn_tol(s), "dynamics constraints")


def nontrivial(s):
    return any(any(k[0] in ("x", "u", "t", "a") for k in _leaves(e)) for P in s["phases"] for e in P["dyn"])


def _leaves(e):
    if e[0] in ("x", "u", "t", "a", "c"):
        return [e]
    return [q for k in e[1:] for q in _leaves(k)]


# ---- exactness: polynomial trajectories of an ODE satisfy every constraint
@st.composite
def poly_strat(draw, tier="quick"):
    s = draw(gen.specs(max_ph=2, max_a=0, depth=2, max_x=2, max_u=2))
    deg = min(s["orders"])
    s["polys"] = [
        [draw(st.lists(gen.eighths, min_size=1, max_size=deg + 1)) for _ in range(s["nx"])]
        for _ in range(s["nph"])
    ]
    return s


def check_poly(s):
    """x_i = P_i(t) solves x_i' = P_i'(t) + (x_i - P_i(t)) * (anything)."""
    P = np.polynomial.polynomial
    s = dict(s, phases=[dict(q) for q in s["phases"]])

    def horner(c):
        e = ["c", float(c[-1])]
        for a in c[-2::-1]:
            e = ["+", ["*", e, ["t"]], ["c", float(a)]]
        return e

    for ph, q in enumerate(s["phases"]):
        q["dyn"] = [
            ["+", horner(list(P.polyder(s["polys"][ph][i])) or [0.0]),
             ["*", ["-", ["x", i], horner(s["polys"][ph][i])], q["dyn"][i]]]
            for i in range(s["nx"])
        ]
    n = gen.Nlp(s)
    g_ = ref.Grid(s["scheme"], s["orders"], s["tau"])
    vs = gen.random_point(s)
    sx, stt = np.array(s["scale"]["x"]), s["scale"]["t"]
    for ph, v in enumerate(vs):
        t = g_.times(s["widths"][ph], v["t0"] / stt, v["tf"] / stt)
        v["X"] = np.stack([P.polyval(t, c) for c in s["polys"][ph]], axis=1) * sx
    f, g = n.eval(vs, s["widths"])
    mag = max([1.0] + [float(np.abs(v["X"]).max()) for v in vs])
    worst = np.abs(g).max() if len(g) else 0.0
    if not worst <= 1e-8 * mag:
        fail("polynomial solution of the ODE violates the collocated dynamics",
             worst=worst, row=int(np.argmax(np.abs(g))))


SUBS = [
    Sub("rows", strat, check, 900, 12000,
        "random problem (1-3 phases, states, controls, 0-2 parameters, 1-4 segments of unequal "
        "width and degree, scheme, interval, engine, scaling, random dynamics expressions) and a "
        "random point of its NLP; every dynamics row of the reference must occur exactly once; "
        "non-trivial: dynamics depend on at least one variable",
        nontrivial, classify=gen.spec_labels),
    Sub("polynomial_solution", lambda tier: poly_strat(), check_poly, 300, 4000,
        "ODE with a known polynomial solution of at most the smallest segment degree; its samples "
        "must satisfy all dynamics constraints; non-trivial: some polynomial of degree >= 1",
        lambda s: any(len(c) > 1 for q in s["polys"] for c in q), classify=gen.spec_labels),
]
