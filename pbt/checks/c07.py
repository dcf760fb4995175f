"""C07: objective of the NLP."""
from hypothesis import strategies as st

from .. import gen, ref
from ..core import Sub, check_true, fail
from ..env import mp, np

ASSUMPTIONS = [
    "reference objective with independently computed interpolatory weights; tolerance 1e-8 (numerical engine, degrees <= 8; 1e-5 up to 10) or 3e-4 (symbolic engine) relative to the sum of the absolute terms",
]


def tol(s):
    if s["engine"] == "symbolic":
        return 3e-4 * (1 + max(s["orders"]) / 4)
    return 1e-8 if max(s["orders"]) <= 8 else 1e-5


def strat(tier):
    big = tier == "thorough"
    g = gen.grids(max_seg=6 if big else 4, max_deg=8, high=True, max_nodes=40 if big else 28)
    return st.one_of(
        gen.specs(on=("run",), maybe=("term", "midu", "diff_u", "links"), max_ph=3, depth=3, grid=g),
        gen.specs(on=(), maybe=("run", "term", "path", "tc", "links"), max_ph=3),
    )


def check(s):
    n = gen.Nlp(s)
    r = ref.Ref(s)
    vs = gen.random_point(s)
    f, _ = n.eval(vs, s["widths"])
    J, mag = 0.0, 1.0
    for ph in range(s["nph"]):
        j, m = r.cost(ph, vs[ph], s["widths"][ph])
        J += j
        mag += m
    if not abs(f - J) <= tol(s) * mag:
        fail("objective differs from the Bolza cost of the trajectory", got=f, want=J, magnitude=mag)


@st.composite
def poly(draw, tier="quick"):
    s = draw(gen.specs(max_ph=3, max_a=1, depth=1))
    d = min(s["orders"])
    s["cost"] = [draw(st.lists(gen.eighths, min_size=1, max_size=d + 1)) for _ in range(s["nph"])]
    return s


def check_poly(s):
    """Running cost that is a polynomial of time: the exact integral."""
    P = np.polynomial.polynomial
    phases = []
    for q, c in zip(s["phases"], s["cost"]):
        e = ["c", float(c[-1])]
        for a in c[-2::-1]:
            e = ["+", ["*", e, ["t"]], ["c", float(a)]]
        phases.append(dict(q, run=e))
    s = dict(s, phases=phases)
    n = gen.Nlp(s)
    vs = gen.random_point(s)
    f, _ = n.eval(vs, s["widths"])
    J, mag = 0.0, 1.0
    for v, c in zip(vs, s["cost"]):
        t0, tf = v["t0"] / s["scale"]["t"], v["tf"] / s["scale"]["t"]
        q = P.polyint(c)
        J += P.polyval(tf, q) - P.polyval(t0, q)
        mag += (tf - t0) * sum(abs(a) * max(abs(t0), abs(tf)) ** i for i, a in enumerate(c))
    if not abs(f - J) <= tol(s) * mag:
        fail("objective differs from the exact integral", got=f, want=J)


SUBS = [
    Sub("value", strat, check, 900, 12000,
        "random problem and NLP point; objective against the reference Bolza cost; non-trivial: a "
        "running or terminal cost that depends on the point",
        lambda s: any(q[k] is not None and ref.ops_of(q[k]) != {"c"} for q in s["phases"] for k in ("run", "term")),
        classify=gen.spec_labels),
    Sub("polynomial_cost", lambda tier: poly(), check_poly, 300, 4000,
        "running cost that is a polynomial of time of at most the smallest segment degree, against "
        "its exact integral; non-trivial: degree >= 1",
        lambda s: any(len(c) > 1 for c in s["cost"]), classify=gen.spec_labels),
]
