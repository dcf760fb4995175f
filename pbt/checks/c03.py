"""C03: interpolation matrices."""
from hypothesis import strategies as st

from .. import colloc, gen, ref
from ..core import Sub, arr, check_close, check_true
from ..env import mp, np

ASSUMPTIONS = ["oracle: Legendre-series value of a random continuous piecewise polynomial; tolerance by engine and degree"]


def strat(tier):
    return colloc.with_points(tier, top=12 if tier == "thorough" else 10, max_seg=5, max_pts=8)


def check(c):
    k = colloc.approximation(c)
    v, coefs = colloc.continuous(c)
    at = colloc.points(c)
    tol = colloc.tol_alg(c["engine"], max(c["orders"]))
    sc = colloc.size(v) * (1 + max(np.abs(q).sum() for q in coefs))
    want = [ref.poly_on(coefs[i], a, c["tau"]) for i, a in enumerate(at)]
    n = sum(len(a) for a in at)
    E = arr(k.get_composite_interpolation_matrix(at, colloc.po(c)), "composite interpolation")
    check_true(E.shape == (n, len(v)), "one row per point", got=E.shape, want=(n, len(v)))
    if n:
        check_close(E @ v, np.concatenate(want), tol, "interpolated values", scale=sc)
        check_close(E.sum(axis=1), np.ones(n), tol, "rows sum to one", scale=sc)
    per = k.get_interpolation_matrices(at, colloc.po(c))
    check_true(len(per) == len(at), "one matrix per segment", got=len(per))
    s = 0
    for i, p in enumerate(c["orders"]):
        if len(at[i]):
            check_close(arr(per[i]) @ v[s:s + p + 1], want[i], tol, "values in a segment", scale=sc)
            M = arr(k.get_interpolation_matrix(at[i], p), "interpolation matrix")
            check_close(M @ v[s:s + p + 1], want[i], tol, "values of one matrix", scale=sc)
        x = ref.nodes(c["scheme"], p, c["tau"])
        check_close(k.get_interpolation_matrix(x, p), np.eye(p + 1), max(tol, 1e-8),
                    "interpolation at the nodes is the identity", scale=1.0)
        s += p


def check_custom(c):
    """Basis on user-supplied nodes."""
    gen.apply_settings(c)
    x = c["tau"][0] + (c["tau"][1] - c["tau"][0]) * np.array(c["roots"]) / 64
    deg = c["degrees"]
    k = mp.Collocation(list(deg), c["scheme"])
    others = {q: c["tau"][0] + (c["tau"][1] - c["tau"][0]) * np.array(r) / 64 for q, r in c["more"].items()}
    k.init_polynomials_with_customized_roots({**others, c["key"]: x})
    at = c["tau"][0] + (c["tau"][1] - c["tau"][0]) * np.array(c["at"], float) / 64
    cf = np.array(c["coef"][: len(x)], float)
    v = ref.poly_on(cf, x, c["tau"])
    lebesgue = max(1.0, np.abs(ref.interp_matrix(x, at)).sum(axis=1).max()) if len(at) else 1.0
    check_close(arr(k.get_interpolation_matrix(at, c["key"])) @ v, ref.poly_on(cf, at, c["tau"]), 1e-8,
                "values on own nodes", scale=colloc.size(v) * lebesgue)
    # the prepared degrees are untouched
    for d in sorted(set(deg)):
        y = ref.nodes(c["scheme"], d, c["tau"])
        check_close(k.get_interpolation_matrix(y, d), np.eye(d + 1), 1e-8 if d < 7 else 1e-6,
                    "identity of a prepared degree")
    for q, r in others.items():
        check_close(k.get_interpolation_matrix(r, q), np.eye(len(r)), 1e-8, "identity of another set of nodes")


@st.composite
def custom(draw):
    roots = sorted(set(draw(st.lists(st.integers(0, 64), min_size=1, max_size=6, unique=True))))
    return dict(
        scheme=draw(st.sampled_from(gen.SCHEMES)), tau=draw(st.sampled_from([[-1, 1], [0, 1]])),
        engine=draw(st.sampled_from(["numerical", "symbolic"])), roots=roots,
        key=draw(st.sampled_from(["c0", "c1", "mine"])),
        degrees=draw(st.lists(st.integers(1, 9), min_size=1, max_size=3)),
        more=draw(st.dictionaries(st.sampled_from(["d0", "d1"]), st.lists(
            st.integers(0, 16).map(lambda q: 4 * q), min_size=1, max_size=4, unique=True).map(sorted), max_size=2)),
        at=draw(st.lists(st.integers(0, 64), min_size=1, max_size=5)),
        coef=draw(st.lists(gen.eighths, min_size=1, max_size=6)),
    )


SUBS = [
    Sub("piecewise", strat, check, 800, 12000,
        "continuous piecewise polynomial on a random grid, point lists (empty, end points, nodes, "
        "unsorted); composite and per-segment matrices against the exact values, identity at the "
        "nodes; non-trivial: non-constant polynomial and some point",
        lambda c: any(len(q) > 1 and any(q[1:]) for q in c["coef"]) and any(len(q) for q in c["pts"]),
        classify=colloc.labels),
    Sub("own_nodes", lambda tier: custom(), check_custom, 300, 3000,
        "basis on 1-6 user-supplied nodes; non-trivial: at least 2 nodes", lambda c: len(c["roots"]) > 1),
]
