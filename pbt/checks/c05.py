"""C05: symbolic and numerical engines agree; requests in any order."""
from hypothesis import strategies as st

from .. import colloc, gen, ref
from ..core import Sub, arr, check_close, check_true
from ..env import mp, np

ASSUMPTIONS = [
    "differential check up to degree 9; symbolic engine against the independent barycentric matrices up to degree 34",
    "symbolic quadrature compared to 3e-4 (adaptive integrator)",
]


@st.composite
def strat(draw, tier="quick"):
    c = draw(colloc.with_points(tier, top=9, max_seg=3))
    del c["coef"], c["engine"]
    c["quad"] = draw(st.integers(0, 2)) == 0 and max(c["orders"]) <= 5
    return c


def mats(c, engine):
    c = dict(c, engine=engine)
    k = colloc.approximation(c)
    at = colloc.points(c)
    out = {}
    for o in (1, 2):
        out[f"D{o}"] = k.get_composite_differentiation_matrix(colloc.po(c), order=o)
        out[f"D{o} at points"] = k.get_composite_interpolation_Dmatrix_at(at, colloc.po(c), order=o)
    out["I"] = k.get_composite_interpolation_matrix(at, colloc.po(c))
    if c["quad"]:
        out["W"] = k.get_composite_quadrature_weights(colloc.po(c))
    return {q: arr(v, q) for q, v in out.items()}


def check(c):
    a, b = mats(c, "symbolic"), mats(c, "numerical")
    for q in a:
        check_true(a[q].shape == b[q].shape, f"{q}: shapes of the engines", sym=a[q].shape, num=b[q].shape)
        tol = 3e-4 if q == "W" else 1e-8
        check_close(a[q], b[q], tol, f"{q}: symbolic against numerical", scale=colloc.size(b[q]))


@st.composite
def high(draw, tier="quick"):
    return dict(
        scheme=draw(st.sampled_from(gen.SCHEMES)), tau=draw(st.sampled_from([[-1, 1], [0, 1]])),
        engine="symbolic",
        orders=draw(st.lists(st.integers(8, 34), min_size=1, max_size=2)),
        pts=[v / 64 for v in draw(st.lists(st.integers(0, 64), min_size=1, max_size=3))],
    )


def check_high(c):
    k = colloc.approximation(c)
    g = ref.Grid(c["scheme"], c["orders"], c["tau"])
    at = [c["tau"][0] + (c["tau"][1] - c["tau"][0]) * np.array(c["pts"])] * len(c["orders"])
    eye = np.eye(g.N)
    D = g.deriv(eye)
    tol = 1e-7
    check_close(k.get_composite_differentiation_matrix(), D, tol, "D", scale=colloc.size(D))
    want = g.interp(eye, at)
    check_close(k.get_composite_interpolation_matrix(at), want, tol, "I", scale=1.0)
    D2 = np.concatenate([g.D[0] @ D[g.sl(0)]] + [(g.D[i] @ (g.D[i] @ eye[g.sl(i)]))[1:] for i in range(1, g.nseg)])
    if max(c["orders"]) <= 20:
        check_close(k.get_composite_differentiation_matrix(order=2), D2, 1e-6, "D2", scale=colloc.size(D2))


@st.composite
def history(draw, tier="quick"):
    c = draw(colloc.base(tier, top=6, max_seg=3, sym_top=4))
    del c["coef"]
    ops = st.sampled_from(["D1", "D2", "I", "W", "Dat1", "Dat2", "custom", "new", "W01", "I_new", "D_new"])
    c["ops"] = draw(st.lists(ops, min_size=2, max_size=10))
    c["extra"] = draw(st.integers(1, 6))
    return c


def op(k, c, o):
    at = [ref.nodes("LGL", 3, c["tau"])[1:] for _ in c["orders"]]
    if o in ("D1", "D2"):
        return arr(k.get_composite_differentiation_matrix(colloc.po(c), order=int(o[1])))
    if o in ("Dat1", "Dat2"):
        return arr(k.get_composite_interpolation_Dmatrix_at(at, colloc.po(c), order=int(o[3])))
    if o == "I":
        return arr(k.get_composite_interpolation_matrix(at, colloc.po(c)))
    if o == "W":
        return arr(k.get_composite_quadrature_weights(colloc.po(c)))
    if o == "W01":
        lo, hi = c["tau"]
        return arr(k.get_quadrature_weights(c["orders"][0], tau0=lo, tau1=lo + (hi - lo) / 4))
    if o == "custom":
        x = c["tau"][0] + (c["tau"][1] - c["tau"][0]) * np.array([0.1, 0.4, 0.9])
        k.init_polynomials_with_customized_roots({"c0": x})
        return arr(k.get_interpolation_matrix([c["tau"][0]], "c0"))
    if o == "new":
        k.init_polynomials([c["extra"]])
        return np.zeros(0)
    if o == "I_new":
        return arr(k.get_interpolation_matrix(at[0], c["extra"]))
    if o == "D_new":
        return arr(k.get_diff_matrix(c["extra"]))


def check_history(c):
    k = colloc.approximation(c)
    for i, o in enumerate(c["ops"]):
        got = op(k, c, o)
        want = op(colloc.approximation(c), c, o)
        check_close(got, want, 1e-10, f"{o} after {c['ops'][:i]} against a fresh approximation",
                    scale=colloc.size(want))


SUBS = [
    Sub("engines", lambda tier: strat(tier), check, 300, 4000,
        "D, D2, interpolation and quadrature matrices of both engines on the same grid and points; "
        "non-trivial: some degree >= 2", lambda c: max(c["orders"]) >= 2,
        classify=lambda c: [c["scheme"], f"segments={len(c['orders'])}"]),
    Sub("high_degree", lambda tier: high(tier), check_high, 48, 500,
        "symbolic matrices of degrees 8..34 against barycentric ones; non-trivial: degree >= 15",
        lambda c: max(c["orders"]) >= 15, classify=lambda c: [c["scheme"]]),
    Sub("history", lambda tier: history(tier), check_history, 120, 2000,
        "sequence of requests on one approximation object, each compared with a fresh one; "
        "non-trivial: at least 3 requests", lambda c: len(c["ops"]) >= 3,
        classify=lambda c: [c["engine"]]),
]
