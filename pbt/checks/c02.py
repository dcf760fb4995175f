"""C02: differentiation matrices."""
from hypothesis import strategies as st

from .. import colloc, gen, ref
from ..core import Sub, arr, check_close, check_true
from ..env import mp, np

ASSUMPTIONS = [
    "oracle: Legendre-series derivative of a random polynomial; tolerance by engine and degree (pbt/colloc.py), relative to the size of the derivative",
    "numerical engine up to degree 12 (its rounding error makes higher degrees meaningless)",
]


def strat(tier):
    return colloc.with_points(tier, top=12 if tier == "thorough" else 10)


def want_at_nodes(c, coefs, order):
    tau, out = c["tau"], []
    for k, p in enumerate(c["orders"]):
        d = ref.dpoly_on(coefs[k], ref.nodes(c["scheme"], p, tau), tau, order)
        out.append(d if k == 0 else d[1:])
    return np.concatenate(out)


def scale_of(c, coefs, order):
    m = 1.0
    for k, p in enumerate(c["orders"]):
        m = max(m, np.abs(ref.dpoly_on(coefs[k], ref.nodes(c["scheme"], p, c["tau"]), c["tau"], order)).max())
        # rounding acts on the node values times the size of the matrix
        m = max(m, np.abs(coefs[k]).max() * (2 * p * p / (c["tau"][1] - c["tau"][0])) ** order)
    return m


def check(c):
    k = colloc.approximation(c)
    v, coefs = colloc.continuous(c)
    tol = colloc.tol_alg(c["engine"], max(c["orders"]))
    tau = c["tau"]
    for order in (1, 2):
        sc = scale_of(c, coefs, order)
        kw = {} if order == 1 and c["explicit"] else {"order": order}
        D = arr(k.get_composite_differentiation_matrix(colloc.po(c), **kw), "composite D")
        check_true(D.shape == (len(v), len(v)), "shape of the composite matrix", got=D.shape, want=len(v))
        check_close(D @ v, want_at_nodes(c, coefs, order), tol, f"derivative {order} at the nodes", scale=sc)
        # per segment
        mats = k.get_diff_matrices(colloc.po(c), order=order)
        check_true(set(mats) == set(c["orders"]), "degrees with a matrix", got=list(mats))
        s = 0
        for i, p in enumerate(c["orders"]):
            M = arr(mats[p], "D")
            check_true(M.shape == (p + 1, p + 1), "shape of a segment matrix", got=M.shape)
            x = ref.nodes(c["scheme"], p, tau)
            check_close(M @ v[s:s + p + 1], ref.dpoly_on(coefs[i], x, tau, order), tol,
                        f"segment derivative {order} at nodes", scale=sc)
            s += p
        # anywhere
        at = colloc.points(c)
        if sum(len(a) for a in at):
            want = np.concatenate([ref.dpoly_on(coefs[i], a, tau, order) for i, a in enumerate(at)])
            E = arr(k.get_composite_interpolation_Dmatrix_at(at, colloc.po(c), **kw), "composite D at points")
            check_true(E.shape == (len(want), len(v)), "one row per evaluation point", got=E.shape, want=len(want))
            check_close(E @ v, want, tol, f"derivative {order} at points", scale=sc)
        per = k.get_interpolation_Dmatrices_at(at, colloc.po(c), order=order)
        s = 0
        for i, p in enumerate(c["orders"]):
            if len(at[i]):
                check_close(arr(per[i]) @ v[s:s + p + 1], ref.dpoly_on(coefs[i], at[i], tau, order), tol,
                            f"segment derivative {order} at points", scale=sc)
            s += p


def check_single(c):
    """The matrix of one degree at user points, default derivative order."""
    k = colloc.approximation(c)
    p = c["orders"][0]
    v, coefs = colloc.continuous(dict(c, orders=[p], coef=c["coef"][:1]))
    at = colloc.points(c)[0]
    tol = colloc.tol_alg(c["engine"], p)
    sc = scale_of(dict(c, orders=[p]), coefs, 1)
    M = arr(k.get_diff_matrix(p), "D")
    x = ref.nodes(c["scheme"], p, c["tau"])
    check_close(M @ v, ref.dpoly_on(coefs[0], x, c["tau"]), tol, "derivative at nodes", scale=sc)
    if len(at):
        M = arr(k.get_diff_matrix(p, taus=at), "D")
        check_close(M @ v, ref.dpoly_on(coefs[0], at, c["tau"]), tol, "derivative at points", scale=sc)
    # a degree that was not prepared
    q = p + 1
    M = arr(k.get_diff_matrix(q), "D")
    x = ref.nodes(c["scheme"], q, c["tau"])
    check_close(M @ ref.poly_on(coefs[0], x, c["tau"]), ref.dpoly_on(coefs[0], x, c["tau"]), tol * 10,
                "derivative at nodes of a new degree", scale=4 * sc)


def nontriv(c):
    return any(len(q) > 1 and any(q[1:]) for q in c["coef"])


SUBS = [
    Sub("piecewise", strat, check, 500, 8000,
        "continuous piecewise polynomial of the segment degrees on a random grid (scheme, 1-4 "
        "degrees, interval, engine, point lists incl. empty and the nodes); composite and "
        "per-segment matrices of order 1 and 2 against the exact derivative; non-trivial: a "
        "non-constant polynomial", nontriv, classify=colloc.labels),
    Sub("single", strat, check_single, 200, 2000,
        "matrix of a single degree, default order, own points, and of a degree asked for later",
        nontriv, classify=colloc.labels),
]
