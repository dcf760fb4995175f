"""C04: quadrature weights."""
from hypothesis import strategies as st

from .. import colloc, gen, ref
from ..core import Sub, arr, check_close, check_true
from ..env import mp, np

ASSUMPTIONS = [
    "oracle: exact integral of a random Legendre series",
    "symbolic engine integrates numerically (idas, measured error 5e-6): compared to 3e-4",
]


@st.composite
def strat(draw, tier="quick"):
    c = draw(colloc.base(tier, top=12 if tier == "thorough" else 10, max_seg=5, sym_top=5))
    a, b = sorted(draw(st.lists(st.integers(0, 64), min_size=2, max_size=2, unique=True)))
    c["sub"] = [a, b]
    c["prepared"] = draw(st.booleans())
    return c


def check(c):
    k = colloc.approximation(c)
    v, coefs = colloc.continuous(c)
    tol = colloc.tol_quad(c["engine"], max(c["orders"]))
    lo, hi = c["tau"]
    sc = (hi - lo) * (1 + sum(np.abs(q).sum() for q in coefs))
    if c["engine"] == "symbolic":  # absolute error per weight
        sc *= 1 + max(c["orders"])
    W = arr(k.get_composite_quadrature_weights(colloc.po(c)), "composite weights")
    check_true(W.size == len(v), "one weight per node", got=W.shape, want=len(v))
    want = sum(ref.ipoly_on(q, hi, c["tau"]) for q in coefs)
    check_close(W.ravel() @ v, want, tol, "integral over all segments", scale=sc)
    # per degree, whole interval and a sub-interval
    a, b = [lo + (hi - lo) * q / 64 for q in c["sub"]]
    mats = k.get_quad_weight_matrices(colloc.po(c))
    sub = k.get_quad_weight_matrices(colloc.po(c), tau0=a, tau1=b)
    check_true(set(mats) == set(c["orders"]) == set(sub), "degrees with weights", got=list(mats))
    s = 0
    for i, p in enumerate(c["orders"]):
        vi = v[s:s + p + 1]
        s += p
        full = ref.ipoly_on(coefs[i], hi, c["tau"])
        part = ref.ipoly_on(coefs[i], b, c["tau"]) - ref.ipoly_on(coefs[i], a, c["tau"])
        for M, w, what in (
            (mats[p], full, "integral over a segment"),
            (k.get_quadrature_weights(p), full, "integral over a segment (one degree)"),
            (sub[p], part, "integral over a sub-interval"),
            (k.get_quadrature_weights(p, a, b), part, "integral over a sub-interval (one degree)"),
            (k.get_quadrature_weights(p, tau1=b), ref.ipoly_on(coefs[i], b, c["tau"]), "integral from the start"),
            (k.get_quadrature_weights(p, tau0=a), full - ref.ipoly_on(coefs[i], a, c["tau"]), "integral to the end"),
        ):
            M = arr(M, "weights").ravel()
            check_true(M.size == p + 1, "one weight per node of the segment", got=M.shape)
            check_close(M @ vi, w, tol, what, scale=sc)
    # composite over a sub-interval of every segment
    W = arr(k.get_composite_quadrature_weights(colloc.po(c), tau0=a, tau1=b), "composite weights")
    want = sum(ref.ipoly_on(q, b, c["tau"]) - ref.ipoly_on(q, a, c["tau"]) for q in coefs)
    check_close(W.ravel() @ v, want, tol, "integral over a sub-interval of all segments", scale=sc)
    # one end given, the other that of the interval
    for kw, f, t in ((dict(tau0=a), a, hi), (dict(tau1=b), lo, b)):
        want = [ref.ipoly_on(q, t, c["tau"]) - ref.ipoly_on(q, f, c["tau"]) for q in coefs]
        W = arr(k.get_composite_quadrature_weights(colloc.po(c), **kw), "composite weights")
        check_close(W.ravel() @ v, sum(want), tol, f"integral over a part of all segments ({sorted(kw)})", scale=sc)
        mats = k.get_quad_weight_matrices(colloc.po(c), **kw)
        s = 0
        for i, p in enumerate(c["orders"]):
            check_close(arr(mats[p], "weights").ravel() @ v[s:s + p + 1], want[i], tol,
                        f"integral over a part of a segment ({sorted(kw)})", scale=sc)
            s += p


def check_custom(c):
    gen.apply_settings(c)
    lo, hi = c["tau"]
    k = mp.Collocation(list(c["degrees"]), c["scheme"])
    xs = {f"c{i}": lo + (hi - lo) * np.array(r) / 64 for i, r in enumerate(c["roots"])}
    k.init_polynomials_with_customized_roots(xs)
    a, b = [lo + (hi - lo) * q / 64 for q in c["sub"]]
    for key, x in xs.items():
        cf = np.array(c["coef"][: len(x)], float)
        v = ref.poly_on(cf, x, c["tau"])
        q = ref.quad_weights(x, a, b)
        sc = (1 + np.abs(q).sum() + len(x)) * colloc.size(v)
        if c["engine"] == "symbolic":
            cond = max(1.0, np.abs(ref.interp_matrix(x, np.linspace(lo, hi, 9))).max())
            sc *= cond
        tol = 3e-4 if c["engine"] == "symbolic" else 1e-8
        w = k.get_quadrature_weights(key, tau0=a, tau1=b)
        check_close(arr(w).ravel() @ v, ref.ipoly_on(cf, b, c["tau"]) - ref.ipoly_on(cf, a, c["tau"]),
                    tol, "integral on own nodes", scale=sc)
        w = k.quad_matrix_fn(k, key, tau0=lo, tau1=b)
        check_close(arr(w).ravel() @ v, ref.ipoly_on(cf, b, c["tau"]), tol,
                    "integral on own nodes from the start", scale=sc)


@st.composite
def custom(draw):
    r = st.lists(st.integers(0, 64), min_size=1, max_size=6, unique=True).map(sorted)
    return dict(
        scheme=draw(st.sampled_from(gen.SCHEMES)), tau=draw(st.sampled_from([[-1, 1], [0, 1]])),
        engine=draw(st.sampled_from(["numerical", "numerical", "symbolic"])),
        roots=draw(st.lists(r, min_size=1, max_size=3)),
        degrees=draw(st.lists(st.integers(1, 9), min_size=1, max_size=3)),
        sub=sorted(draw(st.lists(st.integers(0, 64), min_size=2, max_size=2, unique=True))),
        coef=draw(st.lists(gen.eighths, min_size=1, max_size=6)),
    )


SUBS = [
    Sub("piecewise", lambda tier: strat(tier), check, 500, 8000,
        "continuous piecewise polynomial on a random grid; composite, per-degree, sub-interval and "
        "half-open integrals against the exact ones; non-trivial: not identically zero",
        lambda c: any(any(q) for q in c["coef"]), classify=colloc.labels),
    Sub("own_nodes", lambda tier: custom(), check_custom, 300, 3000,
        "weights on user-supplied nodes over a sub-interval; non-trivial: at least 2 nodes",
        lambda c: any(len(r) > 1 for r in c["roots"])),
]
