"""C01: collocation grids."""
from hypothesis import strategies as st

from .. import gen, ref
from ..core import Sub, arr, check_close, check_true, fail, reading
from ..env import mp, np

ASSUMPTIONS = ["degrees up to 60 (quick: mostly up to 30); nodes compared to 1e-10 of the interval length"]
TOL = 1e-10


@st.composite
def strat(draw, tier="quick"):
    top = 60 if tier == "thorough" else 40
    deg = st.one_of(st.integers(1, 10), st.integers(1, 10), st.integers(11, top))
    a = draw(st.sampled_from([[-1, 1], [0, 1], [-1, 0], None]))
    if a is None:
        lo = draw(gen.eighths)
        a = [lo, lo + draw(gen.positive)]
    return dict(
        scheme=draw(st.sampled_from(gen.SCHEMES)),
        degs=draw(st.lists(deg, min_size=1, max_size=4)),
        tau=a,
        via=draw(st.sampled_from(["roots", "dispatch", "static", "collocation", "mpopt"])),
        other=draw(st.sampled_from(gen.SCHEMES)),
    )


def nodes_fn(c):
    gen.apply_settings(dict(tau=c["tau"], engine="numerical"))
    via, scheme = c["via"], c["scheme"]
    CR = mp.CollocationRoots
    if via == "roots":
        return CR(scheme)._taus_fn
    if via == "dispatch":
        return CR.get_collocation_points(scheme)
    if via == "static":
        f = {"LGR": CR.roots_legendre_gauss_radau, "LGL": CR.roots_legendre_gauss_lobatto,
             "CGL": CR.roots_chebyshev_gauss_lobatto}[scheme]
        return f(c["tau"][0], c["tau"][1])
    if via == "collocation":
        k = mp.Collocation(sorted(set(min(d, 12) for d in c["degs"])), scheme)
        check_true(k.tau0 == c["tau"][0] and k.tau1 == c["tau"][1], "interval of the approximation",
                   got=(k.tau0, k.tau1))
        return lambda d: k.roots[d] if d in k.roots else k._taus_fn(d)
    o = mp.mpopt(mp.OCP(), len(c["degs"]), [min(d, 12) for d in c["degs"]], scheme)
    o.compute_numerical_approximation()
    check_true(o.tau0 == c["tau"][0] and o.tau1 == c["tau"][1], "interval of the optimizer",
               got=(o.tau0, o.tau1))
    return lambda d: o._taus[d] if d in o._taus else o.collocation._taus_fn(d)


def check(c):
    fn = nodes_fn(c)
    lo, hi = c["tau"]
    first = {}
    for d in c["degs"] + c["degs"][::-1]:
        got = arr(fn(d), "nodes").ravel()
        check_true(len(got) == d + 1, "number of nodes", got=len(got), want=d + 1)
        check_true(np.all(np.diff(got) > 0), "nodes are not strictly increasing", nodes=got)
        check_close(got[[0, -1]], [lo, hi], 1e-14, "end nodes", scale=max(abs(lo), abs(hi)))
        want = ref.nodes(c["scheme"], d, (lo, hi))
        bad = np.abs(got - want).max()
        if not bad <= TOL * (hi - lo):
            fail(f"{c['scheme']} nodes of degree {d}", error=bad, got=got, want=want)
        if d in first:
            check_true(np.array_equal(first[d], got), "nodes change when asked again", degree=d)
        first[d] = got


def check_isolated(c):
    """Another scheme's or interval's grids do not influence this one."""
    gen.apply_settings(dict(tau=c["tau"], engine="numerical"))
    a = mp.CollocationRoots(c["scheme"])._taus_fn
    before = [arr(a(d)).ravel() for d in c["degs"]]
    gen.apply_settings(dict(tau=[0, 1] if c["tau"] != [0, 1] else [-1, 1], engine="numerical"))
    b = mp.CollocationRoots(c["other"])._taus_fn
    for d in c["degs"]:
        arr(b(d))
    mp.Collocation([min(d, 8) for d in c["degs"]], c["other"])
    for d, v in zip(c["degs"], before):
        check_true(np.array_equal(arr(a(d)).ravel(), v), "nodes depend on other approximations", degree=d)
        w = ref.nodes(c["scheme"], d, c["tau"])
        check_close(v, w, 1e-9, "nodes", scale=max(1.0, abs(c["tau"][0]), abs(c["tau"][1])))


corpus = [dict(scheme=s, degs=[d], tau=[-1, 1], via="roots", other="LGR")
          for s in gen.SCHEMES for d in range(1, 41)]
corpus += [dict(scheme=s, degs=[d], tau=[0, 1], via="mpopt", other="LGR")
           for s in gen.SCHEMES for d in range(1, 13)]

SUBS = [
    Sub("nodes", lambda tier: strat(tier), check, 3000, 40000,
        "scheme x degrees x interval x entry point (class, dispatch, static generator, "
        "approximation, optimizer), degrees 1..40 enumerated; the grid equals independently "
        "computed nodes; non-trivial: some degree >= 2",
        lambda c: max(c["degs"]) >= 2, corpus=corpus,
        classify=lambda c: [c["scheme"], c["via"], "deg>10" if max(c["degs"]) > 10 else "deg<=10"]),
    Sub("isolated", lambda tier: strat(tier), check_isolated, 300, 3000,
        "grids asked again after other schemes and intervals were used; non-trivial: another scheme",
        lambda c: c["other"] != c["scheme"]),
]
