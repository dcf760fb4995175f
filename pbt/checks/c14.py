"""C14: retrieved trajectories."""
from hypothesis import strategies as st

from .. import gen, ref
from ..core import Sub, arr, check_close, check_true, fail, reading
from ..env import ca, mp, np

ASSUMPTIONS = [
    "which variable is which is taken from the optimizer's trajectory functions on the vector 0, 1, 2, ...; that this labelling is right is pinned by dynamics, costs and bounds (C06-C09)",
]
CLS = {"fixed": "mpopt", "h": "mpopt_h_adaptive", "adaptive": "mpopt_adaptive"}


@st.composite
def strat(draw, tier="quick"):
    s = draw(gen.specs(maybe=("links", "midu", "path", "tc"), max_ph=4, depth=1, wild=draw(st.booleans()),
                       grid=gen.grids(max_seg=5, max_deg=6)))
    s["cls"] = draw(st.sampled_from(["fixed", "fixed", "h", "adaptive"]))
    s["scaling"] = draw(st.booleans())
    s["order"] = draw(st.lists(st.integers(0, s["nph"] - 1), min_size=1, max_size=s["nph"] + 1))
    return s


def expected(s, vs, ph, scaling):
    g = ref.Grid(s["scheme"], s["orders"], s["tau"])
    sc, v = s["scale"], vs[ph]
    t = g.times(s["widths"][ph], v["t0"] / sc["t"], v["tf"] / sc["t"])
    if scaling:
        return v["X"], v["U"], t[:, None], v["A"][:, None]
    return v["X"] / np.array(sc["x"]), v["U"] / np.array(sc["u"]), t[:, None], (v["A"] / np.array(sc["a"]))[:, None]


def compare(got, want, what):
    with reading(what):
        got = [arr(q) for q in got]
        check_true(len(got) == 4, "number of returned arrays", got=len(got))
    for name, p, q in zip(("states", "controls", "times", "parameters"), got, want):
        check_true(p.shape == q.shape, f"{what}: shape of {name}", got=p.shape, want=q.shape)
        check_close(p, q, 1e-10, f"{what}: {name}", scale=max(1e-3, np.abs(q).max()) if q.size else 1.0)


def check(s):
    n, vs, sol = gen.with_solution(s, getattr(mp, CLS[s["cls"]]))
    post = n.mpo.process_results(sol, plot=False, scaling=s["scaling"], residual_dx=False)
    for ph in range(s["nph"]):
        want = expected(s, vs, ph, s["scaling"])
        compare(post.get_trajectories(ph), want, f"trajectories of phase {ph}")
        compare(post.get_original_data([ph]), want, f"original data of phase {ph}")
        t = arr(post.get_data([ph])[2]).ravel()
        sc = s["scale"]["t"]
        mag = max(1e-9, abs(vs[ph]["t0"] / sc), abs(vs[ph]["tf"] / sc))
        check_close(t[[0, -1]], [vs[ph]["t0"] / sc, vs[ph]["tf"] / sc], 1e-11, "first and last time", scale=mag)
        check_true(np.all(np.diff(t) > 0), "times do not increase", times=t)
    for order in (s["order"], list(range(s["nph"]))):
        want = [np.vstack(q) for q in zip(*[expected(s, vs, ph, s["scaling"]) for ph in order])]
        compare(post.get_data(list(order), interpolate=False), want, f"data of phases {order}")
        compare(post.get_original_data(tuple(order)), want, f"original data of phases {order}")
    # without phases: the phases to plot (all, by default)
    compare(post.get_data(), want, "data of the default phases")
    compare(post.get_original_data(), want, "original data of the default phases")


SUBS = [
    Sub("retrieval", strat, check, 900, 12000,
        "random solution vector of a random problem (1-4 phases, unequal widths per phase, scales, "
        "three optimizer classes, scaled or user units), phases asked for in any order; "
        "non-trivial: several phases or segments of unequal width or scaling",
        lambda s: s["nph"] > 1 or "unequal-widths" in gen.spec_labels(s) or "scaled" in gen.spec_labels(s),
        classify=lambda s: gen.spec_labels(s) + [s["cls"]]),
]
