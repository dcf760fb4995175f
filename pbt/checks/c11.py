"""C11: optional control constraints."""
from hypothesis import strategies as st

from .. import gen, ref
from ..core import Sub, check_true, fail
from ..env import mp, np

ASSUMPTIONS = ["rows compared up to 1e-7 relative to max(1, |value|); slope-continuity rows up to a common factor per problem"]
TOL = 1e-7


@st.composite
def strat(draw, tier="quick"):
    big = tier == "thorough"
    s = draw(gen.specs(maybe=("midu", "diff_u", "duc", "midu", "diff_u", "duc"), max_ph=3, depth=1, max_a=1,
                       grid=gen.grids(max_seg=5 if big else 4, max_deg=6, max_nodes=30)))
    return s


def parts(s, r, vs):
    """family -> (values, lb, ub) of the non-vacuous rows"""
    out = {"mid": ([], [], []), "slope": ([], [], []), "jump": ([], [], [])}
    for ph, P in enumerate(s["phases"]):
        b = r.bound_vectors(ph)
        if P["midu"]:
            m = r.mid_u(ph, vs[ph])
            for j in range(s["nu"]):
                if np.isinf(b["lbu"][j]) and np.isinf(b["ubu"][j]):
                    continue
                out["mid"][0].extend(m[:, j])
                out["mid"][1].extend([b["lbu"][j] * s["scale"]["u"][j]] * len(m))
                out["mid"][2].extend([b["ubu"][j] * s["scale"]["u"][j]] * len(m))
        if P["diff_u"]:
            d = r.slope(ph, vs[ph], s["widths"][ph]).ravel()
            out["slope"][0].extend(d)
            out["slope"][1].extend([P["lbdu"]] * len(d))
            out["slope"][2].extend([P["ubdu"]] * len(d))
    return out


def check(s):
    n = gen.Nlp(s)
    r = ref.Ref(s)
    vs = gen.random_point(s)
    f, g = n.eval(vs, s["widths"])
    p = parts(s, r, vs)
    jumps = []
    for ph, P in enumerate(s["phases"]):
        if P["duc"] and r.g.nseg > 1:
            left, right = r.slope_jumps(ph, vs[ph], s["widths"][ph])
            jumps += list((left - right).ravel())
    base = s["nph"] * s["nx"] * r.g.N
    want = base + len(p["mid"][0]) + len(p["slope"][0]) + len(jumps)
    have = gen.live_rows(n.lbg, n.ubg)
    check_true(have == want, "number of constraints", got=have, want=want, mid=len(p["mid"][0]),
               slope=len(p["slope"][0]), continuity=len(jumps))
    for fam, what in (("mid", "mid-point control bounds"), ("slope", "control slope bounds")):
        gen.rows_present(g, n.lbg, n.ubg, *p[fam], TOL, what)
    if jumps:
        eq = (n.lbg == 0) & (n.ubg == 0)
        j = np.abs(np.array(jumps))
        # the constant by which one-sided derivatives are normalized is free
        tried = []
        for c in consts(r, s, vs):
            miss = gen._match(np.abs(g[eq]), j * c, TOL)
            tried.append(len(miss))
            if not miss:
                break
        else:
            fail("slope continuity: no constraint equates the one-sided time derivatives",
                 missing=min(tried), of=len(jumps))


def consts(r, s, vs):
    # per unit of: phase coordinate (1), 1/number of segments, time (all phases alike)
    out = [1.0, 1.0 / r.g.nseg, r.g.nseg]
    d = {(v["tf"] - v["t0"]) / s["scale"]["t"] for v in vs}
    if len(d) == 1:
        out += [r.g.dtau / next(iter(d))]
    return out


@st.composite
def cont(draw, tier="quick"):
    """A control that is one polynomial of time over the phase: its slope is
    continuous at every boundary whatever the widths."""
    s = draw(gen.specs(on=("duc",), max_ph=2, depth=1, max_a=0,
                       grid=gen.grids(max_seg=4, max_deg=5)))
    d = min(s["orders"])
    s["polys"] = [[draw(st.lists(gen.eighths, min_size=1, max_size=d + 1)) for _ in range(s["nu"])]
                  for _ in range(s["nph"])]
    s["kink"] = draw(st.booleans())
    return s


def check_cont(s):
    """A control with continuous slope satisfies all continuity rows (the
    other rows are dynamics x' = 0 with constant states), and one with a kink
    at a boundary does not."""
    P = np.polynomial.polynomial
    s = dict(s, phases=[dict(q, dyn=[["c", 0.0]] * s["nx"]) for q in s["phases"]])
    n = gen.Nlp(s)
    r = ref.Ref(s)
    vs = gen.random_point(s)
    kinked = False
    for ph, v in enumerate(vs):
        t0, tf = v["t0"] / s["scale"]["t"], v["tf"] / s["scale"]["t"]
        t = r.g.times(s["widths"][ph], t0, tf)
        v["X"][:] = v["X"][0]
        v["U"] = np.stack([P.polyval(t, c) for c in s["polys"][ph]], axis=1) * r.su
        if s["kink"] and r.g.nseg > 1:
            tb = t[r.g.start[1]]
            v["U"][:, 0] += np.abs(t - tb) * r.su[0]
            kinked = True
    f, g = n.eval(vs, s["widths"])
    worst = np.abs(g).max() if len(g) else 0.0
    mag = max([1.0] + [np.abs(v["U"]).max() / min(min(w) for w in s["widths"]) * 40 for v in vs])
    if kinked:
        check_true(worst > 1e-6, "a kink of the control at a segment boundary satisfies every constraint",
                   worst=worst)
    else:
        check_true(worst <= 1e-8 * mag, "a control with continuous slope violates a constraint", worst=worst)


SUBS = [
    Sub("rows", strat, check, 900, 12000,
        "random problem with the switches per phase on or off, bounds finite or infinite per "
        "control, unequal widths and degrees, scaling; rows of mid-point, slope and continuity "
        "constraints and their number; non-trivial: some switch on",
        lambda s: any(P[k] for P in s["phases"] for k in ("midu", "diff_u", "duc")),
        classify=gen.spec_labels),
    Sub("continuity", lambda tier: cont(), check_cont, 300, 3000,
        "control that is one polynomial over the phase, with or without a kink at a boundary, on "
        "unequal widths; non-trivial: at least two segments and degree >= 1",
        lambda s: len(s["orders"]) > 1 and any(len(c) > 1 for q in s["polys"] for c in q),
        classify=gen.spec_labels),
]
