"""C10: phase links."""
from hypothesis import strategies as st

from .. import gen, ref
from ..core import Sub, check_true, fail
from ..env import mp, np

ASSUMPTIONS = ["jump bounds belong to the link of the same position in the list; rows with two infinite bounds are vacuous"]
CLS = {"fixed": "mpopt", "h": "mpopt_h_adaptive", "adaptive": "mpopt_adaptive"}


@st.composite
def strat(draw, tier="quick"):
    s = draw(gen.specs(maybe=("links", "links", "tc", "path"), min_ph=1, max_ph=4, depth=1, max_a=1,
                       grid=gen.grids(max_seg=3, max_deg=4), wild=draw(st.booleans())))
    s["cls"] = draw(st.sampled_from(["fixed", "fixed", "h", "adaptive"]))
    s["default_links"] = draw(st.booleans()) and s["nph"] > 1
    if s["default_links"]:
        s["links"] = [[i, i + 1] for i in range(s["nph"] - 1)]
    return s


def check(s):
    ocp = gen.build_ocp(s)
    if s["default_links"]:
        del ocp.phase_links
        ocp.phase_links = mp.OCP(s["nx"], s["nu"], s["nph"]).phase_links
    n = gen.Nlp(s, getattr(mp, CLS[s["cls"]]), ocp=ocp)
    r = ref.Ref(s)
    vs = gen.random_point(s)
    w = s["widths"]
    f, g = n.eval(vs, w)
    want, lb, ub = [], [], []
    for k, (i, j) in enumerate(s["links"]):
        dx = vs[j]["X"][0] - vs[i]["X"][-1]
        want += list(dx)
        lb += [-np.inf if q is None else q * c for q, c in zip(s["lbe"][k], s["scale"]["x"])]
        ub += [np.inf if q is None else q * c for q, c in zip(s["ube"][k], s["scale"]["x"])]
        du = vs[j]["U"][0] - vs[i]["U"][-1]
        dt = vs[j]["t0"] - vs[i]["tf"]
        want += list(du) + [dt]
        lb += [0.0] * (len(du) + 1)
        ub += [0.0] * (len(du) + 1)
    lb, ub = np.array(lb), np.array(ub)
    gen.rows_present(g, n.lbg, n.ubg, want, lb, ub, 1e-9, "phase links")
    # nothing else: the same problem without links has exactly these fewer rows
    if s["nph"] > 1:
        s0 = dict(s, links=[], default_links=False)
        n0 = gen.Nlp(s0, getattr(mp, CLS[s["cls"]]))
        more = gen.live_rows(n.lbg, n.ubg) - gen.live_rows(n0.lbg, n0.ubg)
        live = gen.live_rows(lb, ub) if len(lb) else 0
        check_true(more == live, "number of linking constraints", got=more, want=live)
        f0, g0 = n0.eval(vs, w)
        gen.rows_present(g, n.lbg, n.ubg, g0, n0.lbg, n0.ubg, 1e-9, "constraints of the phases")
        check_true(abs(f - f0) <= 1e-9 * max(1, abs(f0)), "links change the objective", got=f, want=f0)
    base = s["nph"] * s["nx"] * r.g.N
    if s["cls"] != "adaptive":
        other = base
        for q in s["phases"]:
            other += len(q["tc"] or []) + r.g.N * len(q["path"] or [])
        live = gen.live_rows(lb, ub) if len(lb) else 0
        have = gen.live_rows(n.lbg, n.ubg)
        check_true(have == other + live, "number of constraints", got=have, want=other + live)


SUBS = [
    Sub("links", strat, check, 700, 9000,
        "1-4 phases with default, partial, reversed or no links, jump bounds (finite, one-sided, "
        "infinite, zero), scales and parameters; every link row with bounds, and their number; "
        "non-trivial: at least one link", lambda s: len(s["links"]) > 0,
        classify=lambda s: [f"phases={s['nph']}", f"links={len(s['links'])}", s["cls"]]),
]
