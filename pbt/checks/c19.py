"""C19: residual grids."""
from hypothesis import strategies as st

from .. import gen, ref
from ..core import Sub, arr, check_close, check_true, fail, reading
from ..env import mp, np
from .c16 import CLS, GRIDS

ASSUMPTIONS = [
    "the number of points of the fixed grid (at least the number of collocation intervals or the grid setting) is not pinned",
    "points within 1e-9 of a segment boundary may be put at the end of the earlier segment or at the start of the later one by round-off",
]


@st.composite
def strat(draw, tier="quick"):
    s = draw(gen.specs(maybe=("links",), max_ph=4, max_x=1, max_u=1, max_a=1, depth=0,
                       grid=gen.grids(max_seg=8, max_deg=7, max_nodes=40)))
    s["cls"] = draw(st.sampled_from(["fixed", "fixed", "h", "adaptive"]))
    s["gt"] = [draw(st.sampled_from(GRIDS)) for _ in range(s["nph"])]
    s["arg"] = draw(st.one_of(st.none(), st.sampled_from(GRIDS)))
    s["n_grid"] = draw(st.sampled_from([1, 2, 3, 5, 8, 15, 30]))
    return s


def positions(s, ph, taus):
    """Phase positions in [0, 1] of the points of each segment."""
    w = s["widths"][ph]
    c = np.concatenate([[0], np.cumsum(w)])
    lo, hi = s["tau"]
    return [c[k] + w[k] * (q - lo) / (hi - lo) for k, q in enumerate(taus)]


def read_lists(taus, n, what):
    with reading(what):
        check_true(len(taus) == n, what + ": one list of points per segment", got=len(taus), want=n)
        return [arr(q).ravel() for q in taus]


def check(s):
    mp.mpopt._MAX_GRID_POINTS = s["n_grid"]
    n, vs, sol = gen.with_solution(s, getattr(mp, CLS[s["cls"]]))
    n.mpo._MAX_GRID_POINTS = s["n_grid"]
    n.mpo.grid_type = list(s["gt"])
    lo, hi = s["tau"]
    g = ref.Grid(s["scheme"], s["orders"], s["tau"])
    for ph in range(s["nph"]):
        gt = s["arg"] or s["gt"][ph]
        got = n.mpo.get_residual_grid_taus(ph, s["arg"]) if s["arg"] else n.mpo.get_residual_grid_taus(ph)
        what = f"{gt} grid of phase {ph}"
        taus = read_lists(got, g.nseg, what)
        if gt == "mid-points":
            for k, q in enumerate(taus):
                check_close(q, g.mids()[k], 1e-10, f"{what}, segment {k}")
        elif gt == "spectral":
            sizes = {len(q) for q in taus}
            check_true(len(sizes) == 1 and sizes.pop() >= 1, what + ": same number of points in every segment")
            for k, q in enumerate(taus):
                check_close(q, ref.nodes(s["scheme"], len(q) + 1, s["tau"])[1:-1], 1e-8, f"{what}, segment {k}")
        else:
            for k, q in enumerate(taus):
                check_true(np.all((q >= lo - 1e-9) & (q <= hi + 1e-9)), what + ": points outside of the segment", taus=q)
            y = np.concatenate(positions(s, ph, taus))
            check_true(len(y) >= 1, what + ": no points")
            check_close(y, np.arange(1, len(y) + 1) / (len(y) + 1), 1e-9, what + ": equally spaced without the ends")
            check_true(len(y) >= sum(s["orders"]), what + ": at least one point per collocation interval", got=len(y))


@st.composite
def map_strat(draw, tier="quick"):
    n = draw(st.integers(1, 9))
    k = draw(st.lists(st.integers(1, 40), min_size=n, max_size=n))
    w = [v / sum(k) for v in k]
    pts = sorted(set(draw(st.lists(st.integers(0, 4096), max_size=25))))
    at_bounds = draw(st.lists(st.integers(0, n), max_size=4))
    # points close to a boundary, but clearly not on it
    near = draw(st.lists(st.tuples(st.integers(0, n), st.sampled_from([1e-2, 1e-3, 1e-4, 1e-5, 1e-6]), st.sampled_from([-1, 1])), max_size=4))
    return dict(w=w, pts=pts, bounds=sorted(set(at_bounds)), near=sorted(map(list, set(near))), end=draw(st.booleans()),
                tau=draw(st.sampled_from([[0, 1], [-1, 1], [-2, 1]])),
                off=draw(st.sampled_from([0.0, 0.0, 1e-9, -1e-9, 3e-8, -2e-7])),
                via=draw(st.sampled_from(["fixed", "h", "adaptive"])),
                as_list=draw(st.booleans()), default_tau=draw(st.booleans()))


def check_map(c):
    w = np.array(c["w"])
    cum = np.concatenate([[0], np.cumsum(w)])
    y = np.array(sorted(set([p / 4096 for p in c["pts"]] + [cum[b] for b in c["bounds"]] + ([1.0] if c["end"] else [])
                            + [v for v in (cum[b] + d * e * w.min() for b, e, d in c.get("near", [])) if 0 < v < 1])))
    y = np.minimum(y, 1.0)
    y = np.array(sorted(set(y.tolist())))
    lo, hi = c["tau"]
    given = w.copy()
    given[-1] += c["off"] * (abs(c["off"]) < w[-1] / 2)
    f = getattr(mp, CLS[c["via"]]).compute_interpolation_taus_corresponding_to_original_grid
    widths = given.tolist() if c["as_list"] else given
    if c["tau"] == [0, 1] and c["default_tau"]:
        out = f(y, widths)
    else:
        out = f(lo + (hi - lo) * y, widths, tau0=lo, tau1=hi)
    taus = read_lists(out, len(w), "points mapped to the segments")
    y = y[y > 0]
    s = dict(widths=[c["w"]], tau=c["tau"])
    pos = positions(s, 0, taus)
    allp = np.concatenate(pos) if pos else np.zeros(0)
    check_true(len(allp) == len(y), "every point after the start appears exactly once", got=len(allp), want=len(y))
    check_close(allp, y, 1e-9 + 2 * abs(c["off"]), "phase position of the mapped points")
    tol = 1e-9 + 4 * abs(c["off"]) / min(c["w"])
    for k, q in enumerate(taus):
        if len(q) and (q.min() < lo - tol * (hi - lo) or q.max() > hi + tol * (hi - lo)):
            fail("a point was mapped to a segment in which it does not lie", segment=k, taus=q)


SUBS = [
    Sub("grids", strat, check, 600, 9000,
        "random problem, unequal widths per phase, per-phase grid types and the argument, grid size "
        "setting, three optimizer classes; non-trivial: several segments",
        lambda s: len(s["orders"]) > 1, classify=lambda s: gen.spec_labels(s) + [s["arg"] or s["gt"][0], s["cls"]]),
    Sub("mapping", lambda tier: map_strat(), check_map, 1500, 30000,
        "increasing points of a phase (including segment boundaries and both ends), widths summing to "
        "one up to round-off of a solver; non-trivial: several segments and points",
        lambda c: len(c["w"]) > 1 and len(c["pts"]) + len(c["bounds"]) + len(c.get("near", [])) > 1,
        classify=lambda c: [f"off={c['off']}", f"segments={len(c['w'])}"]),
]
