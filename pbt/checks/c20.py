"""C20: mesh refinement yields valid meshes."""
from hypothesis import strategies as st

from .. import gen, ref
from ..core import Sub, arr, check_close, check_true, fail, reading
from ..env import mp, np
from .c16 import terms, read_times

ASSUMPTIONS = [
    "residual areas are trapezoids over equally spaced points, as on the fixed grid",
    "how many segments each run above tolerance gets, and which control slopes are selected, is not pinned",
    "equal-area blending: any fixed factor strictly between 0 and 1",
]
H = mp.mpopt_h_adaptive


def valid(w, n, what, positive=False):
    w = arr(w, what).ravel()
    check_true(len(w) == n, what + ": number of widths", got=len(w), want=n)
    check_true(np.all(np.isfinite(w)), what + ": not finite", widths=w)
    check_true(np.all(w > 0) if positive else np.all(w >= -1e-12), what + ": widths not positive", widths=w)
    check_close(w.sum(), 1.0, 1e-9, what + ": sum of the widths")
    return w


# ------------------------------------------------------------ equal area
@st.composite
def area_strat(draw, tier="quick"):
    n = draw(st.integers(2, 40))
    kind = draw(st.sampled_from(["dense", "sparse", "mags"]))
    el = {"dense": st.integers(0, 1000).map(lambda k: k / 1000),
          "sparse": st.sampled_from([0.0, 0.0, 0.0, 1.0, 0.5]),
          "mags": st.integers(-8, 4).map(lambda k: 10.0**k)}[kind]
    r = draw(st.lists(el, min_size=n, max_size=n))
    if not any(r):
        r[draw(st.integers(0, n - 1))] = 1.0
    return dict(r=r, n=draw(st.integers(1, 12)), as_list=draw(st.booleans()))


def cum_area(r, x):
    """Normalized trapezoid area of the points r up to position x in [0, 1]."""
    c = np.concatenate([[0], np.cumsum((r[1:] + r[:-1]) / 2)])
    return np.interp(np.asarray(x) * (len(r) - 1), np.arange(len(r)), c) / c[-1]


def check_area(c):
    r = np.array(c["r"])
    w = valid(H.get_roots_wrt_equal_area(list(r) if c["as_list"] else r, c["n"]), c["n"], "equal-area widths")
    b = np.clip(np.cumsum(w), 0, 1)
    check_close(cum_area(r, b), np.arange(1, c["n"] + 1) / c["n"], 1e-7, "residual area up to the new boundaries")


# ----------------------------------------------------------- merge / split
@st.composite
def merge_strat(draw, tier="quick"):
    n = draw(st.integers(1, 12))
    k = draw(st.lists(st.integers(1, 30), min_size=n, max_size=n))
    tol = draw(st.sampled_from([1e-3, 1e-2, 1.0]))
    m = draw(st.lists(st.sampled_from([0.0, 0.1, 0.9, 1.0, 1.1, 50.0]), min_size=n, max_size=n))
    return dict(w=[v / sum(k) for v in k], r=[v * tol for v in m], tol=tol,
                default_tol=tol == 1e-3 and draw(st.booleans()), via=draw(st.sampled_from(["direct", "refine"])),
                nx=draw(st.integers(1, 3)), npts=draw(st.lists(st.integers(1, 3), min_size=n, max_size=n)),
                empty=draw(st.lists(st.booleans(), min_size=n, max_size=n)), seed=draw(gen.seeds))


def as_residuals(c):
    """Residual arrays per segment whose largest entry is that of the case."""
    rnd = np.random.RandomState(c["seed"])
    out = []
    for r, n, e in zip(c["r"], c["npts"], c["empty"]):
        if r == 0 and e:
            out.append(None)
            continue
        a = rnd.uniform(-1, 1, (n, c["nx"])) * r * 0.999
        a[rnd.randint(n), rnd.randint(c["nx"])] = r * rnd.choice([-1, 1])
        out.append(a)
    return out


def check_merge_result(w_old, r, tol, w, what):
    n = len(w_old)
    w = valid(w, n, what, positive=True)
    ok = np.asarray(r) < tol
    cum, new = np.concatenate([[0], np.cumsum(w_old)]), np.concatenate([[0], np.cumsum(w)])
    runs, i = [], 0
    while i < n:
        j = i
        while j < n and ok[j] == ok[i]:
            j += 1
        runs.append((i, j, ok[i]))
        i = j
    if all(q[2] for q in runs):
        check_close(w, w_old, 1e-12, what + ": everything within tolerance")
        return
    pos = 0
    for i, j, good in runs:
        lo, hi = cum[i], cum[j]
        check_true(pos < len(new) and abs(new[pos] - lo) < 1e-9, what + ": start of a run of segments not kept",
                   run=(i, j), boundary=lo, new=new)
        e = [q for q in range(pos + 1, n + 1) if abs(new[q] - hi) < 1e-9]
        check_true(bool(e), what + ": end of a run of segments not kept", run=(i, j), boundary=hi, new=new)
        part = w[pos:e[0]]
        if good:
            check_true(len(part) == 1, what + ": run within tolerance is not merged", run=(i, j), widths=part)
        check_close(part, np.full(len(part), (hi - lo) / len(part)), 1e-9, what + ": run is not evenly divided",
                    scale=1e-3)
        pos = e[0]
    check_true(pos == n, what + ": segments left over")


def check_merge(c):
    w = np.array(c["w"])
    kw = {} if c["default_tol"] else dict(ERR_TOL=c["tol"])
    if c["via"] == "direct":
        out = H.merge_split_segments_based_on_residuals(list(c["r"]), w.copy(), **kw)
    else:
        s = minimal(len(w))
        out = gen.make(s, H).refine_segment_widths_based_on_residuals(
            as_residuals(c), w.copy(), method="merge_split", **kw)
    check_merge_result(w, c["r"], c["tol"], out, "merge/split")


def minimal(nseg, nx=1):
    return dict(scheme="LGR", orders=[2] * nseg, tau=[-1, 1], engine="numerical", nx=nx, nu=1, na=0, nph=1,
                phases=[dict(dyn=[["u", 0]] * nx, run=None, term=None, path=None, tc=None, x00=[0.0] * nx,
                             xf0=[1.0] * nx, u00=[0.0], uf0=[0.0], a0=[], t00=0.0, tf0=1.0, lbx=[None] * nx,
                             ubx=[None] * nx, lbu=[None], ubu=[None], lba=[], uba=[], lbt0=0.0, ubt0=0.0,
                             lbtf=1.0, ubtf=1.0, midu=0, diff_u=0, duc=0, lbdu=-1.0, ubdu=1.0)],
                links=[], lbe=[], ube=[], scale=dict(x=[1.0] * nx, u=[1.0], a=[], t=1.0), widths=[[1.0 / nseg] * nseg],
                zseed=0)


# ------------------------------------------------- equal area of residuals
def check_refine_equal(c):
    """refine_segment_widths with arrays per segment, equally many points."""
    s = minimal(len(c["w"]), c["nx"])
    c = dict(c, empty=[False] * len(c["w"]))
    res = as_residuals(c)
    norm = np.concatenate([np.sqrt((a**2).sum(axis=1)) for a in res])
    if len(norm) < 2 or np.sum(norm[1:] + norm[:-1]) <= 0:
        return
    mpo = gen.make(s, H)
    w = valid(mpo.refine_segment_widths_based_on_residuals(
        res, np.array(c["w"]), ERR_TOL=c["tol"], method="equal_area"), len(c["w"]), "equal-area refinement")
    b = np.clip(np.cumsum(w), 0, 1)
    check_close(cum_area(norm, b), np.arange(1, len(w) + 1) / len(w), 1e-7, "residual area up to the new boundaries")


# -------------------------------------------------------- widths at times
@st.composite
def times_strat(draw, tier="quick"):
    k = draw(st.integers(1, 14))
    return dict(n=draw(st.integers(2, 10)), t0=draw(gen.eighths), len=draw(gen.positive),
                y=draw(st.lists(st.integers(1, 255), min_size=k, max_size=k, unique=draw(st.integers(0, 3)) > 0)))


def check_times(c):
    n, t0, tf = c["n"], c["t0"], c["t0"] + c["len"]
    times = t0 + c["len"] * np.array(c["y"]) / 256
    w = valid(H.compute_segment_widths_at_times(times.copy(), n, t0, tf), n, "widths at times")
    b = (np.cumsum(w)[:-1]) * c["len"] + t0

    def near(x, pool):
        return len(pool) and np.abs(np.asarray(pool) - x).min() < 1e-9 * max(1, abs(tf), abs(t0))

    if len(times) >= n - 1:
        bad = [q for q in b if not near(q, times)]
        check_true(not bad, "a segment boundary is none of the given times", boundaries=b, times=times)
    else:
        bad = [q for q in times if not near(q, b)]
        check_true(not bad, "a given time is no segment boundary", boundaries=b, times=times)
        first, last = times.min(), times.max()
        for part in (w[: np.searchsorted(b, first - 1e-9) + 1], w[np.searchsorted(b, last + 1e-9):]):
            check_close(part, np.full(len(part), part.mean() if len(part) else 0), 1e-9,
                        "the parts before the first and after the last time are not evenly divided", scale=1e-3)


@st.composite
def max_strat(draw, tier="quick"):
    n = draw(st.integers(2, 15))
    nu = draw(st.integers(1, 3))
    return dict(du=draw(st.lists(gen.vec(nu, st.integers(0, 16).map(lambda k: k / 8)), min_size=n, max_size=n)),
                thr=draw(st.sampled_from([0.0, 0.3, 1.1, 2.3])), t0=draw(gen.eighths))


def check_max(c):
    du = np.array(c["du"])
    t = c["t0"] + np.arange(len(du)) / 4
    norm = np.sqrt((du**2).sum(axis=1))
    got = arr(H.compute_time_at_max_values(t[1:-1], t, du, threshold=c["thr"])).ravel()
    want = t[1:-1][norm[1:-1] >= c["thr"]]
    check_close(np.sort(got), want, 1e-12, "interior node times with slopes above the threshold")


# ----------------------------------------------------- on whole solutions
@st.composite
def sol_strat(draw, tier="quick"):
    s = draw(gen.specs(maybe=("links", "path", "tc"), max_ph=3, max_x=3, max_u=2, max_a=1, depth=1,
                       grid=gen.grids(max_seg=6, max_deg=4, max_nodes=24)))
    s["method"] = draw(st.sampled_from([["residual", "merge_split"], ["residual", "equal_area"], ["residual", None],
                                        ["control_slope", None]]))
    s["tol"] = [draw(st.sampled_from([0.0, 0.3, 0.7, 0.999, 1.001, 10.0])) for _ in range(s["nph"])]
    s["gt"] = [draw(st.sampled_from(["fixed", "fixed", "mid-points", "spectral"])) for _ in range(s["nph"])]
    s["limits"] = draw(st.booleans())
    s["lbh"] = [draw(st.sampled_from([1e-5, 0.05, 0.12])) for _ in range(s["nph"])]
    s["ubh"] = [draw(st.sampled_from([1.0, 0.5, 0.8])) for _ in range(s["nph"])]
    s["sliver"] = draw(st.integers(0, 4)) == 0
    if s["sliver"] and len(s["orders"]) > 1:
        for w in s["widths"]:
            w[-1] = 0.01
            t = sum(w)
            w[:] = [v / t for v in w]
    return s


def check_sol(s):
    n, vs, sol = gen.with_solution(s, H)
    mpo, ns = n.mpo, len(s["orders"])
    mpo.grid_type = list(s["gt"])
    ti, res = mpo.get_dynamics_residuals(sol)
    taus, _ = read_times(s, ti, vs)
    R, seg = [], []
    for ph in range(s["nph"]):
        T = terms(s, vs, ph, taus[ph])
        seg.append([None if q is None else q[0] - q[1] for q in T])
        R.append(max(np.abs(q).max() for q in seg[-1] if q is not None))
    mpo.tol_residual = [t * r + (1e-12 if r == 0 else 0) for t, r in zip(s["tol"], R)]
    method, sub = s["method"]
    opts = dict(method=method)
    if sub:
        opts["sub_method"] = sub
    before = dict(opts)
    old = list(mpo._nlp_sw_params)
    free = None
    if method == "control_slope" and ns > 1 and s["limits"]:
        with reading("segment widths"):
            free = arr(mpo.get_segment_width_parameters(sol, options=dict(opts))[0]).ravel()
        mpo.lbh, mpo.ubh = list(s["lbh"]), list(s["ubh"])
    out = mpo.get_segment_width_parameters(sol, options=opts)
    check_true(opts == before, "options were changed", options=opts)
    with reading("segment widths and error"):
        w, err = out
        w = arr(w).ravel()
    if ns == 1:
        check_close(w, np.ones(s["nph"]), 1e-12, "widths of single segments")
        return
    check_close(arr(err), max(R), 1e-6, "largest residual", scale=1e-3)
    check_true(len(w) == ns * s["nph"], "number of widths", got=len(w), want=ns * s["nph"])
    for ph in range(s["nph"]):
        v = valid(w[ns * ph: ns * (ph + 1)], ns, f"widths of phase {ph}", positive=method == "residual")
        w_old = np.array(old[ns * ph: ns * (ph + 1)])
        tol = mpo.tol_residual[ph]
        if R[ph] < tol:
            check_close(v, w_old, 1e-12, f"phase {ph} is within its tolerance: widths kept")
            continue
        if method == "control_slope":
            if free is not None and np.abs(v - w_old).max() > 1e-9:
                q = np.clip(free[ns * ph: ns * (ph + 1)], s["lbh"][ph], s["ubh"][ph])
                check_close(v, q / q.sum(), 1e-3, f"slope-based widths of phase {ph} within the width limits")
            continue
        if sub == "merge_split":
            m = [0.0 if q is None else np.abs(q).max() for q in seg[ph]]
            if min(abs(q - tol) for q in m) < 1e-9 * (1 + tol):
                continue
            check_merge_result(w_old, m, tol, v, f"merge/split of phase {ph}")
        elif s["gt"][ph] == "fixed" and all(q is not None for q in seg[ph]):
            norm = np.concatenate([np.sqrt((q**2).sum(axis=1)) for q in seg[ph]])
            # the blended boundaries: b = c * equal + (1 - c) * old
            b, bo = np.cumsum(v)[:-1], np.cumsum(w_old)[:-1]
            grid = np.linspace(0, 1, 20001)
            A = cum_area(norm, grid)
            lo = np.array([grid[np.searchsorted(A, (i + 1) / ns - 1e-6)] for i in range(ns - 1)])
            hi = np.array([grid[min(np.searchsorted(A, (i + 1) / ns + 1e-6, side="right"), 20000)] for i in range(ns - 1)])
            ok = False
            for c in np.linspace(0.05, 0.95, 19):
                eq = (b - (1 - c) * bo) / c
                ok = ok or bool(np.all((eq >= lo - 1e-3) & (eq <= hi + 1e-3)))
            check_true(ok, f"boundaries of phase {ph} are no blend of equal-area and old boundaries",
                       new=b, old=bo, equal=lo)


def check_none(c):
    s = dict(minimal(c["n"]))
    mpo = gen.make(s, H)
    w = mpo.get_segment_width_parameters(None, options={"method": c["m"]})
    with reading("widths without a solution"):
        check_close(arr(w[0]).ravel(), np.full(c["n"], 1 / c["n"]), 1e-12, "widths without a solution")


SUBS = [
    Sub("equal_area", lambda tier: area_strat(), check_area, 1200, 40000,
        "non-negative residual sequences (dense, with flat zero parts, over 12 orders of magnitude), 1-12 "
        "segments; non-trivial: at least 2 segments", lambda c: c["n"] > 1),
    Sub("merge_split", lambda tier: merge_strat(), check_merge, 900, 20000,
        "1-12 segments of random widths with residuals around the tolerance (including exactly at it); "
        "non-trivial: runs on both sides of the tolerance",
        lambda c: len({r < c["tol"] for r in c["r"]}) == 2),
    Sub("refine_equal_area", lambda tier: merge_strat(), check_refine_equal, 300, 5000,
        "residual arrays of several states; non-trivial: at least 2 segments", lambda c: len(c["w"]) > 1),
    Sub("widths_at_times", lambda tier: times_strat(), check_times, 800, 20000,
        "unordered interior times (also repeated), more or fewer than segments; non-trivial: at least 3 segments",
        lambda c: c["n"] > 2, classify=lambda c: ["enough-times" if len(c["y"]) >= c["n"] - 1 else "few-times"]),
    Sub("slope_times", lambda tier: max_strat(), check_max, 300, 5000,
        "control slopes around a threshold; non-trivial: a time is selected",
        lambda c: any(sum(v * v for v in q) ** 0.5 >= c["thr"] for q in c["du"][1:-1])),
    Sub("solutions", sol_strat, check_sol, 400, 6000,
        "random solution vectors and current widths, tolerances around each phase's largest residual, "
        "three methods, per-phase grids; non-trivial: at least 2 segments",
        lambda s: len(s["orders"]) > 1,
        classify=lambda s: gen.spec_labels(s) + ["/".join(str(q) for q in s["method"])]),
    Sub("no_solution", lambda tier: st.fixed_dictionaries(dict(
        n=st.integers(1, 10), m=st.sampled_from(["residual", "control_slope"]))), check_none, 20, 100,
        "widths before the first solve; non-trivial: several segments", lambda c: c["n"] > 1),
]
