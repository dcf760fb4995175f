"""Generators of optimal control problems (plain JSON) and the bridge that
turns such a problem into objects of the code under test."""
from . import ref
from .core import Violation, arr, fail, reading
from .env import ca, mp, np

from hypothesis import strategies as st

SCHEMES = ["LGR", "LGL", "CGL"]

eighths = st.integers(-24, 24).map(lambda k: k / 8)
positive = st.integers(1, 24).map(lambda k: k / 8)
seeds = st.integers(0, 2**31 - 1)
scales = st.sampled_from([1.0, 2.0, 0.5, 0.25, 4.0, 10.0, 0.1, 3.0, 1.0])
wild_scales = st.sampled_from([1.0, 2.0, 0.5, 0.125, 16.0, 1000.0, 0.001, 30.0])


# --------------------------------------------------------------- expressions
def leaves(kinds):
    """kinds: list of (name, count) or (name, None) for scalars."""
    opts = []
    for name, n in kinds:
        if n is None:
            opts.append([name])
        else:
            opts += [[name, i] for i in range(n)]
    return opts


def exprs(kinds, depth=3, const=True):
    lv = leaves(kinds)
    leaf = st.sampled_from(lv)
    if const:
        leaf = st.one_of(leaf, leaf, leaf, eighths.map(lambda c: ["c", c]))

    def ext(ch):
        return st.one_of(
            st.tuples(st.sampled_from(["+", "-", "*", "*", "/"]), ch, ch).map(list),
            st.tuples(st.sampled_from(["sin", "cos", "sq", "neg", "tanh", "root"]), ch).map(list),
        )

    s = leaf
    for _ in range(depth):
        s = st.one_of(leaf, ext(s), ext(s))
    return s


def node_kinds(nx, nu, na):
    k = [("x", nx), ("u", nu), ("t", None)]
    if na:
        k.append(("a", na))
    return k


def end_kinds(nx, na):
    k = [("xf", nx), ("tf", None), ("x0", nx), ("t0", None)]
    if na:
        k.append(("a", na))
    return k


@st.composite
def bounds(draw, n, p_inf=0.3):
    lo, hi = [], []
    for _ in range(n):
        a, b = sorted([draw(eighths), draw(eighths)])
        kind = draw(st.integers(0, 5))
        if kind == 0:
            a = None
        elif kind == 1:
            b = None
        elif kind == 2:
            a = b = None
        lo.append(a)
        hi.append(b)
    return lo, hi


def vec(n, s=eighths):
    return st.lists(s, min_size=n, max_size=n)


@st.composite
def widths(draw, nseg, nph, equal=0.3):
    """Segment widths per phase; positive, summing to one."""
    out = []
    for _ in range(nph):
        if nseg == 1:
            out.append([1.0])
            continue
        k = draw(st.lists(st.integers(1, 9), min_size=nseg, max_size=nseg))
        out.append([v / sum(k) for v in k])
    return out


@st.composite
def grids(draw, max_seg=4, max_deg=6, high=False, max_nodes=24, tail=True):
    """Mostly small grids; with `tail` now and then many segments or a high
    degree (the default is one segment of degree 9)."""
    scheme = draw(st.sampled_from(SCHEMES))
    nseg = draw(st.integers(1, max_seg))
    rare = draw(st.integers(0, 24)) if tail else 0
    if rare == 23:
        orders = draw(st.lists(st.sampled_from([1, 1, 2, 3]), min_size=5, max_size=12))
        max_nodes = 40
    elif rare == 24:
        orders = draw(st.lists(st.integers(7, 10), min_size=1, max_size=2))
        max_nodes = 40
    elif high and draw(st.integers(0, 9)) == 0:
        orders = draw(st.lists(st.integers(1, 10), min_size=1, max_size=2))
    elif draw(st.integers(0, 4)) == 0:
        orders = [draw(st.integers(1, max_deg))] * nseg
    else:
        orders = draw(st.lists(st.integers(1, max_deg), min_size=nseg, max_size=nseg))
    while sum(orders) + 1 > max_nodes and len(orders) > 1:
        orders = orders[:-1]
    return dict(
        scheme=scheme,
        orders=orders,
        tau=draw(st.sampled_from([[-1, 1], [-1, 1], [-1, 1], [0, 1], [0, 1], [-2, 1]])),
        engine=draw(st.sampled_from(["numerical", "numerical", "numerical", "symbolic"])),
    )


FEATURES = ("path", "tc", "term", "run", "midu", "diff_u", "duc", "links")


@st.composite
def specs(draw, on=(), maybe=(), max_ph=3, max_x=3, max_u=3, max_a=2, scaled=True,
          wild=False, depth=3, grid=None, min_ph=1, finite=False, tail=True):
    """A problem.  `on`: features present in every phase that may have them,
    `maybe`: features drawn per phase, others are absent."""
    # now and then more of one kind
    rare = draw(st.integers(0, 29)) if tail else 0
    nx = draw(st.integers(1, max_x + 3 * (rare == 29)))
    nu = draw(st.integers(1, max_u + 3 * (rare == 28)))
    na = draw(st.sampled_from([0, 0] + list(range(1, max_a + 1 + 2 * (rare == 27))))) if max_a else 0
    nph = draw(st.integers(min_ph, max_ph + 3 * (rare == 26 and max_ph > 1)))
    s = dict(draw(grid if grid is not None else grids()))
    s.update(nx=nx, nu=nu, na=na, nph=nph)
    nk, ek = node_kinds(nx, nu, na), end_kinds(nx, na)

    def has(f):
        return f in on or (f in maybe and draw(st.booleans()))

    phases = []
    for p in range(nph):
        P = dict(
            dyn=draw(st.lists(exprs(nk, depth), min_size=nx, max_size=nx)),
            run=draw(exprs(nk, depth)) if has("run") else None,
            term=draw(exprs(ek, depth)) if has("term") else None,
            path=draw(st.lists(exprs(nk, 2), min_size=1, max_size=3)) if has("path") else None,
            tc=draw(st.lists(exprs(ek, 2), min_size=1, max_size=3)) if has("tc") else None,
        )
        for k, n in (("x00", nx), ("xf0", nx), ("u00", nu), ("uf0", nu), ("a0", na)):
            P[k] = draw(vec(n))
        P["t00"] = draw(eighths)
        P["tf0"] = P["t00"] + draw(positive)
        for k, n in (("x", nx), ("u", nu), ("a", na)):
            P["lb" + k], P["ub" + k] = draw(bounds(n))
        (P["lbt0"],), (P["ubt0"],) = draw(bounds(1))
        (P["lbtf"],), (P["ubtf"],) = draw(bounds(1))
        P["midu"] = int(has("midu"))
        P["diff_u"] = int(has("diff_u"))
        P["duc"] = int(has("duc"))
        a, b = sorted([draw(eighths), draw(eighths)])
        P["lbdu"], P["ubdu"] = a, b
        phases.append(P)
    s["phases"] = phases
    pairs = [(i, j) for i in range(nph) for j in range(nph) if i != j]
    if nph == 1:
        s["links"] = []
    elif has("links"):
        if draw(st.integers(0, 3)) > 0:
            s["links"] = [[i, i + 1] for i in range(nph - 1)]
        else:
            s["links"] = [
                list(q) for q in draw(
                    st.lists(st.sampled_from(pairs), min_size=1, max_size=nph - 1, unique=True))
            ]
    else:
        s["links"] = []
    s["lbe"], s["ube"] = [], []
    for _ in range(max(nph - 1, 0)):
        lo, hi = draw(bounds(nx))
        if draw(st.booleans()):
            lo = hi = [0.0] * nx
        s["lbe"].append(lo)
        s["ube"].append(hi)
    sc = wild_scales if wild else scales
    if scaled and draw(st.integers(0, 3)) > 0:
        s["scale"] = dict(x=draw(vec(nx, sc)), u=draw(vec(nu, sc)), a=draw(vec(na, sc)),
                          t=draw(sc))
    else:
        s["scale"] = dict(x=[1.0] * nx, u=[1.0] * nu, a=[1.0] * na, t=1.0)
    s["widths"] = draw(widths(len(s["orders"]), nph))
    s["zseed"] = draw(seeds)
    return s


def spec_labels(s):
    out = [f"phases={s['nph']}", f"segments={len(s['orders'])}", s["scheme"], s["engine"]]
    if s["na"]:
        out.append("parameters")
    if any(v != 1.0 for k in ("x", "u", "a") for v in s["scale"][k]) or s["scale"]["t"] != 1:
        out.append("scaled")
    if any(len(set(w)) > 1 for w in s["widths"]):
        out.append("unequal-widths")
    if len(set(s["orders"])) > 1:
        out.append("mixed-degrees")
    for f in ("path", "tc", "term", "run"):
        if any(P[f] is not None for P in s["phases"]):
            out.append(f)
    for f in ("midu", "diff_u", "duc"):
        if any(P[f] for P in s["phases"]):
            out.append(f)
    if s["links"]:
        out.append("links")
    return out


# ------------------------------------------------------ the code under test
def apply_settings(s):
    """Class-level user settings of a case (restored by core.judge)."""
    mp.Collocation.D_MATRIX_METHOD = s.get("engine", "numerical")
    mp.CollocationRoots._TAU_MIN, mp.CollocationRoots._TAU_MAX = s.get("tau", [-1, 1])


def node_fn(e_list, na, scalar=False):
    def call(x, u, t, a=None):
        env = dict(x=x, u=u, t=t, a=a)
        v = [ref.ev(e, env, ca) for e in e_list]
        return v[0] if scalar else v

    if na:
        return lambda x, u, t, a: call(x, u, t, a)
    return lambda x, u, t: call(x, u, t)


def end_fn(e_list, na, scalar=False):
    def call(xf, tf, x0, t0, a=None):
        env = dict(xf=xf, tf=tf, x0=x0, t0=t0, a=a)
        v = [ref.ev(e, env, ca) for e in e_list]
        return v[0] if scalar else v

    if na:
        return lambda xf, tf, x0, t0, a: call(xf, tf, x0, t0, a)
    return lambda xf, tf, x0, t0: call(xf, tf, x0, t0)


def _f(v, d):
    return np.array([d if q is None else float(q) for q in v], dtype=float)


def build_ocp(s):
    nx, nu, na, nph = s["nx"], s["nu"], s["na"], s["nph"]
    o = mp.OCP(n_states=nx, n_controls=nu, n_phases=nph, **({"n_params": na} if na else {}))
    for p, P in enumerate(s["phases"]):
        o.dynamics[p] = node_fn(P["dyn"], na)
        if P["run"] is not None:
            o.running_costs[p] = node_fn([P["run"]], na, True)
        if P["term"] is not None:
            o.terminal_costs[p] = end_fn([P["term"]], na, True)
        if P["path"] is not None:
            o.path_constraints[p] = node_fn(P["path"], na)
        if P["tc"] is not None:
            o.terminal_constraints[p] = end_fn(P["tc"], na)
        o.x00[p], o.xf0[p], o.u00[p], o.uf0[p] = P["x00"], P["xf0"], P["u00"], P["uf0"]
        o.a0[p] = P["a0"]
        o.t00[p], o.tf0[p] = P["t00"], P["tf0"]
        o.lbx[p], o.ubx[p] = _f(P["lbx"], -np.inf), _f(P["ubx"], np.inf)
        o.lbu[p], o.ubu[p] = _f(P["lbu"], -np.inf), _f(P["ubu"], np.inf)
        o.lba[p], o.uba[p] = _f(P["lba"], -np.inf), _f(P["uba"], np.inf)
        o.lbt0[p], o.ubt0[p] = _f([P["lbt0"]], -np.inf), _f([P["ubt0"]], np.inf)
        o.lbtf[p], o.ubtf[p] = _f([P["lbtf"]], -np.inf), _f([P["ubtf"]], np.inf)
    o.midu = np.array([P["midu"] for P in s["phases"]])
    o.diff_u = np.array([P["diff_u"] for P in s["phases"]])
    o.du_continuity = np.array([P["duc"] for P in s["phases"]])
    o.lbdu = np.array([P["lbdu"] for P in s["phases"]])
    o.ubdu = np.array([P["ubdu"] for P in s["phases"]])
    if nph > 1:
        o.phase_links = [tuple(q) for q in s["links"]]
        for k in range(nph - 1):
            o.lbe[k], o.ube[k] = _f(s["lbe"][k], -np.inf), _f(s["ube"][k], np.inf)
    sc = s["scale"]
    o.scale_x, o.scale_u = np.array(sc["x"], float), np.array(sc["u"], float)
    o.scale_a, o.scale_t = np.array(sc["a"], float), float(sc["t"])
    for k, v in s.get("consts", {}).items():
        setattr(o, k, v)
    return o


def make(s, cls=None, ocp=None):
    """Optimizer of a spec, with its class-level settings applied."""
    apply_settings(s)
    cls = cls or mp.mpopt
    o = build_ocp(s) if ocp is None else ocp
    orders = s["orders"]
    if s.get("int_orders") and len(set(orders)) == 1:
        orders = orders[0]
    else:
        orders = list(orders)
    return cls(o, len(s["orders"]), orders, s["scheme"])


class Nlp:
    """The nonlinear program of an optimizer as numbers: f, g at a point, the
    bounds, and which entry of the decision vector is which variable (found
    by retrieving the trajectories of the vector 0, 1, 2, ...)."""

    def __init__(self, s, cls=None, mpo=None, ocp=None):
        self.s = s
        self.mpo = mpo if mpo is not None else make(s, cls, ocp)
        prob, bnds = self.mpo.create_nlp()
        self.adaptive = isinstance(self.mpo, mp.mpopt_adaptive)
        with reading("nonlinear program"):
            x, f, g = prob["x"], prob["f"], prob["g"]
            ins = [x]
            self.n_p = 0
            if not self.adaptive:
                ins.append(prob["p"])
                self.n_p = prob["p"].shape[0]
            self.fn = ca.Function("nlp", ins, [f, g])
            self.n = x.shape[0]
            self.m = g.shape[0]
            b = {k: np.array(bnds[k], dtype=float).ravel() for k in ("lbx", "ubx", "lbg", "ubg")}
            self.lbx, self.ubx, self.lbg, self.ubg = b["lbx"], b["ubx"], b["lbg"], b["ubg"]
        if len(self.lbx) != self.n or len(self.ubx) != self.n:
            fail("bounds of the variables do not match their number", n=self.n)
        if len(self.lbg) != self.m or len(self.ubg) != self.m:
            fail("bounds of the constraints do not match their number", m=self.m)
        self.layout()

    def layout(self):
        s, mpo = self.s, self.mpo
        st_ = s["scale"]["t"]
        z = np.arange(self.n, dtype=float)
        h = np.ones(len(s["orders"]) * s["nph"]) / len(s["orders"])
        self.idx = []
        seen = []
        N = sum(s["orders"]) + 1
        for ph in range(s["nph"]):
            out = mpo.init_trajectories(ph)(z, h)
            with reading("trajectory function"):
                X, U, t, t0, tf, a = [np.array(q.full()) for q in out]
                d = dict(
                    X=np.round(X).astype(int), U=np.round(U).astype(int),
                    A=np.round(a.ravel()).astype(int),
                    t0=int(round(float(t0) * st_)), tf=int(round(float(tf) * st_)),
                )
            if d["X"].shape != (N, s["nx"]) or d["U"].shape != (N, s["nu"]) or len(d["A"]) != s["na"]:
                fail("retrieved trajectory has the wrong shape", x=d["X"].shape, u=d["U"].shape)
            self.idx.append(d)
            seen += list(d["X"].ravel()) + list(d["U"].ravel()) + list(d["A"]) + [d["t0"], d["tf"]]
        if len(set(seen)) != len(seen) or (seen and (min(seen) < 0 or max(seen) >= self.n)):
            fail("retrieved trajectories do not come from distinct variables")
        rest = sorted(set(range(self.n)) - set(seen))
        self.hidx = None
        if self.adaptive:
            with reading("segment widths of the decision vector"):
                hf = ca.Function("h", [mpo.Z], [mpo.seg_widths[:]])(z)
                hi = np.round(np.array(hf.full())).astype(int).ravel()
            if sorted(hi) != rest:
                fail("segment widths are not the remaining variables", rest=rest, widths=hi)
            self.hidx = hi.reshape(s["nph"], len(s["orders"]))
        elif rest:
            fail("variables that belong to no trajectory", rest=rest)

    def pack(self, vs, w):
        z = np.zeros(self.n)
        for ph, v in enumerate(vs):
            d = self.idx[ph]
            z[d["X"]] = v["X"]
            z[d["U"]] = v["U"]
            z[d["A"]] = v["A"]
            z[d["t0"]], z[d["tf"]] = v["t0"], v["tf"]
            if self.hidx is not None:
                z[self.hidx[ph]] = w[ph]
        return z

    def eval(self, vs, w):
        z = self.pack(vs, w)
        if self.adaptive:
            f, g = self.fn(z)
        else:
            f, g = self.fn(z, np.concatenate([np.array(q, float) for q in w]))
        f, g = arr(f, "objective"), arr(g, "constraints")
        if f.size != 1:
            fail("objective is not a scalar", shape=f.shape)
        return float(f.ravel()[0]), g.ravel()


def random_point(s, mag=1.5):
    """Scaled trajectories of every phase from the case's seed."""
    r = np.random.RandomState(s["zseed"])
    N = sum(s["orders"]) + 1
    sc = s["scale"]
    out = []
    for _ in range(s["nph"]):
        t0 = r.uniform(-1, 1)
        tf = t0 + r.uniform(0.25, 2.5)
        out.append(dict(
            X=r.uniform(-mag, mag, (N, s["nx"])) * np.array(sc["x"]),
            U=r.uniform(-mag, mag, (N, s["nu"])) * np.array(sc["u"]),
            A=r.uniform(-mag, mag, s["na"]) * np.array(sc["a"]),
            t0=t0 * sc["t"], tf=tf * sc["t"],
        ))
    return out


# ------------------------------------------------------------- row matching
def _match(actual, want, tol):
    """Greedy one-dimensional matching; returns indices of unmatched wants."""
    a = np.sort(np.asarray(actual, float))
    used = np.zeros(len(a), bool)
    missing = []
    lo = 0
    for v in np.sort(np.asarray(want, float)):
        t = tol * max(1.0, abs(v))
        while lo < len(a) and (used[lo] or a[lo] < v - t):
            if not used[lo] and a[lo] < v - t:
                pass
            lo += 1
        if lo < len(a) and abs(a[lo] - v) <= t:
            used[lo] = True
            lo += 1
        else:
            missing.append(v)
    return missing


def rows_present(g, lb, ub, want, wlb, wub, tol, what):
    """Every wanted row (value, lb, ub) occurs among the actual rows (each
    actual row used once).  Equality rows at zero count up to their sign."""
    g, lb, ub = map(np.asarray, (g, lb, ub))
    want, wlb, wub = (np.asarray(q, float).ravel() for q in (want, wlb, wub))
    if not np.all(np.isfinite(g)):
        fail(f"{what}: constraint values are not finite", n=int((~np.isfinite(g)).sum()))
    live = ~(np.isneginf(wlb) & np.isposinf(wub))
    want, wlb, wub = want[live], wlb[live], wub[live]
    keys = sorted({(a, b) for a, b in zip(wlb, wub)})
    for a, b in keys:
        sel = (wlb == a) & (wub == b)
        rows = _near(lb, a) & _near(ub, b)
        va, vw = g[rows], want[sel]
        if a == 0 and b == 0:
            va, vw = np.abs(va), np.abs(vw)
        if len(va) < len(vw):
            fail(f"{what}: too few constraints with bounds [{a}, {b}]", got=len(va), want=len(vw))
        miss = _match(va, vw, tol)
        if miss:
            fail(f"{what}: no constraint with this value and bounds [{a}, {b}]",
                 value=miss[0], missing=len(miss), of=len(vw),
                 nearest=va[np.argmin(np.abs(va - miss[0]))])


def _near(v, b):
    if np.isinf(b):
        return v == b
    return np.abs(v - b) <= 1e-9 * max(1.0, abs(b))


def live_rows(lb, ub):
    return int((~(np.isneginf(lb) & np.isposinf(ub))).sum())


# ------------------------------------------------------- solutions as inputs
def with_solution(s, cls=None, ocp=None, z_of=None):
    """An optimizer whose reported widths are those of the case, and a
    solution dictionary holding the case's point."""
    n = Nlp(s, cls, ocp=ocp)
    vs = random_point(s) if z_of is None else z_of(n)
    z = n.pack(vs, s["widths"])
    n.mpo._nlp_sw_params = [float(v) for q in s["widths"] for v in q]
    return n, vs, {"x": ca.DM(z), "f": ca.DM(0)}


def seg_points(draw, orders, tau, lo=0, hi=5, ends=True, distinct=True):
    """Points per segment, sorted, as fractions of the segment in 64ths."""
    out = []
    a, b = (0, 64) if ends else (1, 63)
    for _ in orders:
        q = draw(st.lists(st.integers(a, b), min_size=lo, max_size=hi, unique=distinct))
        out.append(sorted(q))
    return out


def to_tau(s, pts):
    lo, hi = s["tau"]
    return [lo + (hi - lo) * np.array(q, float) / 64 for q in pts]


def seg_times(s, ph, vs, k, taus):
    """Times of points of segment k of a phase."""
    t0, tf = vs[ph]["t0"] / s["scale"]["t"], vs[ph]["tf"] / s["scale"]["t"]
    w = s["widths"][ph]
    lo, hi = s["tau"]
    return t0 + (tf - t0) * (sum(w[:k]) + w[k] * (np.asarray(taus) - lo) / (hi - lo))


def taus_of_times(s, ph, vs, k, times):
    t0, tf = vs[ph]["t0"] / s["scale"]["t"], vs[ph]["tf"] / s["scale"]["t"]
    w = s["widths"][ph]
    lo, hi = s["tau"]
    return lo + (hi - lo) * (((np.asarray(times) - t0) / (tf - t0)) - sum(w[:k])) / w[k]
