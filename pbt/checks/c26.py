"""C26: validation of problems."""
import copy

from hypothesis import strategies as st

from .. import gen
from ..core import Sub, _repo_frame, check_true, fail
from ..env import ca, mp, np

ASSUMPTIONS = [
    "rejecting means raising any exception; accepting means returning without one",
    "problems are consistent by construction; each mutation breaks exactly one stated rule",
    "switches and slope bounds of controls, figure settings and phase links are not validated and no part of the property",
    "NaN bounds are left out",
]
FUNS = ["dynamics", "running_costs", "terminal_costs", "path_constraints", "terminal_constraints"]
ARRAYS = dict(x00="nx", xf0="nx", u00="nu", uf0="nu", a0="na", t00=1, tf0=1, lbx="nx", ubx="nx", lbu="nu", ubu="nu",
              lba="na", uba="na", lbt0=1, ubt0=1, lbtf=1, ubtf=1)
PAIRS = [("lbx", "ubx"), ("lbu", "ubu"), ("lba", "uba"), ("lbt0", "ubt0"), ("lbtf", "ubtf"), ("lbe", "ube")]


@st.composite
def base(draw, max_ph=4):
    s = draw(gen.specs(maybe=("run", "term", "path", "tc", "links", "midu", "diff_u", "duc"), max_ph=max_ph, max_x=4,
                       max_u=3, max_a=3, depth=2, wild=True, grid=gen.grids(max_seg=2, max_deg=3)))
    s["tight"] = draw(st.integers(0, 3)) == 0
    s["ret"] = draw(st.sampled_from(["list", "list", "tuple", "array"]))
    s["plain"] = draw(st.integers(0, 9)) == 0
    s["ints"] = draw(st.integers(0, 4)) == 0
    return s


def problem(s):
    if s["plain"]:
        o = mp.OCP(n_states=s["nx"], n_controls=s["nu"], n_phases=s["nph"], n_params=s["na"])
        return o
    o = gen.build_ocp(s)
    if s["tight"]:
        for a, b in PAIRS[:5]:
            lo = getattr(o, a)
            lo[~np.isfinite(lo)] = 1.0
            setattr(o, b, lo.copy())
    if s["ints"]:
        for k in ("x00", "xf0", "u00", "uf0"):
            setattr(o, k, np.round(getattr(o, k)).astype(int))
    if s["ret"] != "list":
        wrap = tuple if s["ret"] == "tuple" else np.array
        for k in ("dynamics", "path_constraints", "terminal_constraints"):
            fs = getattr(o, k)
            for i in range(s["nph"]):
                def call(*a, f=fs[i], **kw):
                    v = f(*a, **kw)
                    if v is None or any(isinstance(q, (ca.SX, ca.MX)) for q in v):
                        return v
                    return wrap([float(np.ravel(q)[0]) if np.size(q) == 1 else q for q in v])
                fs[i] = call
    return o


def snapshot(o):
    out = {}
    for k, v in vars(o).items():
        if isinstance(v, np.ndarray):
            out[k] = (v.dtype.str, v.shape, v.copy())
        elif isinstance(v, list):
            out[k] = list(v)
        else:
            out[k] = copy.copy(v)
    return out


def unchanged(o, before, what):
    after = vars(o)
    check_true(set(after) == set(before), f"{what}: attributes added or removed")
    for k, v in before.items():
        w = after[k]
        if isinstance(v, tuple) and len(v) == 3 and isinstance(v[2], np.ndarray):
            ok = isinstance(w, np.ndarray) and w.dtype.str == v[0] and w.shape == v[1] and np.array_equal(w, v[2])
        elif isinstance(v, list):
            ok = len(v) == len(w) and all(a is b or a == b for a, b in zip(v, w))
        else:
            ok = v == w
        check_true(bool(ok), f"{what} changed {k}")


def check_accept(s):
    o = problem(s)
    before = snapshot(o)
    try:
        r = o.validate()
    except Exception as e:
        if _repo_frame(e) is None:
            raise
        fail("a consistent problem was rejected", error=repr(e), where=_repo_frame(e))
    unchanged(o, before, "validation")
    o.validate()
    unchanged(o, before, "validation")
    # what is accepted can be transcribed
    if s["plain"]:
        s = dict(s, scale=dict(x=[1.0] * s["nx"], u=[1.0] * s["nu"], a=[1.0] * s["na"], t=1.0))
    gen.Nlp(s, ocp=o)


# ----------------------------------------------------------------- rejections
@st.composite
def reject_strat(draw, tier="quick"):
    s = draw(base())
    s["ret"], s["ints"] = "list", False
    nph = s["nph"]
    kinds = ["fun_len", "dyn_len", "cost_none", "empty", "scale", "shape", "order", "declared", "order"]
    if nph > 1:
        kinds += ["links_shape", "links_order"]
    m = dict(kind=draw(st.sampled_from(kinds)), ph=draw(st.integers(0, nph - 1)), d=draw(st.sampled_from([-1, 1, 1, 2])))
    k = m["kind"]
    if k == "fun_len":
        m["which"] = draw(st.sampled_from(FUNS))
    elif k == "cost_none":
        m["which"] = draw(st.sampled_from(["running_costs", "terminal_costs"]))
    elif k == "empty":
        m["which"] = draw(st.sampled_from(["path_constraints", "terminal_constraints"]))
    elif k == "scale":
        m["which"] = draw(st.sampled_from(["scale_x", "scale_u", "scale_a"]))
    elif k == "shape":
        m["which"] = draw(st.sampled_from(sorted(ARRAYS)))
        m["how"] = draw(st.sampled_from(["rows", "cols", "transpose", "flat"]))
    elif k == "order":
        opts = [p for p in PAIRS[:5] if p[0] != "lba" or s["na"]]
        m["which"] = list(draw(st.sampled_from(opts)))
        m["i"] = draw(st.integers(0, 7))
        m["how"] = draw(st.sampled_from(["swap", "tiny", "inf_lo", "inf_hi", "huge"]))
        m["v"] = draw(gen.eighths)
    elif k == "links_order":
        m["which"] = ["lbe", "ube"]
        m["ph"] = draw(st.integers(0, nph - 2))
        m["i"], m["how"] = draw(st.integers(0, 7)), draw(st.sampled_from(["swap", "tiny", "inf_lo", "inf_hi"]))
        m["v"] = draw(gen.eighths)
    elif k == "links_shape":
        m["which"] = draw(st.sampled_from(["lbe", "ube"]))
        m["how"] = draw(st.sampled_from(["rows", "cols"]))
    elif k == "declared":
        m["which"] = draw(st.sampled_from(["nx", "nu", "na", "n_phases", "zero"]))
    s["mut"] = m
    return s


def resize(a, rows, cols, d):
    """Array with d more (fewer) rows and / or columns, filled by repetition."""
    r, c = a.shape[0] + rows * d, a.shape[1] + cols * d
    out = np.zeros((max(r, 0), max(c, 0)))
    if out.size and a.size:
        out[:] = np.resize(a, out.shape)
    return out


def mutate(o, s):
    """Breaks one rule; returns a description or None (nothing to break)."""
    m, nph, d = s["mut"], s["nph"], s["mut"]["d"]
    k, ph = m["kind"], m["ph"]
    if k == "fun_len":
        f = list(getattr(o, m["which"]))
        setattr(o, m["which"], f[:d] if d < 0 else f + [f[0]] * d)
        return f"{m['which']} of another number of phases"
    if k == "dyn_len":
        f = o.dynamics[ph]
        o.dynamics = list(o.dynamics)
        if d < 0 and s["nx"] == 1:
            d = 1

        def g(*a):
            v = list(f(*a))
            return v[:d] if d < 0 else v + [0.0] * d
        o.dynamics[ph] = g
        return "dynamics of another length than the number of states"
    if k == "cost_none":
        fs = list(getattr(o, m["which"]))
        fs[ph] = lambda *a: None
        setattr(o, m["which"], fs)
        return f"{m['which']} without value"
    if k == "empty":
        fs = list(getattr(o, m["which"]))
        fs[ph] = lambda *a: []
        setattr(o, m["which"], fs)
        return f"empty {m['which']}"
    if k == "scale":
        v = getattr(o, m["which"])
        if d < 0 and len(v) == 0:
            d = 1
        setattr(o, m["which"], np.resize(v, len(v) + d) if len(v) else np.ones(d))
        return f"{m['which']} of wrong length"
    if k == "shape":
        a = getattr(o, m["which"])
        how = m["how"]
        if how == "transpose":
            if a.shape[0] == a.shape[1]:
                how = "rows"
            else:
                setattr(o, m["which"], a.T.copy())
                return f"transposed {m['which']}"
        if how == "flat":
            setattr(o, m["which"], a.ravel().copy())
            return f"flat {m['which']}"
        if how == "cols" and d < 0 and a.shape[1] == 0:
            d = 1
        setattr(o, m["which"], resize(a, how == "rows", how == "cols", d))
        return f"{m['which']} with wrong number of {how}"
    if k == "links_shape":
        a = getattr(o, m["which"])
        setattr(o, m["which"], resize(a, m["how"] == "rows", m["how"] == "cols", d))
        return f"{m['which']} with wrong number of {m['how']}"
    if k in ("order", "links_order"):
        lo, hi = (np.array(getattr(o, q), dtype=float) for q in m["which"])
        i = m["i"] % lo.shape[1]
        v = m["v"]
        a, b = {"swap": (v + 1.0, v), "tiny": (v + 1e-9 * max(1.0, abs(v)), v), "inf_lo": (np.inf, v),
                "inf_hi": (v, -np.inf), "huge": (1e300, v)}[m["how"]]
        lo[ph, i], hi[ph, i] = a, b
        setattr(o, m["which"][0], lo)
        setattr(o, m["which"][1], hi)
        return f"{m['which'][0]} above {m['which'][1]} in phase {ph}, entry {i}"
    w = m["which"]
    if w == "zero":
        o.n_phases = 0
        return "no phase"
    now = getattr(o, w)
    if now + d < 0 or (w != "na" and now + d < 1):
        d = 1
    setattr(o, w, now + d)
    return f"declared {w} differs from the arrays"


def check_reject(s):
    o = problem(s)
    what = mutate(o, s)
    before = snapshot(o)
    try:
        o.validate()
    except Exception as e:
        if _repo_frame(e) is None:
            raise
        unchanged(o, before, "validation")
        return
    fail("validation accepted a malformed problem: " + what)


# -------------------------------------------- every mutation of one problem
def every(s):
    """All corruptions of the kinds above of one problem (values from the draw)."""
    nph, size = s["nph"], dict(x=s["nx"], u=s["nu"], a=s["na"])
    ds, hows = (-1, 1, 2), ("swap", "tiny", "inf_lo", "inf_hi", "huge")
    out, n = [], 0
    for d in ds:
        out += [dict(kind="fun_len", which=w, ph=0, d=d) for w in FUNS]
        out += [dict(kind="dyn_len", ph=p, d=d) for p in range(nph)]
        out += [dict(kind="scale", which=w, ph=0, d=d) for w in ("scale_x", "scale_u", "scale_a")]
        out += [dict(kind="shape", which=w, ph=0, d=d, how=h) for w in ARRAYS for h in ("rows", "cols")]
        out += [dict(kind="declared", which=w, ph=0, d=d) for w in ("nx", "nu", "na", "n_phases")]
        if nph > 1:
            out += [dict(kind="links_shape", which=w, ph=0, d=d, how=h) for w in ("lbe", "ube") for h in ("rows", "cols")]
    out += [dict(kind="shape", which=w, ph=0, d=1, how=h) for w in ARRAYS for h in ("transpose", "flat")]
    out.append(dict(kind="declared", which="zero", ph=0, d=1))
    for p in range(nph):
        out += [dict(kind="cost_none", which=w, ph=p, d=1) for w in ("running_costs", "terminal_costs")]
        out += [dict(kind="empty", which=w, ph=p, d=1) for w in ("path_constraints", "terminal_constraints")]
    for lo, hi in PAIRS:
        link = lo == "lbe"
        for p in range(nph - 1 if link else nph):
            for i in range(s["nx"] if link else size.get(lo[2:], 1)):
                n += 1
                how = hows[(s["turn"] + n) % (4 if link else 5)]
                out.append(dict(kind="links_order" if link else "order", which=[lo, hi], ph=p, i=i, d=1, how=how,
                                v=s["v"]))
    return out


@st.composite
def every_strat(draw, tier="quick"):
    s = draw(base(3))
    s["ret"], s["ints"] = "list", False
    s["turn"], s["v"] = draw(st.integers(0, 4)), draw(gen.eighths)
    return s


def check_every(s):
    for m in every(s):
        check_reject(dict(s, mut=m))


SUBS = [
    Sub("accept", lambda tier: base(), check_accept, 400, 8000,
        "consistent problems (also defaults, equal bounds, integer arrays, tuples and arrays returned by the functions), "
        "accepted, unchanged and transcribable; non-trivial: several phases, states or parameters",
        lambda s: s["nph"] > 1 or s["nx"] > 1 or s["na"] > 0,
        classify=lambda s: gen.spec_labels(s) + [s["ret"], f"plain={s['plain']}", f"tight={s['tight']}"]),
    Sub("reject", reject_strat, check_reject, 1500, 30000,
        "one corruption of one function list, return value, array shape, declared size or bound order in any phase and "
        "entry; non-trivial: all",
        classify=lambda s: [s["mut"]["kind"], s["mut"]["kind"] + ":" + str(s["mut"].get("which", "")) + ":" + s["mut"].get("how", "")]),
    Sub("every", every_strat, check_every, 40, 400,
        "one problem with each of about 250 corruptions: every function list, array, declared size, phase and bound "
        "entry, too short and too long; non-trivial: all", classify=lambda s: gen.spec_labels(s) + [f"plain={s['plain']}"]),
]
