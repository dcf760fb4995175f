"""C31: what a problem means where the user sets nothing."""
from hypothesis import strategies as st

from .. import gen
from ..core import Sub, _repo_frame, arr, check_close, check_true, fail
from ..env import mp, np
from ..solvable import CLS

ASSUMPTIONS = [
    "oracle: the same problem with every documented default written out (what a fully written out problem means is C06-C12)",
    "grid defaults are those of the signatures (one segment of degree 9, LGR)",
    "values are assigned as users do: whole rows, single entries in place, or whole arrays",
]
PHASE = ["dyn", "run", "term", "path", "tc", "x00", "xf0", "u00", "uf0", "a0", "t00", "tf0", "lbx", "ubx", "lbu", "ubu",
         "lba", "uba", "lbt0", "ubt0", "lbtf", "ubtf", "midu", "diff_u", "duc", "lbdu", "ubdu"]
WHOLE = ["links", "jumps", "scale_x", "scale_u", "scale_a", "scale_t", "n_params", "n_phases"]
ATTR = dict(duc="du_continuity")


def default(s, p, k):
    """Documented default of an entry of phase p."""
    nx, nu, na = s["nx"], s["nu"], s["na"]
    size = dict(x=nx, u=nu, a=na)
    if k == "dyn":
        return [["c", 0.0]] * nx
    if k in ("run", "term", "path", "tc"):
        return None
    if k in ("x00", "xf0", "u00", "uf0", "a0"):
        return [0.0] * size[k[0]]
    if k in ("lbx", "ubx", "lbu", "ubu", "lba", "uba"):
        return [None] * size[k[2]]
    return dict(t00=0.0, tf0=1.0, lbt0=0.0, ubt0=0.0 if p == 0 else None, lbtf=0.0, ubtf=None, midu=1, diff_u=0, duc=0,
                lbdu=-15.0, ubdu=15.0)[k]


@st.composite
def strat(draw, tier="quick"):
    s = draw(gen.specs(maybe=("run", "term", "path", "tc", "links", "midu", "diff_u", "duc"), max_ph=4, depth=2,
                       grid=gen.grids(max_seg=3, max_deg=4)))
    many = draw(st.booleans())
    s["unset"] = []
    for p, P in enumerate(s["phases"]):
        keys = draw(st.lists(st.sampled_from(PHASE), max_size=len(PHASE) if many else 6, unique=True))
        if draw(st.integers(0, 7)) == 0:
            keys = list(PHASE)
        for k in keys:
            P[k] = default(s, p, k)
        if P["tf0"] == P["t00"]:  # a guess without duration
            P["t00"] = P["tf0"] - 0.5
            keys = [k for k in keys if k != "t00"]
        for lo, hi in (("lbt0", "ubt0"), ("lbtf", "ubtf"), ("lbdu", "ubdu")):
            a, b = P[lo], P[hi]
            if a is not None and b is not None and a > b:  # move the one that is set
                P[lo if hi in keys else hi] = b if hi in keys else a
        s["unset"].append(sorted(keys))
    whole = draw(st.lists(st.sampled_from(WHOLE[:6]), max_size=6, unique=True))
    for k in whole:
        if k == "links":
            s["links"] = [[i, i + 1] for i in range(s["nph"] - 1)]
        elif k == "jumps":
            s["lbe"] = [[0.0] * s["nx"] for _ in range(s["nph"] - 1)]
            s["ube"] = [[0.0] * s["nx"] for _ in range(s["nph"] - 1)]
        elif k == "scale_t":
            s["scale"]["t"] = 1.0
        else:
            s["scale"][k[-1]] = [1.0] * len(s["scale"][k[-1]])
    s["whole"] = whole
    s["style"] = draw(st.sampled_from(["row", "entry", "array"]))
    s["cls"] = draw(st.sampled_from(["fixed", "fixed", "h", "adaptive"]))
    return s


def infinite(k, v):
    sign = -np.inf if k.startswith("lb") else np.inf
    if isinstance(v, list):
        return [sign if q is None else q for q in v]
    return sign if v is None else v


def partial(s):
    """The problem with the unset parts left alone."""
    sizes = {}
    if s["nph"] > 1:
        sizes["n_phases"] = s["nph"]
    if s["na"]:
        sizes["n_params"] = s["na"]
    o = mp.OCP(n_states=s["nx"], n_controls=s["nu"], **sizes)
    na = s["na"]
    for p, P in enumerate(s["phases"]):
        for k in PHASE:
            if k in s["unset"][p]:
                continue
            v = P[k]
            if k == "dyn":
                o.dynamics[p] = gen.node_fn(v, na)
            elif k == "run":
                if v is not None:
                    o.running_costs[p] = gen.node_fn([v], na, True)
            elif k == "term":
                if v is not None:
                    o.terminal_costs[p] = gen.end_fn([v], na, True)
            elif k == "path":
                if v is not None:
                    o.path_constraints[p] = gen.node_fn(v, na)
            elif k == "tc":
                if v is not None:
                    o.terminal_constraints[p] = gen.end_fn(v, na)
            else:
                v = infinite(k, v)
                a = getattr(o, ATTR.get(k, k))
                if s["style"] == "array":
                    new = np.array(a, dtype=float)
                    new[p] = v
                    setattr(o, ATTR.get(k, k), new)
                elif s["style"] == "entry" and isinstance(v, list):
                    for i, q in enumerate(v):
                        a[p][i] = q
                else:
                    a[p] = v
    if "links" not in s["whole"] and s["nph"] > 1:
        o.phase_links = [tuple(q) for q in s["links"]]
    if "jumps" not in s["whole"]:
        for k in range(s["nph"] - 1):
            o.lbe[k], o.ube[k] = infinite("lbe", s["lbe"][k]), infinite("ube", s["ube"][k])
    for k in ("x", "u", "a"):
        if "scale_" + k not in s["whole"]:
            sc = getattr(o, "scale_" + k)
            for i, q in enumerate(s["scale"][k]):
                sc[i] = q
    if "scale_t" not in s["whole"]:
        o.scale_t = s["scale"]["t"]
    return o


def numbers(s, ocp=None, mpo=None):
    n = gen.Nlp(s, getattr(mp, CLS[s["cls"]]), ocp=ocp, mpo=mpo)
    out = []
    for k in (0, 7919):
        f, g = n.eval(gen.random_point(dict(s, zseed=s["zseed"] + k)), s["widths"])
        out += [np.array([f]), g]
    return out + [n.lbx, n.ubx, n.lbg, n.ubg, arr(n.mpo.initialize_solution()).ravel()]


NAMES = ["objective", "constraints", "objective", "constraints", "lower bounds of the variables",
         "upper bounds of the variables", "lower bounds of the constraints", "upper bounds of the constraints",
         "initial guess"]


def same(got, want, what):
    for a, b, k in zip(got, want, NAMES):
        check_true(a.shape == b.shape, f"{what}: number of {k}", got=a.shape, want=b.shape)
        inf = ~np.isfinite(b)
        check_true(np.array_equal(a[inf], b[inf], equal_nan=True), f"{what}: {k}: infinities differ")
        check_close(a[~inf], b[~inf], 1e-12, f"{what}: {k}", scale=1.0)


def check(s):
    sizes = dict(n_states=s["nx"], n_controls=s["nu"], n_phases=s["nph"], n_params=s["na"])
    before = mp.OCP(**sizes)
    o = partial(s)
    after = mp.OCP(**sizes)
    try:
        o.validate()
    except Exception as e:
        if _repo_frame(e) is None:
            raise
        fail("a consistent problem was rejected", error=repr(e))
    same(numbers(s, o), numbers(s, gen.build_ocp(s)), "problem with unset parts")
    # problems are independent of each other
    blank = dict(s, phases=[{k: default(s, p, k) for k in PHASE} for p in range(s["nph"])],
                 links=[[i, i + 1] for i in range(s["nph"] - 1)], lbe=[[0.0] * s["nx"]] * (s["nph"] - 1),
                 ube=[[0.0] * s["nx"]] * (s["nph"] - 1),
                 scale=dict(x=[1.0] * s["nx"], u=[1.0] * s["nu"], a=[1.0] * s["na"], t=1.0))
    want = numbers(blank, gen.build_ocp(blank))
    same(numbers(blank, before), want, "untouched problem created before")
    same(numbers(blank, after), want, "untouched problem created after")


# ------------------------------------------- optimizers without a grid given
@st.composite
def grid_strat(draw, tier="quick"):
    s = draw(gen.specs(maybe=("run", "term", "path", "tc", "links"), max_ph=2, depth=1, max_x=2, max_u=2,
                       grid=gen.grids(max_seg=4, max_deg=4)))
    s["calls"] = [dict(cls=draw(st.sampled_from(["fixed", "h", "adaptive"])),
                       grid=draw(st.sampled_from(["none", "none", "int", "list", "first"])),
                       scheme=draw(st.booleans()), how=draw(st.sampled_from(["kw", "pos"])),
                       n=draw(st.integers(1, 4)), deg=draw(st.integers(1, 5))) for _ in range(draw(st.integers(1, 3)))]
    s["engine"] = "numerical"
    return s


def check_grid(s):
    """The documented grid is one segment of degree 9 of the LGR scheme; one
    degree stands for all segments."""
    for c in s["calls"]:
        gen.apply_settings(s)
        args = {}
        orders = [9]
        if c["grid"] == "int":
            args, orders = dict(n_segments=c["n"], poly_orders=c["deg"]), [c["deg"]] * c["n"]
        elif c["grid"] == "list":
            args, orders = dict(n_segments=len(s["orders"]), poly_orders=list(s["orders"])), s["orders"]
        elif c["grid"] == "first":
            args, orders = dict(poly_orders=c["deg"]), [c["deg"]]
        scheme = s["scheme"] if c["scheme"] else "LGR"
        if c["scheme"]:
            args["scheme"] = scheme
        cls = getattr(mp, CLS[c["cls"]])
        o = gen.build_ocp(s)
        what = f"{CLS[c['cls']]} created with {args}"
        try:
            if c["how"] == "pos" and list(args) == ["n_segments", "poly_orders", "scheme"]:
                mpo = cls(o, *args.values())
            elif c["how"] == "pos" and list(args)[:2] == ["n_segments", "poly_orders"]:
                mpo = cls(o, args["n_segments"], args["poly_orders"])
            else:
                mpo = cls(o, **args)
        except Exception as e:
            if _repo_frame(e) is None:
                raise
            fail(f"{what} raised", error=repr(e))
        w = [[1.0 / len(orders)] * len(orders)] * s["nph"]
        q = dict(s, orders=list(orders), scheme=scheme, widths=w, cls=c["cls"])
        same(numbers(q, mpo=mpo), numbers(q, gen.build_ocp(q)), what)


SUBS = [
    Sub("grid", grid_strat, check_grid, 120, 1500,
        "optimizers of all classes created one after another with the grid or the scheme left out, or one degree for all "
        "segments, against the optimizer with the documented grid written out; non-trivial: something left out",
        lambda s: any(c["grid"] != "list" or not c["scheme"] for c in s["calls"]),
        classify=lambda s: sorted({c["cls"] + " " + c["grid"] for c in s["calls"]})),
    Sub("unset", strat, check, 400, 6000,
        "random problems (1-4 phases, parameters, all features) with random parts of random phases left unset, assigned by "
        "rows, entries in place or arrays, against the problem with the documented defaults written out; untouched problems "
        "created before and after; non-trivial: something unset and something set",
        lambda s: any(s["unset"]) and any(len(u) < len(PHASE) for u in s["unset"]),
        classify=lambda s: gen.spec_labels(s) + [s["style"], s["cls"]] + sorted({"unset=" + k for u in s["unset"] for k in u})),
]
