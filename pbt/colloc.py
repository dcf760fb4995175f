"""Shared parts of the checks of the approximation matrices (C02-C05)."""
from hypothesis import strategies as st

from . import gen, ref
from .core import arr, check_close, check_true
from .env import mp, np

# Accuracy of the two engines, measured on the delivered tree and widened by
# two orders of magnitude: symbolic matrices by degree, numerical likewise.


def tol_alg(engine, p):
    """values and first derivatives, relative to the size of the data"""
    if engine == "symbolic":
        return 1e-9 if p <= 12 else 1e-7
    return 1e-9 if p <= 8 else (1e-7 if p <= 12 else (1e-4 if p <= 16 else 1e-2))


def tol_quad(engine, p):
    if engine == "symbolic":
        return 3e-4
    return tol_alg(engine, p)


@st.composite
def base(draw, tier="quick", top=10, max_seg=4, sym_top=8):
    engine = draw(st.sampled_from(["numerical", "numerical", "symbolic"]))
    hi = min(top, sym_top) if engine == "symbolic" else top
    deg = st.one_of(st.integers(1, min(6, hi)), st.integers(1, hi))
    orders = draw(st.lists(deg, min_size=1, max_size=max_seg))
    if len(orders) > 1 and draw(st.integers(0, 3)) == 0:
        orders = [orders[0]] * len(orders)
    # degrees may be given with every request; the object then has its own (here: the same in another order, some of
    # them with others, or unrelated ones)
    own = None
    if draw(st.integers(0, 3)) == 0:
        own = draw(st.one_of(st.permutations(orders), st.lists(st.one_of(st.sampled_from(orders), deg), min_size=1,
                                                               max_size=max_seg)))
    return dict(
        own=own,
        scheme=draw(st.sampled_from(gen.SCHEMES)),
        tau=draw(st.sampled_from([[-1, 1], [-1, 1], [0, 1], [-2, 1], [0, 3]])),
        engine=engine,
        orders=orders,
        coef=[draw(st.lists(gen.eighths, min_size=1, max_size=p + 1)) for p in orders],
        explicit=own is not None or draw(st.booleans()),
    )


@st.composite
def with_points(draw, tier="quick", max_pts=5, **kw):
    c = draw(base(tier, **kw))
    pts = []
    for p in c["orders"]:
        k = draw(st.integers(0, 3))
        if k == 0:
            pts.append("nodes")
        elif k == 1:
            pts.append(draw(st.lists(st.sampled_from([0.0, 1.0, 0.5]), min_size=0, max_size=3)))
        else:
            pts.append([v / 64 for v in draw(st.lists(st.integers(0, 64), min_size=0, max_size=max_pts))])
    if len(pts) > 1 and draw(st.integers(0, 3)) == 0:
        # lists that agree in length and ends, on segments of equal degree
        c["orders"] = [c["orders"][0]] * len(pts)
        c["coef"] = [q[:c["orders"][0] + 1] for q in c["coef"]]
        lo, hi = draw(st.integers(0, 8)), draw(st.integers(56, 64))
        n = draw(st.integers(1, 3))
        pts = [[lo / 64] + sorted(v / 64 for v in draw(gen.vec(n, st.integers(9, 55)))) + [hi / 64] for _ in pts]
    c["pts"] = pts
    return c


def continuous(c):
    """Node values of the continuous piecewise polynomial of the case and its
    (shifted) coefficients per segment."""
    coefs, vals = [], []
    off = 0.0
    tau = c["tau"]
    for k, (p, cf) in enumerate(zip(c["orders"], c["coef"])):
        cf = np.array(cf, float)
        if k > 0:
            cf = cf.copy()
            cf[0] += off - ref.poly_on(cf, tau[0], tau)
        x = ref.nodes(c["scheme"], p, tau)
        v = ref.poly_on(cf, x, tau)
        off = ref.poly_on(cf, tau[1], tau)
        coefs.append(cf)
        vals.append(v if k == 0 else v[1:])
    return np.concatenate(vals), coefs


def points(c):
    tau = c["tau"]
    out = []
    for p, q in zip(c["orders"], c["pts"]):
        if q == "nodes":
            out.append(ref.nodes(c["scheme"], p, tau))
        else:
            out.append(tau[0] + (tau[1] - tau[0]) * np.array(q, float))
    return out


def approximation(c):
    gen.apply_settings(c)
    return mp.Collocation(list(c.get("own") or c["orders"]), c["scheme"])


def po(c):
    return list(c["orders"]) if c["explicit"] else None


def size(v):
    return max(1.0, float(np.abs(v).max()) if np.size(v) else 1.0)


def labels(c):
    out = [c["scheme"], c["engine"], f"segments={len(c['orders'])}"]
    if c.get("own") and c["own"] != c["orders"]:
        out.append("degrees-of-request")
    if max(c["orders"]) > 8:
        out.append("deg>8")
    if any(q == [] for q in c.get("pts", [])):
        out.append("segment-without-points")
    P = [q for q in c.get("pts", []) if len(q) > 2 and q != "nodes"]
    if len(P) > 1 and len({(q[0], q[-1], len(q)) for q in P}) == 1:
        out.append("similar-point-lists")
    return out
