"""Problems with a known polynomial solution of the dynamics, as specs.

In every phase, states and controls are polynomials of time with random
coefficients; the dynamics is the derivative of the state polynomial plus
nonlinear terms that vanish along the solution."""
from hypothesis import strategies as st

from . import gen
from .env import np


def powers(coef):
    """Expression tree of a polynomial of time (Horner)."""
    e = ["c", coef[-1]]
    for c in reversed(coef[:-1]):
        e = ["+", ["c", c], ["*", ["t"], e]]
    return e


def dcoef(coef):
    return [k * c for k, c in enumerate(coef)][1:] or [0.0]


def polyval(coef, t):
    return np.polynomial.polynomial.polyval(t, np.array(coef, float))


@st.composite
def poly_specs(draw, max_ph=3, grid=None, max_x=3, max_u=2, max_a=1, linear=False, **kw):
    s = draw(gen.specs(maybe=("links", "midu"), max_ph=max_ph, max_x=max_x, max_u=max_u,
                       max_a=max_a, depth=0, grid=grid, **kw))
    deg = min(s["orders"])
    s["px"], s["pu"] = [], []
    for P in s["phases"]:
        px = [draw(gen.vec(draw(st.integers(1, deg + 1)))) for _ in range(s["nx"])]
        pu = [draw(gen.vec(draw(st.integers(1, deg + 1)))) for _ in range(s["nu"])]
        dyn = []
        for i in range(s["nx"]):
            e = powers(dcoef(px[i]))
            for _ in range(draw(st.integers(0, 2))):
                if draw(st.booleans()):
                    j = draw(st.integers(0, s["nx"] - 1))
                    d = ["-", ["x", j], powers(px[j])]
                else:
                    j = draw(st.integers(0, s["nu"] - 1))
                    d = ["-", ["u", j], powers(pu[j])]
                f = draw(gen.exprs(gen.node_kinds(s["nx"], s["nu"], s["na"]), 1))
                e = ["+", e, ["*", f, d]]
            dyn.append(e)
        P["dyn"] = dyn
        s["px"].append(px)
        s["pu"].append(pu)
    return s


def point(s):
    """The solution as a decision point (scaled values)."""
    from . import ref

    g = ref.Grid(s["scheme"], s["orders"], s["tau"])
    vs = gen.random_point(s)
    for ph, v in enumerate(vs):
        t = g.times(s["widths"][ph], v["t0"] / s["scale"]["t"], v["tf"] / s["scale"]["t"])
        v["X"] = np.stack([polyval(c, t) for c in s["px"][ph]], 1) * np.array(s["scale"]["x"])
        v["U"] = np.stack([polyval(c, t) for c in s["pu"][ph]], 1) * np.array(s["scale"]["u"])
    return vs
