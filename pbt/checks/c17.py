"""C17: state residuals."""
from hypothesis import strategies as st

from .. import gen, ref, solpoly
from ..core import Sub, arr, check_close, check_true, reading
from ..env import mp, np
from .c16 import CLS, GRIDS, read_times, terms

ASSUMPTIONS = [
    "the integral is compared where it is exact: the dynamics along the solution is a polynomial that the points of the segment resolve (at least degree + 1 spread points, at most 9)",
    "compared to 1e-6 (numerical engine) or 2e-3 (symbolic engine, whose quadrature is an ODE integration with its own error control) relative to the size of the state",
]


@st.composite
def spread(draw, m):
    """m increasing points, one in each m-th of the segment (64ths)."""
    out = []
    for i in range(m):
        a, b = int(64 * i / m) + (1 if i else 0), int(64 * (i + 1) / m) - 1
        mid = (a + b) // 2
        out.append(draw(st.integers(min(mid, a + (b - a) // 4), max(mid, b - (b - a) // 4))))
    if draw(st.booleans()):
        out[0] = 0
    if draw(st.booleans()):
        out[-1] = 64
    return sorted(set(out))


@st.composite
def lin_strat(draw, tier="quick"):
    s = draw(gen.specs(maybe=("links", "midu", "path", "tc"), max_ph=3, max_x=3, max_u=2, max_a=1, depth=0,
                       grid=gen.grids(max_seg=3, max_deg=5)))
    deg = min(s["orders"])
    for P in s["phases"]:
        P["dyn"] = []
        for i in range(s["nx"]):
            e = solpoly.powers(draw(gen.vec(draw(st.integers(1, deg + 1)))))
            for name, n in (("x", s["nx"]), ("u", s["nu"]), ("a", s["na"])):
                for j in range(n):
                    c = draw(st.sampled_from([0, 0, 1.0, -0.5, 2.0]))
                    if c:
                        e = ["+", e, ["*", ["c", c], [name, j]]]
            P["dyn"].append(e)
    return draw(extras(s, 1))


@st.composite
def poly_strat(draw, tier="quick"):
    s = draw(solpoly.poly_specs(grid=gen.grids(max_seg=3, max_deg=6)))
    return draw(extras(s, 0))


@st.composite
def extras(draw, s, more):
    s["cls"] = draw(st.sampled_from(["fixed", "fixed", "h", "adaptive"]))
    s["pts"] = []
    for ph in range(s["nph"]):
        row = []
        for p in s["orders"]:
            if draw(st.integers(0, 5)) == 0:
                row.append([])
            else:
                row.append(draw(spread(min(p + more + draw(st.integers(0, 2)), 9))))
        if not any(row):
            row[0] = draw(spread(s["orders"][0] + more))
        s["pts"].append(row)
    s["mode"] = draw(st.sampled_from(["own", "own", "own", "default"]))
    s["gt"] = [draw(st.sampled_from(GRIDS)) for _ in range(s["nph"])]
    s["n_grid"] = draw(st.sampled_from([2, 4, 7]))
    s["rel"] = draw(st.booleans())
    s["phases_asked"] = draw(st.one_of(st.none(), st.lists(
        st.integers(0, s["nph"] - 1), min_size=1, max_size=s["nph"], unique=True)))
    s["single"] = draw(st.booleans())
    s["ulp"] = draw(st.sampled_from([0, 0, 4, 9]))
    return s


def integral(s, vs, ph, k, taus, npoly):
    """Integral of the scaled dynamics from the segment start, by Gauss
    quadrature of f along the interpolated solution."""
    x, w = np.polynomial.legendre.leggauss(npoly)
    lo = s["tau"][0]
    out = []
    for t in taus:
        q = lo + (t - lo) * (x + 1) / 2
        one = [q if i == k else np.zeros(0) for i in range(len(s["orders"]))]
        F = terms(s, vs, ph, one)[k][1]
        out.append((t - lo) / 2 * (w @ F))
    return np.array(out).reshape(len(taus), s["nx"])


def own(s, ph):
    """The user's points of a phase; the start of a segment may be off by roundoff."""
    out = gen.to_tau(s, s["pts"][ph])
    h = s["tau"][1] - s["tau"][0]
    return [np.where(q == s["tau"][0], q + s["ulp"] * h * 2.0**-54, q) for q in out]


def run(s, z_of, need):
    mp.mpopt._MAX_GRID_POINTS = s["n_grid"]
    n, vs, sol = gen.with_solution(s, getattr(mp, CLS[s["cls"]]), z_of=z_of)
    n.mpo._MAX_GRID_POINTS = s["n_grid"]
    kw = {}
    if s["mode"] == "own":
        kw["nodes"] = [own(s, ph) for ph in range(s["nph"])]
    else:
        n.mpo.grid_type = list(s["gt"])
    asked = s["phases_asked"] if s["phases_asked"] is not None else list(range(s["nph"]))
    if s["single"]:
        got = [n.mpo.compute_states_from_solution_dynamics(
            sol, ph, nodes=kw["nodes"][ph] if kw else None) for ph in asked]
        rel = False
        with reading("integrated states"):
            got = {ph: tuple(q) for ph, q in zip(asked, got)}
    else:
        out = n.mpo.get_states_residuals(sol, phases=s["phases_asked"],
                                         residual_type="relative" if s["rel"] else None, **kw)
        rel = s["rel"]
        with reading("state residuals"):
            xi, ui, ti, res = out
            got = {ph: (xi[ph], ui[ph], ti[ph], res[ph]) for ph in asked}
            check_true(len(res) == s["nph"] and len(ti) == s["nph"], "state residuals per phase", got=len(res))
    g = ref.Grid(s["scheme"], s["orders"], s["tau"])
    tol = 1e-6 if s["engine"] == "numerical" else 2e-3
    used = 0
    for ph in asked:
        xi, ui, ti, res = got[ph]
        full_ti = [ti if p == ph else [[] for _ in s["orders"]] for p in range(s["nph"])]
        taus, _ = read_times(s, full_ti, vs)
        taus = taus[ph]
        want_taus = own(s, ph) if s["mode"] == "own" else n.mpo.get_residual_grid_taus(ph, s["gt"][ph])
        V, w = vs[ph], s["widths"][ph]
        X, R, ok = [], [], []
        for k in range(g.nseg):
            wt = arr(want_taus[k]).ravel()
            check_true(len(wt) == len(taus[k]), f"number of points in segment {k} of phase {ph}",
                       got=len(taus[k]), want=len(wt))
            check_close(taus[k], wt, 1e-7, f"times in segment {k} of phase {ph}")
            one = [wt if i == k else np.zeros(0) for i in range(g.nseg)]
            xs = g.interp(V["X"], one)
            I = V["X"][g.start[k]][None, :] + integral(s, vs, ph, k, wt, s["orders"][k] + 3)
            X.append(I)
            R.append(xs - I)
            ok.append(need(ph, k) <= len(wt) <= 9 and len(wt) > 0)
        if rel and not all(o or len(q) == 0 for o, q in zip(ok, X)):
            continue  # the divisor comes from unresolved integrals
        div = np.ones(s["nx"])
        if rel:
            div = np.abs(np.concatenate([q for q in X if len(q)])).max(axis=0)
            div[div == 0] = 1.0
        size = np.abs(V["X"]).max(axis=0) + np.abs(np.concatenate(X)).max(axis=0) + 0.1 * np.array(s["scale"]["x"])
        if rel and (div < 1e-3 * size).any():
            continue
        for k in range(g.nseg):
            if len(X[k]) == 0:
                check_true(res[k] is None or len(res[k]) == 0, "state residual of a segment without points")
                continue
            if not ok[k]:
                continue
            used += 1
            with reading("state residuals of a segment"):
                a, b, c = arr(xi[k]), arr(res[k]), arr(ui[k])
                a, b = a.reshape(X[k].shape), b.reshape(X[k].shape)
                c = c.reshape(len(X[k]), s["nu"])
            what = f"segment {k} of phase {ph}"
            check_close(a, X[k], tol, "integrated state in " + what, scale=np.broadcast_to(size, a.shape))
            check_close(b, R[k] / div, tol, "state residual in " + what, scale=np.broadcast_to(size / div, a.shape))
            one = [taus[k] if i == k else np.zeros(0) for i in range(g.nseg)]
            check_close(c, g.interp(V["U"], one), 1e-6, "controls in " + what, scale=20 * np.abs(V["U"]).max() + 1e-9)
    return used


def check_lin(s):
    run(s, None, lambda ph, k: s["orders"][k] + 1)


def check_poly(s):
    deg = [max(max(len(c) - 2, 0) for c in s["px"][ph]) for ph in range(s["nph"])]
    run(s, lambda n: solpoly.point(s), lambda ph, k: deg[ph] + 1)


def interesting(s):
    return s["nph"] > 1 or len(s["orders"]) > 1 or "scaled" in gen.spec_labels(s)


def labels(s):
    return gen.spec_labels(s) + [s["cls"], s["mode"], "single" if s["single"] else ("relative" if s["rel"] else "absolute")]


SUBS = [
    Sub("linear", lin_strat, check_lin, 300, 4000,
        "linear dynamics with polynomial forcing along random interpolated trajectories; own points "
        "(segments without points), default grids, phases asked for, absolute and relative; non-trivial: "
        "several segments or phases or scaling", interesting, classify=labels),
    Sub("polynomial", poly_strat, check_poly, 250, 3000,
        "problems with a polynomial solution of nonlinear dynamics: state residuals vanish; non-trivial: "
        "several segments or phases or scaling", interesting, classify=labels),
]
