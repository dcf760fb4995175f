"""C18: second derivatives."""
from hypothesis import strategies as st

from .. import gen, ref
from ..core import Sub, arr, check_close, check_true, reading
from ..env import mp, np
from .c16 import CLS, GRIDS, extras, optimizer, read_times

ASSUMPTIONS = [
    "second derivatives of the scaled polynomials with respect to the segment coordinate, compared to 1e-6 (1e-5 symbolic) relative to size times degree^4",
    "the relative form is the absolute one divided by its largest magnitude in the segment (all states, all controls); where that is round-off it decides nothing",
    "for the default grids the points are taken from the returned times (that these grids are right is C19)",
]


@st.composite
def strat(draw, tier="quick"):
    s = draw(gen.specs(maybe=("links", "midu", "path", "tc"), max_ph=3, depth=1, wild=draw(st.integers(0, 3)) == 0,
                       grid=gen.grids(max_seg=4, max_deg=7)))
    s = draw(extras(s))
    s["mode"] = draw(st.sampled_from(["own", "own", "default", "arg", "single", "single-own", "single-arg"]))
    return s


def check(s):
    single, mode = s["mode"].startswith("single"), s["mode"]
    rel = single and s["rel"]
    n, vs, sol = optimizer(dict(s, mode="default" if mode == "single" else mode))
    own = [gen.to_tau(s, q) for q in s["pts"]]
    if not single:
        kw = {"own": dict(nodes=own), "default": {}, "arg": dict(grid_type=s["gt"][0])}[mode]
        with reading("second derivatives"):
            ti, dx, du = n.mpo.get_state_second_derivative(sol, **kw)
        gt = ["spectral" if mode == "default" else s["gt"][0]] * s["nph"]
    else:
        out = []
        for ph in range(s["nph"]):
            kw = {"single": {}, "single-own": dict(nodes=own[ph]), "single-arg": dict(grid_type=s["gt"][0])}[mode]
            if rel:
                kw["residual_type"] = "relative"
            out.append(n.mpo.get_state_second_derivative_single_phase(sol, ph, **kw))
        with reading("second derivatives"):
            ti, dx, du = [list(q) for q in zip(*out)]
        gt = s["gt"] if mode == "single" else [s["gt"][0]] * s["nph"]
    with reading("second derivatives"):
        check_true(len(ti) == len(dx) == len(du) == s["nph"], "phases of the second derivatives")
        ti = [[[] if q is None else q for q in t] for t in ti]
    taus, _ = read_times(s, ti, vs)
    g = ref.Grid(s["scheme"], s["orders"], s["tau"])
    tol = 1e-6 if s["engine"] == "numerical" else 1e-5
    for ph in range(s["nph"]):
        want_taus = own[ph] if mode in ("own", "single-own") else n.mpo.get_residual_grid_taus(ph, gt[ph])
        for k in range(g.nseg):
            wt = arr(want_taus[k]).ravel()
            what = f"segment {k} of phase {ph}"
            check_true(len(wt) == len(taus[ph][k]), "number of points in " + what, got=len(taus[ph][k]), want=len(wt))
            check_close(taus[ph][k], wt, 1e-7, "times in " + what)
            if len(wt) == 0:
                check_true(dx[ph][k] is None or len(dx[ph][k]) == 0, "second derivatives without points")
                continue
            one = [wt if i == k else np.zeros(0) for i in range(g.nseg)]
            for name, got, V in (("states", dx, vs[ph]["X"]), ("controls", du, vs[ph]["U"])):
                want = g.dinterp(V, one, 2)
                with reading(name):
                    a = arr(got[ph][k])
                    check_true(a.size == want.size and a.shape[0] == len(wt), f"shape for {name} in {what}",
                               got=a.shape)
                    a = a.reshape(want.shape)
                if rel:
                    top = np.abs(want).max()
                    noise = np.abs(V).max() * s["orders"][k] ** 4 * (2 / g.dtau) ** 2
                    if top < 1e-3 * noise:
                        continue
                    check_close(a, want / top, tol * noise / top, f"relative second derivative of the {name} in {what}",
                                scale=1.0)
                    continue
                sc = np.maximum(np.abs(V).max(axis=0) * s["orders"][k] ** 4 * (2 / g.dtau) ** 2, 1e-300)
                check_close(a, want, tol, f"second derivative of the {name} in {what}",
                            scale=np.broadcast_to(sc, want.shape))


def check_interpolation(s):
    """Values and first derivatives at any points."""
    import matplotlib.pyplot as plt

    mode = s["mode"].split("-")[-1]
    mode = "default" if mode in ("single", "default") else mode
    n, vs, sol = optimizer(dict(s, mode=mode))
    g = ref.Grid(s["scheme"], s["orders"], s["tau"])
    tol = 1e-6 if s["engine"] == "numerical" else 1e-5
    for ph in range(s["nph"]):
        own = gen.to_tau(s, s["pts"][ph])
        kw = {"own": dict(target_nodes=own), "default": {}, "arg": dict(grid_type=s["gt"][0])}[mode]
        if s["rel"]:
            kw["options"] = {"plot": True}
        with reading("interpolated solution"):
            out = n.mpo.interpolate_single_phase(sol, ph, **kw)
            x, u, t, a, dx, du, taus, t0, tf = out
            x, u, t, dx, du = arr(x), arr(u), arr(t).ravel(), arr(dx), arr(du)
            taus = [arr(q).ravel() for q in taus]
        want = own if mode == "own" else n.mpo.get_residual_grid_taus(ph, s["gt"][ph] if mode == "default" else s["gt"][0])
        for k in range(g.nseg):
            check_close(taus[k], arr(want[k]).ravel(), 1e-12, f"points of segment {k} of phase {ph}")
        what = f"of phase {ph}"
        check_close(t, np.concatenate([gen.seg_times(s, ph, vs, k, q) for k, q in enumerate(taus)]), 1e-9, "times " + what)
        big = max(s["orders"]) ** 2 * 2 / g.dtau
        for name, v, d, V in (("states", x, dx, vs[ph]["X"]), ("controls", u, du, vs[ph]["U"])):
            check_close(v, g.interp(V, taus), tol, f"{name} {what}", scale=20 * max(1e-9, np.abs(V).max()))
            check_close(d, g.dinterp(V, taus), tol, f"derivatives of the {name} {what}",
                        scale=20 * big * max(1e-9, np.abs(V).max()))
        with reading("parameters and times of the interpolated solution"):
            a, t0, tf = arr(a).ravel(), float(arr(t0).ravel()[0]), float(arr(tf).ravel()[0])
        st_ = s["scale"]["t"]
        check_close(a, vs[ph]["A"], 1e-10, "parameters " + what, scale=max(1e-3, np.abs(a).max()) if a.size else 1.0)
        check_close([t0, tf], [vs[ph]["t0"] / st_, vs[ph]["tf"] / st_], 1e-10, "start and end time " + what, scale=1.0)
        if s["rel"]:
            check_true(len(plt.get_fignums()) > 0, "the requested plot of the interpolation is missing")
            plt.close("all")


SUBS = [
    Sub("interpolation", strat, check_interpolation, 300, 5000,
        "random solution vector; values and first derivatives of states and controls with the phase's times and parameters at "
        "own points, requested and default grid types; non-trivial: a segment of degree >= 2",
        lambda s: max(s["orders"]) >= 2, classify=lambda s: gen.spec_labels(s) + [s["cls"], s["mode"]]),
    Sub("second_derivatives", strat, check, 600, 9000,
        "random solution vector; own points per phase and segment, requested and default grid types, "
        "all phases or one at a time; non-trivial: a segment of degree >= 2",
        lambda s: max(s["orders"]) >= 2, classify=lambda s: gen.spec_labels(s) + [s["cls"], s["mode"]]),
]
