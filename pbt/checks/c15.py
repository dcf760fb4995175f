"""C15: interpolated results."""
from hypothesis import strategies as st

from .. import gen, ref
from ..core import Sub, arr, check_close, check_true, fail, reading
from ..env import ca, mp, np

ASSUMPTIONS = ["values compared to 1e-7 (degrees <= 8) relative to the size of the trajectory; the parameters returned with interpolated data of several phases may be stacked or one phase per column (the two retrieval functions differ)"]
CLS = {"fixed": "mpopt", "h": "mpopt_h_adaptive", "adaptive": "mpopt_adaptive"}


@st.composite
def strat(draw, tier="quick"):
    s = draw(gen.specs(maybe=("links", "midu", "path", "tc"), max_ph=3, depth=1, max_a=2,
                       grid=gen.grids(max_seg=4, max_deg=8, max_nodes=30)))
    s["cls"] = draw(st.sampled_from(["fixed", "fixed", "h", "adaptive"]))
    s["scaling"] = draw(st.booleans())
    s["order"] = draw(st.lists(st.integers(0, s["nph"] - 1), min_size=1, max_size=s["nph"] + 1))
    s["pts"] = gen.seg_points(draw, s["orders"], s["tau"], 0, 5)
    if not any(s["pts"]):
        s["pts"][0] = [0, 32, 64]
    s["per_seg"] = draw(st.sampled_from([None, 5, 12, 50]))
    return s


def value_at(s, g, V, ph, vs, t):
    """Value of the segments' polynomials at times t (columns of V)."""
    w = np.array(s["widths"][ph])
    t0, tf = vs[ph]["t0"] / s["scale"]["t"], vs[ph]["tf"] / s["scale"]["t"]
    c = np.concatenate([[0], np.cumsum(w)])
    y = (t - t0) / (tf - t0)
    k = np.clip(np.searchsorted(c, y, side="left") - 1, 0, len(w) - 1)
    out = np.zeros((len(t), V.shape[1]))
    for i, kk in enumerate(k):
        tau = g.tau[0] + g.dtau * (y[i] - c[kk]) / w[kk]
        out[i] = ref.interp_matrix(g.x[kk], [tau])[0] @ V[g.sl(kk)]
    return out


def unscaled(s, vs, ph):
    if s["scaling"]:
        return vs[ph]["X"], vs[ph]["U"]
    return vs[ph]["X"] / np.array(s["scale"]["x"]), vs[ph]["U"] / np.array(s["scale"]["u"])


def parameters(s, vs, order, got):
    """The parameters of the phases, stacked or one phase per column."""
    with reading("parameters with interpolated data"):
        got = arr(got)
        if got.ndim == 2 and got.shape == (s["na"], len(order)):
            got = got.T
        got = got.ravel()
    want = np.concatenate([vs[ph]["A"] / (1.0 if s["scaling"] else np.array(s["scale"]["a"])) for ph in order])
    check_true(got.shape == want.shape, "number of parameters with interpolated data", got=got.shape, want=want.shape)
    check_close(got, want, 1e-10, f"parameters of phases {order} with interpolated data",
                scale=max(1e-3, np.abs(want).max()) if want.size else 1.0)


def check(s):
    if s["per_seg"]:
        mp.post_process._INTERPOLATION_NODES_PER_SEG = s["per_seg"]
    n, vs, sol = gen.with_solution(s, getattr(mp, CLS[s["cls"]]))
    g = ref.Grid(s["scheme"], s["orders"], s["tau"])
    post = n.mpo.process_results(sol, plot=False, scaling=s["scaling"], residual_dx=False)
    tol = 1e-7
    single = {}
    for ph in range(s["nph"]):
        X, U = unscaled(s, vs, ph)
        sX, sU = np.abs(X).max() * 20, np.abs(U).max() * 20
        with reading("interpolated data"):
            x, u, t, a = post.get_data([ph], interpolate=True)
            x, u, t = arr(x), arr(u), arr(t).ravel()
        parameters(s, vs, [ph], a)
        check_true(x.shape == (len(t), s["nx"]) and u.shape == (len(t), s["nu"]),
                   "rows of states, controls and times", x=x.shape, u=u.shape, t=t.shape)
        t0, tf = vs[ph]["t0"] / s["scale"]["t"], vs[ph]["tf"] / s["scale"]["t"]
        check_close(t[[0, -1]], [t0, tf], 1e-9, "interpolated times do not cover the phase")
        check_true(np.all(np.diff(t) >= -1e-12 * max(1, abs(tf))), "interpolated times decrease", times=t)
        # every segment is resolved
        c = np.concatenate([[0], np.cumsum(s["widths"][ph])]) * (tf - t0) + t0
        h, _ = np.histogram(t, bins=c)
        check_true(np.all(h >= 1), "a segment has no interpolated point", per_segment=h)
        check_close(x, value_at(s, g, X, ph, vs, t), tol, f"interpolated states of phase {ph}", scale=sX)
        check_close(u, value_at(s, g, U, ph, vs, t), tol, f"interpolated controls of phase {ph}", scale=sU)
        single[ph] = (x, u, t)
        # own evaluation points
        taus = gen.to_tau(s, s["pts"])
        with reading("interpolated data at own points"):
            x, u, t, a = post.get_interpolated_data([ph], taus)
            x, u, t = arr(x), arr(u), arr(t).ravel()
        want_t = np.concatenate([gen.seg_times(s, ph, vs, k, q) for k, q in enumerate(taus)])
        check_close(t, want_t, 1e-9, "times of own evaluation points")
        check_close(x, g.interp(X, taus), tol, "states at own evaluation points", scale=sX)
        check_close(u, g.interp(U, taus), tol, "controls at own evaluation points", scale=sU)
    order = s["order"]
    with reading("interpolated data of several phases"):
        x, u, t, a = post.get_data(list(order), interpolate=True)
    parameters(s, vs, order, a)
    for name, got, i in (("states", x, 0), ("controls", u, 1), ("times", t, 2)):
        want = np.concatenate([single[ph][i] for ph in order])
        check_close(arr(got).reshape(want.shape) if arr(got).size == want.size else got, want, 1e-9,
                    f"{name} of phases {order}", scale=max(1.0, np.abs(want).max()))
    with reading("interpolated data of several phases at own points"):
        x, u, t, _ = post.get_interpolated_data(list(order), gen.to_tau(s, s["pts"]))
        x, t = arr(x), arr(t).ravel()
    taus = gen.to_tau(s, s["pts"])
    want_t = np.concatenate([gen.seg_times(s, ph, vs, k, q) for ph in order for k, q in enumerate(taus)])
    check_close(t, want_t, 1e-9, f"times of own points of phases {order}")
    want_x = np.concatenate([g.interp(unscaled(s, vs, ph)[0], taus) for ph in order])
    check_close(x, want_x, tol, f"states at own points of phases {order}", scale=20 * max(1e-3, np.abs(want_x).max()))


@st.composite
def grid_case(draw, tier="quick"):
    return dict(scheme=draw(st.sampled_from(gen.SCHEMES)), deg=draw(st.integers(1, 12)),
                n=draw(st.integers(2, 120)), tau=draw(st.sampled_from([[-1, 1], [0, 1]])))


def check_grid(c):
    gen.apply_settings(dict(tau=c["tau"]))
    x = ref.nodes(c["scheme"], c["deg"], c["tau"])
    post = mp.post_process({}, [], {"tau0": c["tau"][0], "tau1": c["tau"][1]})
    got = arr(post.get_interpolation_taus(n=c["n"], taus_orig=x, method="uniform")).ravel()
    check_close(got, np.linspace(*c["tau"], c["n"]), 1e-12, "uniform evaluation points")
    for got in (post.get_interpolation_taus(n=c["n"], taus_orig=x, method="other"),
                mp.post_process.get_non_uniform_interpolation_grid(x, c["n"])):
        got = arr(got).ravel()
        check_true(np.all(np.diff(got) > 0), "refined evaluation points do not increase")
        check_close(got[[0, -1]], list(c["tau"]), 1e-12, "refined evaluation points end at the interval")
        miss = [v for v in x if np.abs(got - v).min() > 1e-12]
        check_true(not miss, "refined evaluation points lose collocation nodes", missing=miss)
        # only mid points of neighbours were added
        step = (len(got) - 1) // (len(x) - 1)
        check_true((len(got) - 1) % (len(x) - 1) == 0, "refined evaluation points per interval", n=len(got))
        want = np.concatenate([np.linspace(p, q, step + 1)[:-1] for p, q in zip(x[:-1], x[1:])] + [[x[-1]]])
        check_close(got, want, 1e-9, "refined evaluation points are repeated mid points")


SUBS = [
    Sub("interpolation", strat, check, 500, 7000,
        "random solution vector; default and own evaluation points (64ths of a segment, segments "
        "without points), 1-3 phases in any order, unequal widths, scaling; each returned row "
        "against the segment polynomial at its time; non-trivial: some segment of degree >= 2",
        lambda s: max(s["orders"]) >= 2, classify=lambda s: gen.spec_labels(s) + [s["cls"]]),
    Sub("evaluation_points", lambda tier: grid_case(), check_grid, 200, 2000,
        "uniform and repeatedly halved evaluation grids of a degree; non-trivial: refinement needed",
        lambda c: c["n"] > c["deg"] + 1),
]
