"""C28: plots show the data of the solution."""
import functools
import re

from hypothesis import strategies as st

from .. import gen, solvable
from ..core import Sub, arr, check_close, check_true, fail, reading
from ..env import mp, np

ASSUMPTIONS = [
    "a plot is the lines of its axes; styles and titles are not looked at; legend entries only where they carry a number, which has to identify the component",
    "the data behind the plots (trajectories, interpolation, residuals) is pinned by C14-C18; here it is taken from get_data and the residual functions",
    "a curve may be drawn more than once (original points and interpolated line)",
]
CLS = {"fixed": "mpopt", "h": "mpopt_h_adaptive", "adaptive": "mpopt_adaptive"}


def lines_of(ax):
    with reading("axis of a plot"):
        return [(np.asarray(l.get_xdata(), float).ravel(), np.asarray(l.get_ydata(), float).ravel())
                for l in ax.get_lines()]


def same(a, b):
    return all(p.shape == q.shape and np.all(np.abs(p - q) <= 1e-9 * max(1e-9, np.abs(q).max() if q.size else 0))
               for p, q in zip(a, b))


def columns(t, X):
    t, X = arr(t).ravel(), arr(X)
    check_true(X.ndim == 2 and len(X) == len(t), "rows of data and times", data=X.shape, times=t.shape)
    return [(t, X[:, i]) for i in range(X.shape[1])]


def shows(ax, want, what):
    """The axis shows the wanted curves, each at least once and nothing else."""
    have = lines_of(ax)
    for i, w in enumerate(want):
        check_true(any(same(h, w) for h in have), f"{what}: curve {i} is not shown", have=len(have), want=len(want))
    for h in have:
        check_true(any(same(h, w) for w in want), f"{what}: shows a curve that is no part of the data",
                   first=[q[:3] for q in h], points=len(h[0]), want_points=[len(w[0]) for w in want])


def axes_list(axs, n, what):
    with reading(f"axes of {what}"):
        out = list(np.ravel(np.array(axs, dtype=object)))
        check_true(len(out) == n, f"{what}: number of axes", got=len(out), want=n)
        for a in out:
            a.get_lines()
    check_true(len(set(map(id, out))) == n, f"{what}: axes coincide")
    return out


def labels(axs, wants, what):
    """Numbers in the legend identify the components, counted from the same
    number in the whole plot. wants: per axis a list of (component, curve)."""
    ok = None
    for ax, want in zip(axs, wants):
        with reading(f"labels of {what}"):
            ls = [(str(l.get_label()), (np.asarray(l.get_xdata(), float).ravel(), np.asarray(l.get_ydata(), float).ravel()))
                  for l in ax.get_lines()]
        for name, xy in ls:
            m = re.search(r"(\d+)\s*$", name)
            if name.startswith("_") or not m:
                continue
            can = {int(m.group(1)) - i for i, w in want if same(xy, w)}
            ok = can if ok is None else ok & can
            check_true(ok, f"{what}: the number of a legend entry is not the component it shows", label=name,
                       components=[i for i, w in want if same(xy, w)])


def arranged(axs, axis, what):
    """Panels below each other (axis 1) or side by side (axis 0)."""
    with reading(f"positions of {what}"):
        pos = [a.get_position() for a in axs]
        along = [p.y0 if axis else p.x0 for p in pos]
        across = [p.x0 if axis else p.y0 for p in pos]
    check_true(np.ptp(across) < 1e-6 and (len(along) < 2 or np.diff(sorted(along)).min() > 1e-6),
               f"{what}: panels are not stacked {'vertically' if axis else 'horizontally'}", along=along, across=across)


def figure(fig, axs, what):
    with reading(f"figure of {what}"):
        for a in axs:
            check_true(a.figure is fig, f"{what}: the axes belong to another figure")


def norms(ti, res, phases):
    """Norm over the components, point by point, of the phases."""
    t, r = [], []
    for ph in phases:
        for ts, rs in zip(ti[ph], res[ph]):
            if rs is None or len(rs) == 0:
                continue
            a = arr(rs).reshape(len(rs), -1)
            t += list(arr(ts).ravel())
            r += [np.sqrt(np.sum(q ** 2)) for q in a]
    return [(np.array(t), np.array(r))]


def comps(t_res, phases):
    ti, res = t_res
    t, r = [], []
    for ph in phases:
        for ts, rs in zip(ti[ph], res[ph]):
            if rs is None or len(rs) == 0:
                continue
            t.append(arr(ts).ravel())
            r.append(arr(rs).reshape(len(rs), -1))
    return columns(np.concatenate(t), np.concatenate(r))


@st.composite
def dims_strat(draw, n):
    kind = draw(st.sampled_from([None, "flat", "nested"]))
    if kind is None:
        return None
    one = st.lists(st.integers(0, n - 1), min_size=1, max_size=min(n, 3), unique=True)
    if kind == "flat":
        return draw(one)
    return draw(st.lists(one, min_size=1, max_size=3))


def dim_groups(dims, n):
    if dims is None:
        return [list(range(n))]
    return dims if isinstance(dims[0], list) else [dims]


@st.composite
def strat(draw, tier="quick"):
    many = draw(st.integers(0, 15)) == 0
    if many:
        s = draw(gen.specs(maybe=("links",), max_ph=1, depth=0, max_x=1, max_u=1,
                           grid=gen.grids(max_seg=2, max_deg=2)))
        # as many states and controls as a user likes
        nx, nu = draw(st.integers(12, 20)), draw(st.integers(12, 20))
        s = widen(s, nx, nu)
    else:
        s = draw(gen.specs(maybe=("links", "midu", "path", "tc"), max_ph=3, depth=1, max_a=2,
                           grid=gen.grids(max_seg=4, max_deg=5, max_nodes=14)))
    s["cls"] = draw(st.sampled_from(["fixed", "fixed", "h", "adaptive"]))
    s["scaling"] = draw(st.booleans())
    s["gt"] = [draw(st.sampled_from(["fixed", "mid-points", "spectral"])) for _ in range(s["nph"])]
    s["n_grid"] = draw(st.sampled_from([1, 2, 4, 7]))
    s["rx"], s["rdx"] = draw(st.booleans()), draw(st.booleans())
    phs = st.lists(st.integers(0, s["nph"] - 1), min_size=1, max_size=s["nph"] + 1)
    s["plot_list"] = draw(st.one_of(st.none(), st.lists(phs, min_size=1, max_size=3)))
    acts = []
    for _ in range(draw(st.integers(2, 4))):
        k = draw(st.sampled_from(["phases", "phases", "phase", "x", "u", "single", "residuals", "process"]))
        a = dict(k=k, phases=draw(st.one_of(st.none(), phs)), interp=draw(st.booleans()), axis=draw(st.integers(0, 1)),
                 res=draw(st.booleans()), again=draw(st.booleans()), ph=draw(st.integers(0, s["nph"] - 1)),
                 dims=draw(dims_strat(s["nu"] if k == "u" else s["nx"])))
        a["tics"] = draw(st.sampled_from(["default", "default", None, ["."], ["-", "--", "."]]))
        acts.append(a)
    s["acts"] = acts
    s["per_seg"] = draw(st.sampled_from([None, 5, 12]))
    return s


def widen(s, nx, nu):
    P = s["phases"][0]
    d0 = P["dyn"][0]
    P["dyn"] = [d0] * nx
    s["nx"], s["nu"] = nx, nu
    for k, n in (("x", nx), ("u", nu)):
        for q in (f"{k}00", f"{k}f0", f"lb{k}", f"ub{k}"):
            P[q] = [P[q][0]] * n
        s["scale"][k] = [s["scale"][k][0]] * n
    for k in ("lbe", "ube"):
        s[k] = [[v[0]] * nx for v in s[k]]
    return s


def check(s):
    import matplotlib.pyplot as plt

    if s["per_seg"]:
        mp.post_process._INTERPOLATION_NODES_PER_SEG = s["per_seg"]
    mp.mpopt._MAX_GRID_POINTS = s["n_grid"]
    ocp = gen.build_ocp(s)
    if s["plot_list"] is not None:
        ocp.phases_to_plot = [list(q) for q in s["plot_list"]]
    n, vs, sol = gen.with_solution(s, getattr(mp, CLS[s["cls"]]), ocp=ocp)
    mpo = n.mpo
    mpo._MAX_GRID_POINTS = s["n_grid"]
    mpo.grid_type = list(s["gt"])
    default = s["plot_list"][0] if s["plot_list"] is not None else list(range(s["nph"]))
    rk = dict(residual_x=s["rx"], residual_dx=s["rdx"])
    post = mpo.process_results(sol, plot=False, scaling=s["scaling"], **rk)
    want_res = {}
    if s["rx"]:
        q = mpo.get_states_residuals(sol)
        want_res["t_x"] = [q[2], q[3]]
    if s["rdx"]:
        want_res["t_dx"] = list(mpo.get_dynamics_residuals(sol))

    def data(phases, interp, i):
        q = post.get_data(list(phases), interpolate=interp)
        return columns(q[2], q[i])

    def both(phases, interp, i):
        return data(phases, False, i) + (data(phases, True, i) if interp else [])

    def panels(axs, phases, interp, res, what):
        keys = [k for k in ("t_x", "t_dx") if k in want_res] if res else []
        axs = axes_list(axs, 2 + len(keys), what)
        shows(axs[0], both(phases, interp, 0), f"{what}: states")
        shows(axs[1], both(phases, interp, 1), f"{what}: controls")
        for i, q in enumerate(("nx", "nu")):
            labels([axs[i]], [[(j % s[q], w) for j, w in enumerate(both(phases, interp, i))]], what)
        for ax, k in zip(axs[2:], keys):
            shows(ax, comps(want_res[k], phases), f"{what}: residuals {k}")
        return axs

    for a in s["acts"]:
        k, phases, interp = a["k"], a["phases"], a["interp"]
        ph = phases if phases is not None else default
        kw = {} if phases is None else {"phases": list(phases)}
        what = f"{k} {phases} interpolate={interp}"
        if k == "phases":
            # residuals of phases without any residual point are no data
            with reading(what):
                fig, axs = post.plot_phases(interpolate=interp, residuals=a["res"], **kw)
            figure(fig, panels(axs, ph, interp, a["res"], what), what)
            if a["again"]:
                f0, ax0 = plt.subplots(2, 1)
                f1, ax1 = post.plot_phases(interpolate=interp, residuals=False, fig=f0, axs=ax0, **kw)
                check_true(f1 is f0, f"{what}: another figure than the given one")
                panels(ax0, ph, interp, False, what + " on given axes")
                _, ax0 = plt.subplots(2, 1)
                with reading(what + " on given axes"):
                    post.plot_phases(interpolate=interp, residuals=False, axs=ax0, **kw)
                panels(ax0, ph, interp, False, what + " on given axes alone")
        elif k == "phase":
            with reading(what):
                fig, axs = post.plot_phase(a["ph"], interp)
            figure(fig, panels(axs, [a["ph"]], interp, True, what), what)
            if a["again"] and not want_res:
                f0, ax0 = plt.subplots(2, 1)
                with reading(what + " on given axes"):
                    f1, _ = post.plot_phase(a["ph"], interp, fig=f0, axs=ax0)
                check_true(f1 is f0, f"{what}: another figure than the given one")
                panels(ax0, [a["ph"]], interp, False, what + " on given axes")
        elif k in ("x", "u", "single"):
            dims = a["dims"]
            groups = dim_groups(dims, s["nu"] if k == "u" else s["nx"])
            if k == "single":
                i, c = 0, data(ph, interp, 0)
                q = post.get_data(list(ph), interpolate=interp)
                if dims is None:
                    dims = groups[0]

                def draw(**kk):
                    return post.plot_single_variable(q[0], q[2], dims, axis=a["axis"], **kk)
            else:
                c = data(ph, interp, 0) if k == "x" else both(ph, interp, 1)

                def draw(**kk):
                    d = {} if dims is None else {"dims": dims}
                    return (post.plot_x if k == "x" else post.plot_u)(axis=a["axis"], interpolate=interp, **d, **kw, **kk)
            if a["tics"] != "default":
                draw = functools.partial(draw, tics=a["tics"])
            nn = s["nu"] if k == "u" else s["nx"]
            what += f" dims={dims} axis={a['axis']}"
            with reading(what):
                fig, axs = draw()
            ax = axes_list(axs, len(groups), what)
            figure(fig, ax, what)

            arranged(ax, a["axis"], what)

            def right(ax):
                labels(ax, [[(d, c[m * nn + d]) for m in range(len(c) // nn) for d in gr] for gr in groups], what)
                for j, (q, gr) in enumerate(zip(ax, groups)):
                    shows(q, [c[m * nn + d] for m in range(len(c) // nn) for d in gr], f"{what}: axis {j}")
            right(ax)
            if a["again"]:
                f0, ax0 = plt.subplots(len(groups), 1)
                f1, ax1 = draw(fig=f0, axs=ax0)
                check_true(f1 is f0, f"{what}: another figure than the given one")
                right(axes_list(ax0, len(groups), what))
                # the axes alone are enough
                _, ax0 = plt.subplots(len(groups), 1)
                with reading(what + " on given axes"):
                    draw(axs=ax0)
                right(axes_list(ax0, len(groups), what + " on given axes"))
        elif k == "residuals":
            for key, (ti, res) in want_res.items():
                if not any(len(arr(q).ravel()) for p in ph for q in ti[p] if q is not None):
                    continue
                pk = {"phases": list(phases)} if phases is not None else {"phases": list(range(s["nph"]))}
                with reading(what):
                    fig, axs = mp.post_process.plot_residuals(ti, res, **pk)
                (ax,) = axes_list(axs, 1, what)
                figure(fig, [ax], what)
                shows(ax, norms(ti, res, pk["phases"]), f"{what} {key}")
        elif k == "process":
            plt.close("all")
            mpo.process_results(sol, plot=True, scaling=s["scaling"], **rk)
            figs = [plt.figure(i) for i in plt.get_fignums()]
            lists = s["plot_list"] if s["plot_list"] is not None else [list(range(s["nph"]))]
            check_true(len(figs) == len(lists), "number of figures", got=len(figs), want=len(lists))
            for f, q in zip(figs, lists):
                panels(f.axes, q, True, True, f"processing with plots: phases {q}")
        plt.close("all")


# ------------------------------------------------- residual plots, own points
@st.composite
def ragged_strat(draw, tier="quick"):
    s = draw(gen.specs(maybe=("links", "midu"), max_ph=3, depth=1, max_a=1, max_x=3,
                       grid=gen.grids(max_seg=4, max_deg=4)))
    s["cls"] = draw(st.sampled_from(["fixed", "h", "adaptive"]))
    s["pts"] = []
    for _ in range(s["nph"]):
        q = gen.seg_points(draw, s["orders"], s["tau"], 0, 4)
        if not any(q):
            q[draw(st.integers(0, len(q) - 1))] = [16, 48]
        s["pts"].append(q)
    s["rel"] = draw(st.booleans())
    s["order"] = draw(st.lists(st.integers(0, s["nph"] - 1), min_size=1, max_size=s["nph"] + 1))
    s["kind"] = draw(st.sampled_from(["dx", "x", "second"]))
    s["given"] = draw(st.booleans())
    s["name"] = draw(st.sampled_from([None, "error"]))
    return s


def check_ragged(s):
    import matplotlib.pyplot as plt

    n, vs, sol = gen.with_solution(s, getattr(mp, CLS[s["cls"]]))
    mpo = n.mpo
    nodes = [gen.to_tau(s, q) for q in s["pts"]]
    rel = dict(residual_type="relative") if s["rel"] else {}
    f0, ax0 = plt.subplots(1, 1) if s["given"] else (None, None)
    plt.close("all") if not s["given"] else None
    with reading("residual plot"):
        if s["kind"] == "dx":
            ti, res = mpo.get_dynamics_residuals(sol, nodes=nodes, plot=True, fig=f0, axs=ax0, **rel)
        elif s["kind"] == "x":
            _, _, ti, res = mpo.get_states_residuals(sol, nodes=nodes, plot=True, fig=f0, axs=ax0, **rel)
        else:
            ti, res, _ = mpo.get_state_second_derivative(sol, nodes=nodes, plot=True, fig=f0, axs=ax0)
        figs = plt.get_fignums()
        check_true(len(figs) == 1, "number of figures", got=len(figs))
        axs = plt.figure(figs[0]).axes
    (ax,) = axes_list(axs, 1, "residual plot")
    shows(ax, norms(ti, res, range(s["nph"])), f"plot of {s['kind']} at own points")
    with reading("residual plot of some phases"):
        fig, axs = mp.post_process.plot_residuals(ti, res, phases=s["order"], name=s["name"])
        (ax,) = axes_list(axs, 1, "residual plot of some phases")
    shows(ax, norms(ti, res, s["order"]), f"plot of {s['kind']} of phases {s['order']}")
    with reading("sorted residual data"):
        r, t = mp.post_process.sort_residual_data(ti, res, phases=s["order"])
        r, t = arr(r).ravel(), arr(t).ravel()
    (tw, rw), = norms(ti, res, s["order"])
    check_close(t, tw, 1e-12, "sorted times", scale=1.0)
    check_close(r, rw, 1e-9, "sorted residual norms", scale=max(1e-9, np.abs(rw).max()))


# ---------------------------------------------- evolution of the residuals
@st.composite
def evo_strat(draw, tier="quick"):
    s = draw(solvable.problems(max_ph=3, max_x=3, stiff=draw(st.booleans()), params=True,
                               grid=gen.grids(max_seg=4, max_deg=4, max_nodes=12)))
    s["engine"] = "numerical"
    s["max_iter"] = draw(st.integers(1, 4))
    s["method"] = draw(st.sampled_from(["merge_split", "equal_area", "control_slope"]))
    s["tol"] = draw(st.sampled_from([1e-1, 1e-3, 1e-9]))
    s["gt"] = draw(st.sampled_from(["fixed", "mid-points", "spectral"]))
    s["plot_list"] = draw(st.sampled_from([None, [[0]], [[s["nph"] - 1]], [[s["nph"] - 1, 0]], [[s["nph"] - 1, 0], [0]]]))
    return s


def check_evo(s):
    """The h-adaptive solve shows the residuals of every iteration."""
    runs = []
    for evo in (True, False):
        ocp = gen.build_ocp(s)
        if s["plot_list"] is not None:
            ocp.phases_to_plot = [list(q) for q in s["plot_list"]]
        gen.apply_settings(s)
        mpo = mp.mpopt_h_adaptive(ocp, len(s["orders"]), list(s["orders"]), s["scheme"])
        spy = solvable.spy(mpo)
        mpo.plot_residual_evolution = evo
        mpo.tol_residual = [s["tol"]] * s["nph"]
        mpo.grid_type = [s["gt"]] * s["nph"]
        opt = {"method": "control_slope"} if s["method"] == "control_slope" else {"method": "residual", "sub_method": s["method"]}
        sol = mpo.solve(max_iter=s["max_iter"], mpopt_options=opt)
        runs.append((mpo, spy, sol))
    (mpo, spy, sol), (m2, spy2, sol2) = runs
    check_true(len(spy.calls) == len(spy2.calls), "plotting the residuals changes the number of iterations")
    check_close(arr(sol["x"]), arr(sol2["x"]), 1e-12, "plotting the residuals changes the solution", scale=1.0)
    if len(s["orders"]) == 1:
        return
    (ax,) = axes_list(mpo.axs, 1, "evolution of the residuals")
    figure(mpo.fig, [ax], "evolution of the residuals")
    phases = s["plot_list"][0] if s["plot_list"] is not None else list(range(s["nph"]))
    want = []
    for c in spy.calls:
        m2._nlp_sw_params = list(arr(c["kw"]["p"]).ravel())
        ti, res = m2.get_dynamics_residuals(c["sol"])
        want += norms(ti, res, phases)
    have = lines_of(ax)
    for i, q in enumerate(want):
        check_true(any(near(h, q) for h in have), f"residuals of iteration {i + 1} are not shown", curves=len(have))
    for h in have:
        check_true(any(near(h, q) for q in want), "a curve is not the residual of an iteration", points=len(h[0]))


def near(a, b):
    return all(p.shape == q.shape and np.allclose(p, q, rtol=1e-6, atol=1e-9) for p, q in zip(a, b))


def interesting(s):
    return s["nph"] > 1 or len(s["orders"]) > 1 or s["nx"] > 1


SUBS = [
    Sub("plots", strat, check, 240, 3000,
        "random solutions (1-3 phases, 1-20 states and controls, any phase lists, component selections, interpolation "
        "and residual switches, given or new axes, all optimizers); every line of every axis is compared with the "
        "retrieved data; non-trivial: several phases, segments or states", interesting,
        classify=lambda s: gen.spec_labels(s) + sorted({f"plot={a['k']}" for a in s["acts"]})
        + [f"residuals x={s['rx']} dx={s['rdx']}"]),
    Sub("residuals", ragged_strat, check_ragged, 240, 3000,
        "residuals of both kinds and second derivatives at own points, segments without points, different numbers of "
        "points; non-trivial: several phases, segments or states", interesting,
        classify=lambda s: gen.spec_labels(s) + [s["kind"], "given axes" if s["given"] else "new axes"]),
    Sub("evolution", evo_strat, check_evo, 60, 800,
        "h-adaptive solves of small problems with the residual plot switched on: the curves are the residual norms of "
        "the iterations' solutions, and the solve is not affected; non-trivial: several segments",
        lambda s: len(s["orders"]) > 1, classify=lambda s: gen.spec_labels(s) + [s["method"]]),
]
