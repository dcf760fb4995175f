"""C27: isolation of the user's objects and of optimizers from each other."""
import copy
import inspect

from hypothesis import strategies as st

from .. import gen, solvable
from ..core import Inconclusive, Sub, arr, check_close, check_true, fail, reading, _setting_slots
from ..env import ca, mp, np
from ..solvable import CLS
from .c25 import SETS, evaluate
from .c26 import snapshot, unchanged

ASSUMPTIONS = [
    "snapshots compare values, shapes and types of arrays, identity of functions, and keys and values of dictionaries",
    "class-level settings are fixed during a case (the user changes them only between optimizers)",
    "alternating optimizers: every optimizer alone runs the same operations; results compared to 1e-12",
]

# ----------------------------------------------------------------- snapshots
def freeze(v):
    """A comparable deep value of user data."""
    if isinstance(v, (ca.DM,)):
        return ("DM", v.shape, tuple(np.array(v.full()).ravel()))
    if isinstance(v, np.ndarray):
        if v.dtype == object:
            return ("oarr", v.shape, tuple(freeze(q) for q in v.ravel()))
        return ("arr", v.dtype.str, v.shape, v.tobytes())
    if isinstance(v, dict):
        return ("dict", tuple((k, freeze(q)) for k, q in v.items()))
    if isinstance(v, (list, tuple)):
        return (type(v).__name__, tuple(freeze(q) for q in v))
    if callable(v):
        return ("fn", id(v))
    return v


def defaults():
    """Default arguments of all functions and the user's class-level settings."""
    out = {}
    for name, c in inspect.getmembers(mp, inspect.isclass):
        if c.__module__ != mp.__name__:
            continue
        for k, f in vars(c).items():
            f = getattr(f, "__func__", f)
            if inspect.isfunction(f):
                out[f"{name}.{k}()"] = freeze([f.__defaults__, f.__kwdefaults__])
    for name, f in inspect.getmembers(mp, inspect.isfunction):
        out[f"{name}()"] = freeze([f.__defaults__, f.__kwdefaults__])
    for c, k in _setting_slots():
        out[f"{c.__name__}.{k}"] = freeze(getattr(c, k, None))
    return out


class Guard:
    """Named user objects that must stay as they are."""

    def __init__(self):
        self.items = {}
        self.defaults = defaults()

    def add(self, name, v):
        self.items[name] = (v, freeze(v))
        return v

    def check(self, after):
        for name, (v, f) in self.items.items():
            check_true(freeze(v) == f, f"{after} changed {name}")
        d = defaults()
        for k in sorted(set(d) | set(self.defaults)):
            check_true(d.get(k) == self.defaults.get(k), f"{after} changed the default or class attribute {k}")


@st.composite
def snap_strat(draw, tier="quick"):
    s = draw(solvable.problems(max_ph=2, max_x=3, params=True, grid=gen.grids(max_seg=3, max_deg=4, max_nodes=9)))
    s["engine"] = draw(st.sampled_from(["numerical", "numerical", "symbolic"]))
    s["cls"] = draw(st.sampled_from(["fixed", "h", "h", "adaptive"]))
    acts = ["process", "process_plot", "dx", "dx_rel", "x", "second", "solve", "solve_opts", "solve_m", "data", "resid_plot",
            "plot_phases", "plot_x", "taus", "start", "interp", "create"]
    s["opts"] = draw(st.sampled_from(["all", "some", "none", "none"]))
    if s["cls"] == "adaptive" and s["opts"] == "none":
        s["opts"] = "some"  # keep the iteration limit
    s["acts"] = draw(st.lists(st.sampled_from(acts + ["solve_m"]), min_size=2, max_size=6))
    s["mw"] = [draw(gen.widths(len(s["orders"]), s["nph"])) for _ in range(sum(a == "solve_m" for a in s["acts"]))]
    return s


def user_ocp(s):
    return gen.build_ocp(s)


def check_snap(s):
    gen.apply_settings(s)
    g = Guard()
    o = user_ocp(s)
    snap = snapshot(o)
    orders = g.add("the list of polynomial degrees", list(s["orders"]))
    mpo = getattr(mp, CLS[s["cls"]])(o, len(orders), orders, s["scheme"])

    def look(after):
        unchanged(o, snap, after)
        g.check(after)
    look("construction")
    opts = {k: v for i, (k, v) in enumerate(solvable.OPTS.items())
            if s["opts"] == "all" or (s["opts"] == "some" and i % 2 == 0)}
    opts = g.add("the solver options", opts)
    kw = {"max_iter": 2} if s["cls"] == "h" else {}
    if s["cls"] == "h":
        mpo.tol_residual = g.add("the residual tolerances", [1e-3] * s["nph"])
    sol = mpo.solve(nlp_solver_options=opts, **kw)
    look("solve")
    g.add("the returned solution", sol)
    mw, posts = [sum(q, []) for q in s["mw"]], []

    def keep(post):
        posts.append((post, [arr(q) for i in (False, True) for q in post.get_data(list(range(s["nph"])), interpolate=i)]))
    n = 0
    for a in s["acts"]:
        # an adaptive solve that did not finish leaves no valid widths
        w = arr(mpo._nlp_sw_params).reshape(s["nph"], -1)
        ok = np.abs(w.sum(axis=1) - 1).max() < 1e-7 and w.min() > 0
        if not ok and a not in ("solve", "solve_opts", "create"):
            continue
        n += 1
        nodes = [[np.linspace(mpo.tau0, mpo.tau1, 3)[:-1] for _ in orders] for _ in range(s["nph"])]
        g.add(f"the list of nodes {n}", nodes)
        phs = g.add(f"the list of phases {n}", list(range(s["nph"])))
        if a in ("process", "process_plot", "data", "plot_phases", "plot_x"):
            post = mpo.process_results(sol, plot=a == "process_plot", residual_x=a == "process_plot")
            look(a)
            keep(post)
            if a == "data":
                post.get_data(phs)
                post.get_data(phs, interpolate=True)
                post.get_original_data(phs)
            elif a == "plot_phases":
                post.plot_phases(phs)
                post.plot_phases(phs, residuals=False)
            elif a == "plot_x":
                dims = g.add(f"the list of components {n}", [[0], [s["nx"] - 1]])
                post.plot_x(dims)
                post.plot_u(g.add(f"the control components {n}", [[0], [0]]))
        elif a == "dx":
            mpo.get_dynamics_residuals(sol, nodes=nodes)
        elif a == "dx_rel":
            mpo.get_dynamics_residuals(sol, nodes=nodes, residual_type="relative")
        elif a == "x":
            mpo.get_states_residuals(sol, phases=phs, nodes=nodes)
        elif a == "resid_plot":
            mpo.get_states_residuals(sol, plot=True)
            mpo.get_dynamics_residuals(sol, plot=True)
        elif a == "second":
            mpo.get_state_second_derivative(sol, nodes=nodes)
        elif a == "taus":
            v = g.add(f"the points {n}", np.linspace(mpo.tau0, mpo.tau1, 7))
            mpo.compute_interpolation_taus_corresponding_to_original_grid(
                v, g.add(f"the widths {n}", list(w[0])), mpo.tau0, mpo.tau1)
        elif a == "interp":
            mpo.interpolate_single_phase(sol, 0, target_nodes=nodes[0])
        elif a == "create":
            mpo.create_solver(options=opts)
        elif a == "start":
            guess = g.add(f"the initial guess {n}", {"x": arr(sol["x"]).ravel() * 0.9, "note": [1, 2]})
            mpo.solve(initial_solution=guess, **kw)
        elif a == "solve":
            again = mpo.solve(initial_solution=sol, **kw)
            if again is not sol:
                g.add(f"a later solution {n}", again)
        elif a == "solve_opts":
            mpo.solve(reinitialize_nlp=True, nlp_solver_options=opts,
                      mpopt_options=g.add(f"the optimizer options {n}", {}), **kw)
        elif a == "solve_m":
            m = {"fixed": {"nlp_sw_params": mw.pop()}, "adaptive": {"any": 1},
                 "h": {"method": "residual", "sub_method": "merge_split"}}[s["cls"]]
            mpo.solve(mpopt_options=g.add(f"the optimizer options {n}", m), **kw)
            if s["cls"] == "fixed":
                keep(mpo.process_results(sol, plot=False, residual_dx=False))
        look(a)
    for post, want in posts:
        got = [arr(q) for i in (False, True) for q in post.get_data(list(range(s["nph"])), interpolate=i)]
        for a, b in zip(got, want):
            check_true(np.array_equal(a, b, equal_nan=True), "data of an earlier post-processor changed")


# ------------------------------------------------------------- later changes
@st.composite
def later_strat(draw, tier="quick"):
    s = draw(gen.specs(maybe=("run", "term", "path", "tc", "links", "midu", "diff_u", "duc"), max_ph=3, depth=2,
                       grid=gen.grids(max_seg=3, max_deg=4)))
    s["cls"] = draw(st.sampled_from(["fixed", "h", "adaptive"]))
    s["when"] = draw(st.sampled_from(["before", "after"]))
    s["how"] = draw(st.sampled_from(["inplace", "replace", "functions"]))
    return s


def spoil(o, how, nph):
    for k, v in list(vars(o).items()):
        if isinstance(v, np.ndarray):
            if how == "inplace" and v.size:
                v.flat[:] = 7
            elif how == "replace":
                setattr(o, k, np.full(v.shape, 3.0))
        elif isinstance(v, list) and v and callable(v[0]):
            if how == "functions":
                for i in range(nph):
                    v[i] = lambda *a: [1.0] * 9
    o.phase_links = [] if how == "replace" else o.phase_links
    if how == "inplace" and isinstance(o.phase_links, list):
        o.phase_links.clear()
    if how != "functions":
        o.scale_t = 17.0


def numbers(n, s):
    vs = gen.random_point(s)
    f, g = n.eval(vs, s["widths"])
    return [np.array([f]), g, n.lbx, n.ubx, n.lbg, n.ubg, arr(n.mpo.initialize_solution()).ravel()]


def check_later(s):
    cls = getattr(mp, CLS[s["cls"]])
    want = numbers(gen.Nlp(s, cls), s)
    o = gen.build_ocp(s)
    mpo = gen.make(s, cls, ocp=o)
    if s["when"] == "after":
        mpo.create_nlp()
    spoil(o, s["how"], s["nph"])
    got = numbers(gen.Nlp(s, mpo=mpo), s)
    for a, b, k in zip(got, want, ["objective", "constraints", "lower bounds", "upper bounds", "lower constraint bounds",
                                   "upper constraint bounds", "initial guess"]):
        check_true(a.shape == b.shape and np.array_equal(a, b), f"a change of the user's problem affects the {k} of the optimizer")


# ---------------------------------------------------------------- alternating
@st.composite
def alt_strat(draw, tier="quick"):
    n = draw(st.integers(2, 3))
    probs = []
    for i in range(n):
        p = draw(solvable.problems(max_ph=2, max_x=2, params=True, grid=gen.grids(max_seg=3, max_deg=4, max_nodes=9)))
        p["cls"] = draw(st.sampled_from(["fixed", "h", "adaptive"]))
        p["tau"], p["engine"] = probs[0]["tau"] if probs else p["tau"], "numerical"
        probs.append(p)
    acts = ["solve", "solve", "warm", "process", "dx", "x", "second", "data", "build", "create", "default_opts"]
    seq = draw(st.lists(st.tuples(st.integers(0, n - 1), st.sampled_from(acts)).map(list), min_size=3, max_size=8))
    # each optimizer solves at least once
    seq = [[i, "solve"] for i in range(n)] + seq
    return dict(probs=probs, seq=seq, shared=draw(st.booleans()))


class Run:
    def __init__(self, p, ocp=None):
        self.p = p
        self.mpo = gen.make(p, getattr(mp, CLS[p["cls"]]), ocp=ocp)
        if p["cls"] == "h":
            self.mpo.tol_residual = [1e-2] * p["nph"]
        self.sol, self.out = None, []

    def act(self, a):
        p, m = self.p, self.mpo
        kw = {"max_iter": 2} if p["cls"] == "h" else {}
        if a in ("solve", "warm", "default_opts"):
            start = self.sol if a == "warm" else None
            if a != "default_opts":
                kw["nlp_solver_options"] = dict(solvable.OPTS)
            self.sol = m.solve(initial_solution=start, reinitialize_nlp=a == "default_opts", **kw)
            self.out.append([arr(self.sol[k]).ravel() for k in ("x", "f", "lam_x")] + [arr(m._nlp_sw_params).ravel()])
        elif a == "build":
            prob, b = m.create_nlp()
            self.out.append([np.array(b[k], float).ravel() for k in ("lbx", "ubx", "lbg", "ubg")])
        elif a == "create":
            m.create_solver(options=dict(solvable.OPTS))
        else:
            w = arr(m._nlp_sw_params).reshape(p["nph"], -1)
            if np.abs(w.sum(axis=1) - 1).max() > 1e-7 or w.min() <= 0:
                return
            self.out.append(evaluate(m, self.sol, a))


def check_alt(s):
    probs = s["probs"]
    alone = []
    for i, p in enumerate(probs):
        r = Run(p)
        for j, a in s["seq"]:
            if j == i:
                r.act(a)
        alone.append(r.out)
    if s["shared"]:
        # two optimizers of the same problem object and the same options
        o = gen.build_ocp(probs[0])
        twins = [Run(probs[0], ocp=o), Run(probs[0], ocp=o)]
        for j, a in s["seq"]:
            if j == 0:
                for t in twins:
                    t.act(a)
        runs, want = twins, [alone[0], alone[0]]
    else:
        runs, want = [Run(p) for p in probs], alone
        for j, a in s["seq"]:
            runs[j].act(a)
    for i, (r, w) in enumerate(zip(runs, want)):
        check_true(len(r.out) == len(w), "number of results", got=len(r.out), want=len(w))
        for one, two in zip(r.out, w):
            check_true(len(one) == len(two), f"results of optimizer {i} differ when used alternately with others")
            for a, b in zip(one, two):
                if a.shape == b.shape and not np.all(np.isfinite(a)):
                    check_true(np.array_equal(a, b, equal_nan=True), f"results of optimizer {i} differ when used alternately")
                    continue
                check_close(a, b, 1e-12, f"results of optimizer {i} differ when used alternately with others", scale=1.0)


SUBS = [
    Sub("snapshots", snap_strat, check_snap, 130, 2000,
        "construct, solve and random sequences of solves, evaluations and plots; user problem, guesses, options, node "
        "lists, returned solutions, defaults and class attributes compared after each; non-trivial: all",
        classify=lambda s: [s["cls"]] + sorted(set(s["acts"]))),
    Sub("later_changes", later_strat, check_later, 200, 4000,
        "the user's problem is overwritten in place, replaced or given other functions before or after the program is "
        "built; non-trivial: all", classify=lambda s: [s["cls"], s["when"], s["how"]]),
    Sub("alternating", alt_strat, check_alt, 60, 1000,
        "two or three optimizers of different problems (or two of the same object) used alternately; non-trivial: all",
        classify=lambda s: sorted({p["cls"] for p in s["probs"]}) + [f"shared={s['shared']}"]),
]
