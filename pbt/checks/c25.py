"""C25: histories of solves, warm starts, evaluations and reinitializations."""
import copy

from hypothesis import strategies as st

from .. import gen, solvable
from ..core import Inconclusive, Sub, arr, check_close, check_true, fail, reading
from ..env import ca, mp, np
from ..solvable import CLS

ASSUMPTIONS = [
    "model: a fresh optimizer of the same problem and grid whose solver is created with the arguments of the last (re)initialization",
    "the solvers are deterministic: same calls give the same iterates (compared to 1e-9)",
    "h-adaptive: a start from a solution refines the widths that the optimizer reports at that time, so the fresh optimizer is given these widths",
    "problem changes (through the optimizer's own copy) are followed by a reinitialization; what a stale solver does is not specified",
]
SQP = {"qpsol": "qrqp", "print_header": False, "print_iteration": False, "print_status": False, "print_time": 0,
       "max_iter": 6, "error_on_fail": False,
       "qpsol_options": {"print_iter": False, "print_header": False, "error_on_fail": False}}
SETS = {
    "tight": ("ipopt", solvable.OPTS),
    "default": ("ipopt", {}),
    "two": ("ipopt", dict(solvable.OPTS, **{"ipopt.max_iter": 2})),
    "seven": ("ipopt", {"ipopt.max_iter": 7}),
    "loose": ("ipopt", {"ipopt.tol": 1e-2, "ipopt.acceptable_tol": 1e-2}),
    "sqp": ("sqpmethod", SQP),
}
EVALS = ["process", "process_all", "dx", "x", "second", "data", "trajectories", "create_nlp", "grid"]


@st.composite
def op(draw, fixed, can_sqp):
    kind = draw(st.sampled_from(["solve"] * 5 + ["eval", "eval", "change", "regrid"]))
    if kind == "solve":
        return dict(op="solve", init=draw(st.sampled_from(["none", "none", "last", "last", "first", "x_last", "scaled", "guess", "inputs", "inputs"])),
                    reinit=draw(st.integers(0, 2)) == 0, key=draw(st.booleans()),
                    opts=draw(st.sampled_from(["tight", "tight", "default", "two", "seven", "loose"] + ["sqp"] * can_sqp)),
                    widths=fixed and draw(st.booleans()))
    if kind == "eval":
        return dict(op="eval", what=draw(st.sampled_from(EVALS)))
    if kind == "change":
        return dict(op="change", field=draw(st.sampled_from(["x00", "run", "ubu", "time", "xf", "scale"])),
                    v=draw(st.integers(1, 4)))
    return dict(op="regrid", grid=draw(gen.grids(max_seg=3, max_deg=4, max_nodes=9)))


@st.composite
def strat(draw, tier="quick"):
    s = draw(solvable.problems(max_ph=2, max_x=3, params=True, grid=gen.grids(max_seg=3, max_deg=4, max_nodes=9)))
    s["engine"] = "numerical"
    s["cls"] = draw(st.sampled_from(["fixed", "fixed", "h", "adaptive"]))
    n = draw(st.integers(2, 5 if tier == "quick" else 8))
    s["ops"] = [draw(op(s["cls"] == "fixed", s["cls"] != "h")) for _ in range(n)]
    s["ops"].insert(0, dict(op="solve", init=draw(st.sampled_from(["none", "none", "guess"])), reinit=draw(st.booleans()),
                            key=False, opts=draw(st.sampled_from(["tight", "default", "two"])), widths=False))
    s["tol"] = draw(st.sampled_from([1e-1, 1e-2, 1e-3]))
    return s


def changed(s, o):
    s = copy.deepcopy(s)
    f, v = o["field"], o["v"]
    P = s["phases"]
    if f == "x00":
        P[0]["x00"] = [q + 0.25 * v for q in P[0]["x00"]]
    elif f == "run":
        for q in P:
            q["run"] = solvable.add(q["run"], solvable.mul(0.5 * v, ["sq", ["x", 0]]))
    elif f == "ubu":
        for q in P:
            q["ubu"] = [30.0 + v] * s["nu"]
    elif f == "time":
        for q in P:
            for k in ("t00", "tf0", "lbt0", "ubt0", "lbtf", "ubtf"):
                q[k] = q[k] + 0.25 * v
    elif f == "xf":
        P[-1]["xf0"] = [0.1 * v] * s["nx"]
        P[-1]["lbx"] = [-20.0 - v] * s["nx"]
    else:
        s["scale"]["x"] = [q * 2.0 for q in s["scale"]["x"]]
        s["scale"]["u"] = [q * (0.5 + 0.25 * v) for q in s["scale"]["u"]]
    return s


def apply_change(mpo, s):
    new = gen.build_ocp(s)
    for k, v in vars(new).items():
        setattr(mpo._ocp, k, v)


class Watch:
    """Stands between optimizer and NLP solver; counts the calls."""

    def __init__(self, solver):
        self.solver, self.calls = solver, []

    def __call__(self, **kw):
        self.calls.append(kw)
        return self.solver(**kw)

    def __getattr__(self, k):
        return getattr(self.solver, k)


def first_guess(mpo, scale=1.1):
    return {"x": arr(mpo.initialize_solution()).ravel() * scale + 0.01}


def fresh(s, init_args, widths_now):
    m = gen.make(s, getattr(mp, CLS[s["cls"]]))
    if s["cls"] == "h":
        m.tol_residual = [s["tol"]] * s["nph"]
        if widths_now is not None:
            m._nlp_sw_params = list(widths_now)
    m.create_solver(solver=init_args[0], options=dict(init_args[1]))
    return m


def args_of(s, o):
    kw = {}
    if o["widths"]:
        kw["mpopt_options"] = {"nlp_sw_params": [v for w in s["widths"] for v in w]}
    if s["cls"] == "h":
        kw["max_iter"] = 2
    return kw


def same(a, b, what, tol=1e-9):
    a, b = arr(a).ravel(), arr(b).ravel()
    if a.shape == b.shape and not (np.all(np.isfinite(a)) and np.all(np.isfinite(b))):
        raise Inconclusive("the solver diverged")
    check_close(a, b, tol, what, scale=1.0)


def evaluate(mpo, sol, what):
    """Results of one evaluation as a list of arrays."""
    if what == "create_nlp":
        mpo.create_nlp()
        return []
    if what == "trajectories":
        return [arr(q) for q in mpo.init_trajectories(0)(sol["x"], mpo._nlp_sw_params)]
    if what == "grid":
        return [arr(q).ravel() for q in mpo.get_residual_grid_taus(0, "spectral")]
    if what in ("process", "process_all"):
        post = mpo.process_results(sol, plot=False, residual_x=what == "process_all")
        return [arr(q) for q in post.get_data([0])] + [arr(q) for q in post.get_data([0], interpolate=True)[:3]]
    if what == "data":
        post = mpo.process_results(sol, plot=False, residual_dx=False)
        return [arr(q) for q in post.get_original_data([0])]
    if what == "dx":
        t, r = mpo.get_dynamics_residuals(sol)
        return [arr(q) for row in r for q in row if q is not None]
    if what == "x":
        x, u, t, r = mpo.get_states_residuals(sol)
        return [arr(q) for row in r for q in row if q is not None]
    t, ddx, ddu = mpo.get_state_second_derivative(sol)
    return [arr(q) for row in ddx for q in row if q is not None]


def check(s):
    s = copy.deepcopy(s)
    mpo = gen.make(s, getattr(mp, CLS[s["cls"]]))
    if s["cls"] == "h":
        mpo.tol_residual = [s["tol"]] * s["nph"]
    sols, init_args, dirty, watch = [], None, False, None
    n_solves = 0
    for o in s["ops"]:
        if o["op"] == "regrid":
            s.update({k: o["grid"][k] for k in ("orders", "scheme")})
            if s["orders"] == [1]:
                s["orders"] = [2]
            s["widths"] = [[1 / len(s["orders"])] * len(s["orders"])] * s["nph"]
            mpo.n_segments, mpo.poly_orders, mpo.colloc_scheme = len(s["orders"]), list(s["orders"]), s["scheme"]
            mpo.reset_mpopt()
            sols, init_args = [], None
            continue
        if o["op"] == "change":
            s = changed(s, o)
            apply_change(mpo, s)
            dirty = True
            continue
        if o["op"] == "eval":
            w = arr(getattr(mpo, "_nlp_sw_params", [0.0])).reshape(s["nph"], -1) if sols else None
            if not sols or dirty or np.abs(w.sum(axis=1) - 1).max() > 1e-7 or w.min() <= 0:
                continue  # (an unfinished adaptive solve: the widths do not sum to one)
            f = fresh(s, ("ipopt", {}), None)
            f._nlp_sw_params = list(arr(mpo._nlp_sw_params).ravel())
            a, b = evaluate(mpo, sols[-1], o["what"]), evaluate(f, sols[-1], o["what"])
            check_true(len(a) == len(b), f"{o['what']} after this history differs from that of a fresh optimizer")
            for p, q in zip(a, b):
                check_close(p, q, 1e-9, f"{o['what']} after this history differs from that of a fresh optimizer",
                            scale=1.0 + (np.abs(q).max() if q.size else 0))
            continue
        # ------------------------------------------------------------ solve
        reinit = o["reinit"] or dirty
        dirty = False
        name, opts = SETS[o["opts"]]
        opts = copy.deepcopy(opts)
        if init_args is None or reinit:
            init_args = (name, opts)
        kw = args_of(s, o)
        init = o["init"] if sols or o["init"] == "guess" else "none"
        if init == "none":
            start = None
        elif init == "guess":
            start = first_guess(mpo)
        elif init == "scaled":
            start = {"x": arr(sols[-1]["x"]).ravel() * 0.9}
        elif init == "x_last":
            start = {("x0" if o["key"] else "x"): sols[-1]["x"]}
        elif init == "inputs":
            # the previous solution and its multipliers, under the names of the solver's inputs
            start = {"x0": sols[-1]["x"], "lam_x0": sols[-1]["lam_x"], "lam_g0": sols[-1]["lam_g"]}
        else:
            start = sols[0 if init == "first" else -1]
        widths_now = list(arr(mpo._nlp_sw_params).ravel()) if hasattr(mpo, "_nlp_sw_params") else None
        if widths_now is not None and len(widths_now) != len(s["orders"]) * s["nph"]:
            widths_now = None
            if start is not None and s["cls"] == "h":
                start, init = None, "none"  # widths of another grid
        if reinit or watch is None or mpo.nlp_solver is not watch or not mpo._nlpsolver_initialized:
            # the solver is created inside of solve: look at it afterwards
            sol = mpo.solve(initial_solution=start, reinitialize_nlp=o["reinit"] or reinit, solver=name,
                            nlp_solver_options=opts, **kw)
            created = True
        else:
            watch.calls.clear()
            sol = mpo.solve(initial_solution=start, reinitialize_nlp=False, solver=name, nlp_solver_options=opts, **kw)
            created = False
            check_true(mpo.nlp_solver is watch, "the solver was created again without reinitialization")
            check_true(bool(watch.calls) or s["cls"] == "h", "the NLP solver was not called")
            if watch.calls and start is not None:
                c = watch.calls[0]
                same(c["x0"], start.get("x", start.get("x0")), "start handed to the solver", 0)
                for k in ("lam_x", "lam_g"):
                    given = [start[q] for q in (k, k + "0") if q in start]
                    check_true((k + "0" in c) == bool(given), f"{k} of the start handed to the solver")
                    if given:
                        same(c[k + "0"], given[0], f"{k} of the start handed to the solver", 0)
        if created:
            real = mpo.nlp_solver
            want = {"ipopt": "IpoptInterface", "sqpmethod": "Sqpmethod"}[init_args[0]]
            with reading("class of the solver"):
                check_true(real.class_name() == want, "another solver than requested", got=real.class_name(), want=want)
            mpo.nlp_solver = watch = Watch(real)
        with reading("solution"):
            missing = {"x", "f", "g", "lam_x", "lam_g"} - set(sol)
        check_true(not missing, "the returned solution lacks entries", missing=sorted(missing), start=init)
        f = fresh(s, init_args, widths_now)
        again = f.solve(initial_solution=start, **kw)
        n_solves += 1
        same(sol["x"], again["x"], f"solve number {n_solves} differs from that of a fresh optimizer")
        for k in ("f", "lam_x", "lam_g", "g"):
            same(sol[k], again[k], f"{k} of solve number {n_solves} differs from that of a fresh optimizer", 1e-7)
        same(mpo._nlp_sw_params, f._nlp_sw_params, f"reported widths of solve number {n_solves}")
        if o["widths"]:
            same(mpo._nlp_sw_params, kw["mpopt_options"]["nlp_sw_params"], "reported widths are not the given ones", 1e-15)
        a, b = mpo.nlp_solver.stats(), None
        with reading("statistics of the solver"):
            try:
                b = f.nlp_solver.stats()
            except Exception:
                b = None  # returned without a call of the fresh solver
            if b is not None and len(watch.calls) != 0:  # (a cached solver was called)
                check_true(a["return_status"] == b["return_status"], "status of the solver", got=a["return_status"])
                check_true(a["iter_count"] == b["iter_count"], "iterations of the solver", got=a["iter_count"])
            called = not (s["cls"] == "h" and start is not None
                          and np.array_equal(arr(sol["x"]).ravel(), arr(start.get("x", start.get("x0"))).ravel()))
            cap = init_args[1].get("ipopt.max_iter", init_args[1].get("max_iter"))
            if cap is not None and called:
                check_true(a["iter_count"] <= cap, "more iterations than the option allows", got=a["iter_count"], cap=cap)
        if s["cls"] == "h":
            check_true(mpo.iter_count == f.iter_count, "refinement iterations", got=mpo.iter_count, want=f.iter_count)
        # a full warm start from an optimum stays at this optimum
        if s["cls"] == "fixed" and init in ("last", "inputs") and not reinit and sols and a["success"] and o["opts"] == "tight" \
                and same_widths == list(arr(mpo._nlp_sw_params).ravel()) and last_ok:
            check_close(arr(sol["f"]).ravel(), arr(sols[-1]["f"]).ravel(), 1e-4, "cost after a warm start at the optimum",
                        scale=1.0)
        same_widths = list(arr(mpo._nlp_sw_params).ravel())
        last_ok = bool(a["success"]) and o["opts"] == "tight" and not solvable.square(mpo)
        sols.append(sol)


# ------------------------------------------------------------------ options
@st.composite
def opt_strat(draw, tier="quick"):
    s = draw(solvable.problems(max_ph=2, max_x=3, grid=gen.grids(max_seg=3, max_deg=4, max_nodes=9)))
    s["engine"] = "numerical"
    s["cls"] = draw(st.sampled_from(["fixed", "h", "adaptive"]))
    s["which"] = draw(st.sampled_from(["max_iter", "callback", "sqp", "tol", "keep", "late"]))
    s["cap"] = draw(st.integers(0, 6))
    s["via"] = draw(st.sampled_from(["solve", "create"]))
    return s


class Count(ca.Callback):
    """Iteration callback (needs the sizes of the program)."""

    def __init__(self, n, m, npar):
        ca.Callback.__init__(self)
        self.n, self.m, self.npar, self.seen = n, m, npar, []
        self.construct("count", {})

    def get_n_in(self):
        return ca.nlpsol_n_out()

    def get_n_out(self):
        return 1

    def get_name_in(self, i):
        return ca.nlpsol_out(i)

    def get_name_out(self, i):
        return "ret"

    def get_sparsity_in(self, i):
        k = ca.nlpsol_out(i)
        if k == "f":
            return ca.Sparsity.scalar()
        if k in ("x", "lam_x"):
            return ca.Sparsity.dense(*self.n)
        if k in ("g", "lam_g"):
            return ca.Sparsity.dense(*self.m)
        return ca.Sparsity.dense(*self.npar)

    def eval(self, a):
        self.seen.append(float(a[1]))
        return [0]


def check_opt(s):
    mpo = gen.make(s, getattr(mp, CLS[s["cls"]]))
    kw = {"max_iter": 1} if s["cls"] == "h" else {}
    name, opts, count = "ipopt", dict(solvable.OPTS), None
    if s["which"] == "max_iter":
        opts["ipopt.max_iter"] = s["cap"]
    elif s["which"] == "tol":
        opts = {"ipopt.tol": 1e-11, "ipopt.acceptable_iter": 0, "ipopt.max_iter": 500}
    elif s["which"] == "sqp":
        name, opts = "sqpmethod", dict(SQP, max_iter=s["cap"] + 1)
    elif s["which"] == "callback":
        prob, _ = gen.make(s, getattr(mp, CLS[s["cls"]])).create_nlp()
        with reading("nonlinear program"):
            count = Count(prob["x"].shape, prob["g"].shape,
                          (0, 0) if s["cls"] == "adaptive" else prob["p"].shape)
        opts["iteration_callback"] = count
    user = dict(opts)
    if s["via"] == "create":
        mpo.create_solver(solver=name, options=opts)
        sol = mpo.solve(**kw)
    else:
        sol = mpo.solve(solver=name, nlp_solver_options=opts, **kw)
    check_true(opts == user, "the option dictionary was changed")
    with reading("statistics of the solver"):
        a = mpo.nlp_solver.stats()
        it = a["iter_count"]
        want = {"ipopt": "IpoptInterface", "sqpmethod": "Sqpmethod"}[name]
        check_true(mpo.nlp_solver.class_name() == want, "another solver than requested", got=mpo.nlp_solver.class_name())
    if s["which"] == "max_iter":
        check_true(it <= s["cap"], "more iterations than the option allows", got=it, cap=s["cap"])
    elif s["which"] == "sqp":
        check_true(it <= s["cap"] + 1, "more iterations than the option allows", got=it, cap=s["cap"] + 1)
    elif s["which"] == "callback":
        check_true(len(count.seen) > 0, "the iteration callback was not called")
    elif s["which"] == "keep":
        # options of a cached solver stay; a reinitialization replaces them
        mpo.solve(nlp_solver_options={"ipopt.max_iter": 1, "ipopt.print_level": 0, "print_time": 0}, **kw)
        check_true(mpo.nlp_solver.stats()["iter_count"] == it, "options of a later call without reinitialization took effect",
                   got=mpo.nlp_solver.stats()["iter_count"], want=it)
    elif s["which"] == "late":
        mpo.solve(reinitialize_nlp=True, nlp_solver_options={"ipopt.max_iter": s["cap"]}, **kw)
        check_true(mpo.nlp_solver.stats()["iter_count"] <= s["cap"], "options of a reinitialization had no effect",
                   got=mpo.nlp_solver.stats()["iter_count"], cap=s["cap"])
        mpo.solve(reinitialize_nlp=True, solver="sqpmethod", nlp_solver_options=copy.deepcopy(SQP), **kw)
        check_true(mpo.nlp_solver.class_name() == "Sqpmethod", "another solver than requested after reinitialization")


# ----------------------------------------------- guesses are solved, not returned
@st.composite
def guess_strat(draw, tier="quick"):
    s = draw(solvable.problems(max_ph=2, max_x=3, grid=gen.grids(max_seg=3, max_deg=5, max_nodes=12)))
    s["engine"] = "numerical"
    s["cls"] = draw(st.sampled_from(["h", "h", "h", "fixed", "adaptive"]))
    s["key"] = draw(st.sampled_from(["x", "x0", "both", "none"]))
    s["q"] = draw(st.sampled_from([2.0, 5.0]))
    s["tol"] = draw(st.sampled_from([1e-3, 1e-1, 10.0]))
    s["method"] = draw(st.sampled_from(["default", "control_slope", "merge_split"]))
    return s


def check_guess(s):
    cls = getattr(mp, CLS[s["cls"]])
    other = copy.deepcopy(s)
    for P in other["phases"]:
        P["run"] = solvable.add(P["run"], solvable.mul(s["q"], ["sq", ["-", ["u", 0], ["c", 1.0]]]))
    pre = gen.make(dict(other), mp.mpopt)
    z = arr(pre.solve(nlp_solver_options=dict(solvable.OPTS))["x"]).ravel()
    if s["cls"] == "adaptive":
        n = gen.Nlp(s, cls)
        m = gen.Nlp(s)
        z = n.pack([dict(X=z[d["X"]], U=z[d["U"]], A=z[d["A"]], t0=z[d["t0"]], tf=z[d["tf"]]) for d in m.idx],
                   [[1 / len(s["orders"])] * len(s["orders"])] * s["nph"])
    start = {"x": {"x": z}, "x0": {"x0": z}, "both": {"x": z, "x0": z}, "none": {}}[s["key"]]
    mpo = gen.make(s, cls)
    kw = {}
    if s["cls"] == "h":
        mpo.tol_residual = [s["tol"]] * s["nph"]
        kw["max_iter"] = 3
        if s["method"] != "default":
            kw["mpopt_options"] = {"control_slope": {"method": "control_slope"},
                                   "merge_split": {"method": "residual", "sub_method": "merge_split"}}[s["method"]]
    spy = solvable.spy(mpo)
    user = {k: v.copy() for k, v in start.items()}
    sol = mpo.solve(initial_solution=start, **kw)
    check_true(set(user) == set(start) and all(np.array_equal(user[k], start[k]) for k in user),
               "the initial guess was changed")
    check_true(len(spy.calls) > 0, "the guess was returned instead of being solved")
    with reading("solution"):
        missing = {"x", "f", "g", "lam_x", "lam_g"} - set(sol)
    check_true(not missing, "the returned solution lacks entries", missing=sorted(missing))
    first = arr(spy.calls[0]["kw"]["x0"]).ravel()
    want = z if s["key"] != "none" else arr(mpo.initialize_solution()).ravel()
    check_close(first, want, 0, "start handed to the solver", scale=1.0)
    check_close(arr(sol["x"]).ravel(), spy.calls[-1]["x"], 0, "the returned solution is not that of the solver", scale=1.0)


SUBS = [
    Sub("guess", guess_strat, check_guess, 100, 1500,
        "solves from a guess under x, x0, both or none of the keys, which satisfies the dynamics but is not optimal; "
        "non-trivial: h-adaptive with several segments", lambda s: s["cls"] == "h" and len(s["orders"]) > 1,
        classify=lambda s: [s["cls"], s["key"], s["method"]]),
    Sub("history", strat, check, 160, 2500,
        "random problems, three optimizers, histories of solves (start: none, guess, full or partial previous "
        "solution; six option sets), evaluations, problem changes, new grids; each solve against a fresh optimizer; "
        "non-trivial: at least two solves",
        lambda s: sum(o["op"] == "solve" for o in s["ops"]) > 1,
        classify=lambda s: [s["cls"]] + sorted({o["op"] + ":" + str(o.get("init", o.get("what", o.get("field", "")))) for o in s["ops"]})),
    Sub("options", opt_strat, check_opt, 120, 1500,
        "iteration limits, callbacks, tolerances, another solver, options of cached and reinitialized solvers; "
        "non-trivial: all", classify=lambda s: [s["cls"], s["which"], s["via"]]),
]
