"""Small problems that the NLP solver solves quickly and reliably."""
from hypothesis import strategies as st

from . import gen
from .core import Inconclusive, arr
from .env import ca, mp, np

OPTS = {"ipopt.max_iter": 300, "ipopt.tol": 1e-9, "ipopt.acceptable_tol": 1e-9, "ipopt.print_level": 0,
        "ipopt.sb": "yes", "print_time": 0}
CLS = {"fixed": "mpopt", "h": "mpopt_h_adaptive", "adaptive": "mpopt_adaptive"}


def add(*e):
    out = e[0]
    for q in e[1:]:
        out = ["+", out, q]
    return out


def mul(c, e):
    return ["*", ["c", float(c)], e]


@st.composite
def problems(draw, max_ph=2, max_x=2, nonlinear=True, free_tf=False, scaled=True, grid=None, params=False,
             bounded=True, stiff=False):
    """Every state has its own control (now and then there is one control
    more); quadratic running cost; final state fixed or penalized; end time
    fixed (or free with a cost on time)."""
    nx = draw(st.integers(1, max_x))
    nph = draw(st.integers(1, max_ph))
    s = dict(draw(grid if grid is not None else gen.grids(max_seg=4, max_deg=5)))
    if s["orders"] == [1]:
        s["orders"] = [2]  # as many equations as variables: ipopt then ignores the cost
    na = draw(st.sampled_from([0, 1, 1, 2])) if params else 0
    # (a state without a control could not satisfy the dynamics at all nodes)
    extra = draw(st.sampled_from([0, 0, 0, 1]))
    nu = nx + extra
    s.update(nx=nx, nu=nu, na=na, nph=nph)
    co = st.sampled_from([0.0, 0.5, -0.5, 1.0, -1.0])
    free = free_tf and draw(st.booleans())
    T = draw(st.sampled_from([0.5, 1.0, 2.0]))
    x00 = draw(gen.vec(nx, st.sampled_from([-1.0, 0.0, 0.5, 1.0])))
    xf = draw(gen.vec(nx, st.sampled_from([-1.0, 0.0, 0.5, 1.0])))
    fixed_end = draw(st.booleans())
    A = [draw(gen.vec(nx, co)) for _ in range(nx)]
    B = draw(gen.vec(nx, st.sampled_from([1.0, 2.0, -1.0])))
    non = [draw(st.sampled_from([None, None, "sin", "cubic", "time"])) if nonlinear else None for _ in range(nx)]
    if stiff:
        non = [draw(st.sampled_from(["tanh", "time", "sin", "cubic"])) for _ in range(nx)]
    q = draw(st.sampled_from([0.0, 1.0, 2.0]))
    amp = draw(st.sampled_from([0.5, 1.0])) if not stiff else draw(st.sampled_from([1.0, 2.0]))
    phases = []
    t = draw(st.sampled_from([0.0, 0.0, 1.0, -1.0]))
    for p in range(nph):
        dyn = []
        for i in range(nx):
            e = mul(B[i], ["u", i])
            if i == 0 and extra == 1:
                e = add(e, mul(0.5, ["u", nx]))
            for j in range(nx):
                if A[i][j]:
                    e = add(e, mul(A[i][j], ["x", j]))
            if non[i] == "sin":
                e = add(e, mul(amp, ["sin", mul(2, ["x", i])]))
            elif non[i] == "cubic":
                e = add(e, mul(-amp, ["*", ["x", i], ["sq", ["x", i]]]))
            elif non[i] == "time":
                e = add(e, mul(amp, ["sin", mul(4, ["t"])]))
            elif non[i] == "tanh":
                e = add(e, mul(amp, ["tanh", mul(20, ["-", ["t"], ["c", 0.5]])]))
            if na:
                e = add(e, *[mul(0.5 if k else 1, ["a", k]) for k in range(na)])
            dyn.append(e)
        run = add(*[["sq", ["u", i]] for i in range(nu)])
        if q:
            run = add(run, *[mul(q, ["sq", ["x", i]]) for i in range(nx)])
        if free:
            run = add(run, ["c", 1.0])
        P = dict(dyn=dyn, run=run, term=None, path=None, tc=None)
        last = p == nph - 1
        if last:
            d = [["-", ["xf", i], ["c", xf[i]]] for i in range(nx)]
            if fixed_end:
                P["tc"] = d
            else:
                P["term"] = mul(4, add(*[["sq", e] for e in d]))
        if na:
            e = add(*[["sq", ["-", ["a", k], ["c", 0.25 - k]]] for k in range(na)])
            P["term"] = e if P["term"] is None else add(P["term"], e)
        P["x00"] = [x00[i] + (xf[i] - x00[i]) * p / nph for i in range(nx)]
        P["xf0"] = [x00[i] + (xf[i] - x00[i]) * (p + 1) / nph for i in range(nx)]
        P["u00"], P["uf0"] = [0.0] * nu, [0.0] * nu
        P["a0"] = [0.0] * na
        P["t00"], P["tf0"] = t + T * p / nph, t + T * (p + 1) / nph
        b = 20.0 if bounded else None
        P["lbx"], P["ubx"] = [None if b is None else -b] * nx, [b] * nx
        P["lbu"], P["ubu"] = [None if b is None else -2 * b] * nu, [None if b is None else 2 * b] * nu
        P["lba"], P["uba"] = [-1.5] * na, [1.5] * na
        P["lbt0"] = P["ubt0"] = P["t00"]
        P["lbtf"] = P["ubtf"] = P["tf0"]
        if free:
            if p > 0:
                P["lbt0"], P["ubt0"] = t, t + 10.0
            P["lbtf"], P["ubtf"] = t + 0.1 * (p + 1), t + 10.0
        # constraints that are far from active
        k = draw(st.integers(0, 5))
        if k < 2:
            P["path"] = [["-", ["x", i], ["c", 40.0]] for i in range(nx)][: k + 1]
        elif k == 2:
            P["path"] = [["-", ["sq", ["u", 0]], ["c", 4000.0]], ["-", ["c", -40.0], ["x", 0]]]
        P["midu"], P["diff_u"], P["duc"] = draw(st.integers(0, 3)) == 0, draw(st.integers(0, 3)) == 0, 0
        P["midu"], P["diff_u"] = int(P["midu"]), int(P["diff_u"])
        P["lbdu"], P["ubdu"] = -2000.0, 2000.0
        phases.append(P)
    s["phases"] = phases
    s["links"] = [[i, i + 1] for i in range(nph - 1)]
    s["lbe"] = s["ube"] = [[0.0] * nx for _ in range(nph - 1)]
    if scaled and draw(st.booleans()):
        sc = st.sampled_from([1.0, 0.5, 2.0, 4.0])
        s["scale"] = dict(x=draw(gen.vec(nx, sc)), u=draw(gen.vec(nu, sc)), a=draw(gen.vec(na, sc)), t=draw(sc))
    else:
        s["scale"] = dict(x=[1.0] * nx, u=[1.0] * nu, a=[1.0] * na, t=1.0)
    s["widths"] = draw(gen.widths(len(s["orders"]), nph))
    s["zseed"] = 0
    return s


class Spy:
    """Wraps the NLP solver of an optimizer; records its calls."""

    def __init__(self, solver):
        self.solver = solver
        self.calls = []

    def __call__(self, **kw):
        sol = self.solver(**kw)
        ok = bool(self.solver.stats()["success"])
        self.calls.append(dict(kw=kw, sol=sol, ok=ok, x=arr(sol["x"]).ravel(), f=float(arr(sol["f"]).ravel()[0])))
        return sol

    def __getattr__(self, k):
        return getattr(self.solver, k)


def spy(mpo, options=OPTS, solver="ipopt"):
    mpo.create_solver(solver=solver, options=dict(options))
    mpo.nlp_solver = Spy(mpo.nlp_solver)
    return mpo.nlp_solver


def infeasibility(nlp, x, w):
    """Largest violation of constraints and bounds at a decision vector."""
    x = arr(x).ravel()
    if nlp.adaptive:
        f, g = nlp.fn(x)
    else:
        f, g = nlp.fn(x, np.asarray(w, float))
    g = arr(g).ravel()
    v = [0.0]
    if len(g):
        v += [np.max(nlp.lbg - g), np.max(g - nlp.ubg)]
    v += [np.max(nlp.lbx - x), np.max(x - nlp.ubx)]
    return float(np.max(v)), float(arr(f).ravel()[0])


def square(mpo):
    """As many equality constraints as free variables: ipopt then solves a
    feasibility problem and ignores the objective."""
    b = {k: np.array(mpo.nlp_bounds[k], float).ravel() for k in ("lbx", "ubx", "lbg", "ubg")}
    return np.sum(b["lbg"] == b["ubg"]) >= np.sum(b["lbx"] != b["ubx"])
