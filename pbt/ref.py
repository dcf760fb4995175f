"""Independent reference implementation (numpy only): collocation nodes and
matrices, expressions, and the transcription of an optimal control problem."""
import functools

from .env import np

L = np.polynomial.legendre


# --------------------------------------------------------------- collocation
def _newton(c, x):
    d = L.legder(c)
    for _ in range(4):
        x = x - L.legval(x, c) / L.legval(x, d)
    return x


@functools.lru_cache(maxsize=None)
def _nodes(scheme, p):
    if p == 1:
        return (-1.0, 1.0)
    if scheme == "CGL":
        return tuple(-np.cos(np.pi * np.arange(p + 1) / p))
    if scheme == "LGL":
        c = L.legder(np.eye(p + 1)[p])
        x = np.sort(_newton(c, L.legroots(c).real))
        return (-1.0, *x, 1.0)
    if scheme == "LGR":
        # p right-aligned Radau points: roots of P_{p-1} - P_p (contains +1)
        c = np.zeros(p + 1)
        c[p - 1], c[p] = 1.0, -1.0
        x = np.sort(L.legroots(c).real)[:-1]
        x = np.sort(_newton(c, x))
        return (-1.0, *x, 1.0)
    raise ValueError(scheme)


def nodes(scheme, p, tau=(-1.0, 1.0)):
    x = np.array(_nodes(scheme, p))
    t = tau[0] + (tau[1] - tau[0]) * (x + 1.0) / 2.0
    t[0], t[-1] = tau[0], tau[1]
    return t


def bary(x):
    x = np.asarray(x, float)
    c = 4.0 / (x[-1] - x[0]) if len(x) > 1 else 1.0  # capacity scaling
    d = (x[:, None] - x[None, :]) * c
    np.fill_diagonal(d, 1.0)
    return 1.0 / d.prod(axis=1)


def interp_matrix(x, at):
    """Rows: values of the Lagrange basis on nodes x at the points."""
    x, at = np.asarray(x, float), np.asarray(at, float).ravel()
    w = bary(x)
    out = np.zeros((len(at), len(x)))
    for i, s in enumerate(at):
        d = s - x
        hit = np.where(d == 0)[0]
        if len(hit):
            out[i, hit[0]] = 1.0
        else:
            q = w / d
            out[i] = q / q.sum()
    return out


def diff_matrix(x):
    x = np.asarray(x, float)
    w = bary(x)
    n = len(x)
    D = np.zeros((n, n))
    for i in range(n):
        for j in range(n):
            if i != j:
                D[i, j] = w[j] / w[i] / (x[i] - x[j])
        D[i, i] = -D[i].sum()
    return D


def quad_weights(x, a, b):
    """Integrals over [a, b] of the Lagrange basis on the nodes x."""
    n = len(x) // 2 + 2
    g, w = L.leggauss(n)
    s = a + (b - a) * (g + 1) / 2
    return (b - a) / 2 * w @ interp_matrix(x, s)


# -------------------------------------------------- polynomials on a segment
def poly_on(coef, tau, tau_range):
    """Legendre series in the coordinate of the segment mapped to [-1, 1]."""
    s = 2 * (np.asarray(tau, float) - tau_range[0]) / (tau_range[1] - tau_range[0]) - 1
    return L.legval(s, coef)


def dpoly_on(coef, tau, tau_range, order=1):
    s = 2 * (np.asarray(tau, float) - tau_range[0]) / (tau_range[1] - tau_range[0]) - 1
    c = np.asarray(coef, float)
    f = 2.0 / (tau_range[1] - tau_range[0])
    for _ in range(order):
        c = L.legder(c) if len(c) > 1 else np.zeros(1)
    return L.legval(s, c) * f**order


def ipoly_on(coef, tau, tau_range):
    """Integral from the start of the segment to tau."""
    s = 2 * (np.asarray(tau, float) - tau_range[0]) / (tau_range[1] - tau_range[0]) - 1
    c = L.legint(np.asarray(coef, float), lbnd=-1)
    return L.legval(s, c) * (tau_range[1] - tau_range[0]) / 2.0


# --------------------------------------------------------------- expressions
def ev(e, env, lib):
    """Expression tree (nested lists) in an environment of indexables."""
    op = e[0]
    if op == "c":
        return e[1]
    if op in env:
        v = env[op]
        return v[e[1]] if len(e) > 1 else v
    a = ev(e[1], env, lib)
    if op == "neg":
        return -a
    if op == "sq":
        return a * a
    if op == "sin":
        return lib.sin(a)
    if op == "cos":
        return lib.cos(a)
    if op == "tanh":
        return lib.tanh(a)
    if op == "root":
        return lib.sqrt(1 + a * a)
    b = ev(e[2], env, lib)
    if op == "+":
        return a + b
    if op == "-":
        return a - b
    if op == "*":
        return a * b
    if op == "/":
        return a / (2 + b * b)
    raise ValueError(op)


def ops_of(e, acc=None):
    acc = set() if acc is None else acc
    acc.add(e[0])
    for k in e[1:]:
        if isinstance(k, list):
            ops_of(k, acc)
    return acc


def evn(e, n, **env):
    """Vectorized: env values are lists of columns of length n."""
    return np.broadcast_to(np.asarray(ev(e, env, np), float), (n,)).astype(float)


# ------------------------------------------------------------- transcription
class Grid:
    """Composite grid of one problem (the same for all phases)."""

    def __init__(self, scheme, orders, tau=(-1.0, 1.0)):
        self.scheme, self.orders, self.tau = scheme, list(orders), tuple(tau)
        self.N = sum(orders) + 1
        self.nseg = len(orders)
        self.x = [nodes(scheme, p, tau) for p in orders]
        self.D = [diff_matrix(x) for x in self.x]
        self.start = [sum(orders[:k]) for k in range(len(orders))]
        self.dtau = tau[1] - tau[0]
        # owner[i] = (segment, node): a shared node belongs to the earlier one
        self.owner = []
        for k, p in enumerate(orders):
            for j in range(p + 1):
                if k > 0 and j == 0:
                    continue
                self.owner.append((k, j))
        self.seg_of = np.array([o[0] for o in self.owner])

    def sl(self, k):
        return slice(self.start[k], self.start[k] + self.orders[k] + 1)

    def deriv(self, V):
        """d/dtau at every node (earlier segment at shared nodes)."""
        V = np.asarray(V, float)
        out = np.zeros_like(V)
        for k in range(self.nseg):
            d = self.D[k] @ V[self.sl(k)]
            lo = 0 if k == 0 else 1
            out[self.start[k] + lo : self.start[k] + self.orders[k] + 1] = d[lo:]
        return out

    def times(self, w, t0, tf):
        c = np.concatenate([[0.0], np.cumsum(w)])
        t = np.zeros(self.N)
        for i, (k, j) in enumerate(self.owner):
            s = (self.x[k][j] - self.tau[0]) / self.dtau
            t[i] = t0 + (tf - t0) * (c[k] + w[k] * s)
        return t

    def interp(self, V, at):
        """at: list of point arrays, one per segment -> stacked rows."""
        rows = [
            interp_matrix(self.x[k], at[k]) @ V[self.sl(k)] for k in range(self.nseg)
        ]
        return np.concatenate(rows, axis=0)

    def dinterp(self, V, at, order=1):
        rows = []
        for k in range(self.nseg):
            Dk = np.linalg.matrix_power(self.D[k], order)
            rows.append(interp_matrix(self.x[k], at[k]) @ (Dk @ V[self.sl(k)]))
        return np.concatenate(rows, axis=0)

    def mids(self):
        return [(x[:-1] + x[1:]) / 2 for x in self.x]


class Ref:
    """The reference transcription of a problem spec (see gen.py)."""

    def __init__(self, spec):
        self.s = spec
        self.g = Grid(spec["scheme"], spec["orders"], spec["tau"])
        sc = spec["scale"]
        self.sx, self.su = np.array(sc["x"], float), np.array(sc["u"], float)
        self.sa, self.st = np.array(sc["a"], float), float(sc["t"])

    # v: dict per phase with scaled arrays X (N,nx), U (N,nu), A (na,), and
    # scaled t0, tf; w: segment widths of the phase
    def un(self, v):
        return (
            v["X"] / self.sx,
            v["U"] / self.su,
            v["A"] / self.sa,
            v["t0"] / self.st,
            v["tf"] / self.st,
        )

    def node_env(self, v, w):
        x, u, a, t0, tf = self.un(v)
        t = self.g.times(w, t0, tf)
        N = self.g.N
        return dict(
            x=list(x.T), u=list(u.T), t=t, a=[np.full(N, q) for q in a]
        ), t, t0, tf

    def dyn_values(self, ph, env, n):
        return np.stack([evn(e, n, **env) for e in self.s["phases"][ph]["dyn"]], axis=1)

    def dynamics_rows(self, ph, v, w):
        env, t, t0, tf = self.node_env(v, w)
        f = self.dyn_values(ph, env, self.g.N)
        h = (tf - t0) / self.g.dtau * np.asarray(w)[self.g.seg_of]
        return self.g.deriv(v["X"]) - h[:, None] * self.sx * f

    def path_rows(self, ph, v, w):
        P = self.s["phases"][ph]
        if P["path"] is None:
            return np.zeros((0,))
        env, *_ = self.node_env(v, w)
        return np.stack([evn(e, self.g.N, **env) for e in P["path"]], axis=1)

    def end_env(self, v):
        x, u, a, t0, tf = self.un(v)
        return dict(xf=list(x[-1]), tf=tf, x0=list(x[0]), t0=t0, a=list(a))

    def term_rows(self, ph, v):
        P = self.s["phases"][ph]
        if P["tc"] is None:
            return np.zeros(0)
        env = self.end_env(v)
        return np.array([float(ev(e, env, np)) for e in P["tc"]])

    def cost(self, ph, v, w):
        P = self.s["phases"][ph]
        env, t, t0, tf = self.node_env(v, w)
        J = 0.0
        if P["term"] is not None:
            J += float(ev(P["term"], self.end_env(v), np))
        mag = abs(J)
        if P["run"] is not None:
            L_ = evn(P["run"], self.g.N, **env)
            for k in range(self.g.nseg):
                q = quad_weights(self.g.x[k], *self.g.tau)
                h = (tf - t0) / self.g.dtau * w[k]
                J += h * (q @ L_[self.g.sl(k)])
                mag += abs(h) * (np.abs(q) @ np.abs(L_[self.g.sl(k)]))
        return J, mag

    def mid_u(self, ph, v):
        return self.g.interp(v["U"], self.g.mids())

    def slope(self, ph, v, w):
        x, u, a, t0, tf = self.un(v)
        h = (tf - t0) / self.g.dtau * np.asarray(w)[self.g.seg_of]
        return self.g.deriv(u) / h[:, None]

    def slope_jumps(self, ph, v, w):
        """(left, right) one-sided d u_scaled / d(normalized phase coordinate)
        at the interior segment boundaries, up to a common constant."""
        g = self.g
        left, right = [], []
        for k in range(g.nseg - 1):
            left.append((g.D[k] @ v["U"][g.sl(k)])[-1] / w[k])
            right.append((g.D[k + 1] @ v["U"][g.sl(k + 1)])[0] / w[k + 1])
        return np.array(left).reshape(-1, v["U"].shape[1]), np.array(right).reshape(
            -1, v["U"].shape[1]
        )

    def bound_vectors(self, ph):
        P = self.s["phases"][ph]

        def f(v, d):
            return np.array([d if q is None else q for q in v], float)

        return dict(
            lbx=f(P["lbx"], -np.inf), ubx=f(P["ubx"], np.inf),
            lbu=f(P["lbu"], -np.inf), ubu=f(P["ubu"], np.inf),
            lba=f(P["lba"], -np.inf), uba=f(P["uba"], np.inf),
            lbt0=f([P["lbt0"]], -np.inf)[0], ubt0=f([P["ubt0"]], np.inf)[0],
            lbtf=f([P["lbtf"]], -np.inf)[0], ubtf=f([P["ubtf"]], np.inf)[0],
        )
