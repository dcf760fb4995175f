"""C12: default initial guess."""
from hypothesis import strategies as st

from .. import gen, ref
from ..core import Sub, arr, check_close, check_true, fail
from ..env import ca, mp, np

ASSUMPTIONS = ["observed as the x0 (and p) handed to the NLP solver, which is replaced by a recorder",
               "start and end time guesses differ"]
CLS = {"fixed": "mpopt", "h": "mpopt_h_adaptive", "adaptive": "mpopt_adaptive"}


class Recorder:
    def __init__(self):
        self.calls = []

    def __call__(self, **kw):
        self.calls.append(kw)
        x = ca.DM(arr(kw["x0"], "x0").ravel())
        return {"x": x, "f": ca.DM(0), "g": ca.DM(0), "lam_x": x * 0, "lam_g": ca.DM(0), "lam_p": ca.DM(0)}


@st.composite
def strat(draw, tier="quick"):
    s = draw(gen.specs(maybe=("midu", "links"), max_ph=4, wild=draw(st.booleans()), depth=1,
                       grid=gen.grids(max_seg=4, max_deg=6)))
    s["cls"] = draw(st.sampled_from(sorted(CLS)))
    s["warm"] = draw(st.sampled_from([None, None, "empty", "multipliers"]))
    return s


def check(s):
    n = gen.Nlp(s, getattr(mp, CLS[s["cls"]]))
    mpo = n.mpo
    mpo.create_solver()
    rec = mpo.nlp_solver = Recorder()
    kw = {}
    if s["warm"] == "empty":
        kw["initial_solution"] = {}
    elif s["warm"] == "multipliers":
        kw["initial_solution"] = {"lam_g": np.zeros(n.m), "f": 0.0}
    if s["cls"] == "h":
        if s["warm"]:
            kw = {}
        kw["max_iter"] = 1
        # retrieval of residuals after the recorder's answer is not under test
        mpo.get_segment_width_parameters = lambda sol, options=None: (
            [1.0 / mpo.n_segments] * (mpo.n_segments * s["nph"]), None)
    mpo.solve(**kw)
    check_true(len(rec.calls) == 1, "number of NLP solves", got=len(rec.calls))
    z = arr(rec.calls[0]["x0"], "x0").ravel()
    check_true(len(z) == n.n, "length of the initial guess", got=len(z), want=n.n)
    sc = s["scale"]
    for ph, P in enumerate(s["phases"]):
        d = n.idx[ph]
        cols = []
        for k, a, b, key, c in (("state", "x00", "xf0", "X", sc["x"]), ("control", "u00", "uf0", "U", sc["u"])):
            for j in range(d[key].shape[1]):
                cols.append((f"{k} {j}", P[a][j] * c[j], P[b][j] * c[j], z[d[key][:, j]]))
        big = max(cols, key=lambda q: abs(q[2] - q[1]) / max(abs(q[1]), abs(q[2]), 1e-9))
        frac = None
        if big[2] != big[1]:
            frac = (big[3] - big[1]) / (big[2] - big[1])
            if not (abs(frac[0]) < 1e-7 and abs(frac[-1] - 1) < 1e-7 and np.all(np.diff(frac) > -1e-7)):
                fail(f"phase {ph} {big[0]}: guess does not go straight from start to end", guess=big[3],
                     start=big[1], end=big[2])
        for name, a, b, v in cols:
            want = np.full(len(v), a) if b == a else a + frac * (b - a)
            check_close(v, want, 1e-6, f"phase {ph} {name}: guess", scale=max(abs(a), abs(b), 1e-9))
            check_close(v[[0, -1]], [a, b], 1e-9, f"phase {ph} {name}: end guesses",
                        scale=max(abs(a), abs(b), 1e-9))
        for i in range(s["na"]):
            check_close(z[d["A"][i]], P["a0"][i] * sc["a"][i], 1e-12, f"phase {ph} parameter guess")
        check_close(z[d["t0"]], P["t00"] * sc["t"], 1e-12, f"phase {ph} start time guess")
        check_close(z[d["tf"]], P["tf0"] * sc["t"], 1e-12, f"phase {ph} end time guess")
        if n.hidx is not None:
            check_close(z[n.hidx[ph]], np.full(r_n(s), 1.0 / r_n(s)), 1e-12, f"phase {ph} width guess")
    if n.hidx is None:
        p = arr(rec.calls[0]["p"], "p").ravel()
        check_close(p, np.full(r_n(s) * s["nph"], 1.0 / r_n(s)), 1e-12, "default segment widths")


def r_n(s):
    return len(s["orders"])


SUBS = [
    Sub("guess", strat, check, 700, 8000,
        "random guesses, scales, phases, grids and optimizer class; the vector handed to the "
        "solver without warm start (or with one that has no x) is a straight line per variable; "
        "non-trivial: some component with different end guesses and at least 3 nodes",
        lambda s: sum(s["orders"]) >= 2 and any(P["u00"] != P["uf0"] or P["x00"] != P["xf0"] for P in s["phases"]),
        classify=lambda s: [s["cls"], f"phases={s['nph']}", f"nu={s['nu']}"]),
]
