"""C09: variable bounds and the initial condition."""
from hypothesis import strategies as st

from .. import gen, ref
from ..core import Sub, check_true, fail
from ..env import mp, np

ASSUMPTIONS = ["all three optimizers (fixed, h-adaptive, adaptive widths); bounds compared to 1e-12 relative"]
CLS = {"fixed": "mpopt", "h": "mpopt_h_adaptive", "adaptive": "mpopt_adaptive"}


@st.composite
def strat(draw, tier="quick"):
    s = draw(gen.specs(maybe=("links", "midu", "path"), max_ph=4, wild=True, depth=1,
                       grid=gen.grids(max_seg=4, max_deg=5)))
    s["cls"] = draw(st.sampled_from(sorted(CLS)))
    return s


def check(s):
    cls = getattr(mp, CLS[s["cls"]])
    n = gen.Nlp(s, cls)
    r = ref.Ref(s)
    sc = s["scale"]
    lo, hi = np.full(n.n, np.nan), np.full(n.n, np.nan)
    for ph in range(s["nph"]):
        b, d = r.bound_vectors(ph), n.idx[ph]
        for j in range(s["nx"]):
            lo[d["X"][:, j]] = b["lbx"][j] * sc["x"][j]
            hi[d["X"][:, j]] = b["ubx"][j] * sc["x"][j]
        if ph == 0:
            lo[d["X"][0]] = hi[d["X"][0]] = np.array(s["phases"][0]["x00"]) * r.sx
        for j in range(s["nu"]):
            lo[d["U"][:, j]] = b["lbu"][j] * sc["u"][j]
            hi[d["U"][:, j]] = b["ubu"][j] * sc["u"][j]
        for j in range(s["na"]):
            lo[d["A"][j]] = b["lba"][j] * sc["a"][j]
            hi[d["A"][j]] = b["uba"][j] * sc["a"][j]
        lo[d["t0"]], hi[d["t0"]] = b["lbt0"] * sc["t"], b["ubt0"] * sc["t"]
        lo[d["tf"]], hi[d["tf"]] = b["lbtf"] * sc["t"], b["ubtf"] * sc["t"]
    for name, got, want in (("lower", n.lbx, lo), ("upper", n.ubx, hi)):
        for i in range(n.n):
            if np.isnan(want[i]):
                continue  # segment widths (C22)
            if not (got[i] == want[i] or abs(got[i] - want[i]) <= 1e-12 * max(1e-6, abs(want[i]))):
                fail(f"{name} bound of {who(n, i)}", got=got[i], want=want[i])


def who(n, i):
    for ph, d in enumerate(n.idx):
        for k in ("X", "U"):
            w = np.argwhere(d[k] == i)
            if len(w):
                return f"phase {ph} {'state' if k == 'X' else 'control'} {w[0][1]} at node {w[0][0]}"
        if i in list(d["A"]):
            return f"phase {ph} parameter {list(d['A']).index(i)}"
        if i == d["t0"]:
            return f"phase {ph} start time"
        if i == d["tf"]:
            return f"phase {ph} end time"
    return f"variable {i}"


SUBS = [
    Sub("bounds", strat, check, 1000, 12000,
        "random problem (1-4 phases, finite and infinite bounds per component, scales 1e-3..1e3) "
        "and optimizer class; every variable's bounds; non-trivial: several phases, or a scale "
        "different from one, or several states",
        lambda s: s["nph"] > 1 or s["nx"] > 1 or "scaled" in gen.spec_labels(s),
        classify=lambda s: gen.spec_labels(s) + [s["cls"]]),
]
