"""Core of the property-based testing machinery: sub-checks, oracles' helper
exceptions and the loop that generates, judges and shrinks cases."""
import contextlib
import hashlib
import json
import os
import sys
import time
import traceback
import zlib
from collections import Counter

from . import env  # noqa: F401  (sets the paths)
from .env import np


class Violation(Exception):
    """The code under test broke the property on this case."""


class Inconclusive(Exception):
    """The case decides nothing (e.g. a solver that did not converge where
    convergence is no part of the property).  Counted, never reported."""


def fail(msg, **info):
    extra = "; ".join(f"{k}={_short(v)}" for k, v in info.items())
    raise Violation(msg + (" [" + extra + "]" if extra else ""))


def _short(v, n=300):
    if isinstance(v, np.ndarray):
        v = np.array2string(v, threshold=20, precision=8)
    s = str(v).replace("\n", " ")
    return s if len(s) <= n else s[:n] + "..."


@contextlib.contextmanager
def reading(what):
    """Anything that goes wrong while taking a result of the code under test
    apart means that the result is malformed."""
    try:
        yield
    except (Violation, Inconclusive):
        raise
    except (AttributeError, TypeError, ValueError, IndexError, KeyError,
            RuntimeError, AssertionError, ZeroDivisionError, NotImplementedError) as e:
        if _repo_frame(e):
            raise
        raise Violation(f"malformed result: {what}: {type(e).__name__}: {e}")


def arr(v, what="value"):
    """numpy float array of anything array-like that casadi / numpy return."""
    with reading(what):
        if hasattr(v, "full"):
            return np.array(v.full(), dtype=float)
        if isinstance(v, (list, tuple)):
            v = [arr(e, what) if hasattr(e, "full") else e for e in v]
        return np.array(v, dtype=float)


def check_close(got, want, tol, what, scale=None):
    got, want = arr(got, what), np.asarray(want, dtype=float)
    if got.shape != want.shape:
        if got.size == want.size and got.ravel().shape == want.ravel().shape and (
            min(got.ndim, want.ndim) <= 1 or 1 in got.shape
        ):
            got = got.reshape(want.shape)
        else:
            fail(f"{what}: wrong shape", got=got.shape, want=want.shape)
    if got.size == 0:
        return
    if not np.all(np.isfinite(got) | ~np.isfinite(want)):
        fail(f"{what}: not finite", got=got, want=want)
    s = 1.0 if scale is None else scale
    bad = ~((got == want) | (np.abs(got - want) <= tol * np.maximum(s, np.abs(want))))
    if bad.any():
        i = np.unravel_index(np.argmax(bad), bad.shape)
        fail(
            f"{what}: differs",
            at=tuple(int(k) for k in i),
            got=got[i],
            want=want[i],
            n_bad=int(bad.sum()),
            n=int(bad.size),
            tol=tol,
        )


def check_true(cond, what, **info):
    if not cond:
        fail(what, **info)


class Sub:
    """One executable check of a property: strategy -> JSON case -> judge."""

    def __init__(self, name, strategy, check, quick, thorough, rule,
                 nontrivial=None, corpus=(), classify=None):
        self.name = name
        self.strategy = strategy  # callable: tier -> hypothesis strategy
        self.check = check
        self.counts = {"quick": quick, "thorough": thorough}
        self.rule = rule
        self.nontrivial = nontrivial or (lambda case: True)
        self.corpus = list(corpus)
        self.classify = classify or (lambda case: [])


def _repo_frame(exc):
    tb = exc.__traceback__
    found = None
    while tb is not None:
        fn = os.path.abspath(tb.tb_frame.f_code.co_filename)
        if fn.startswith(env.MP_DIR + os.sep):
            found = f"{tb.tb_frame.f_code.co_name}:{tb.tb_lineno}"
        tb = tb.tb_next
    return found


READ_ERRORS = (TypeError, ValueError, IndexError, KeyError, RuntimeError, ZeroDivisionError, AssertionError,
               AttributeError, OverflowError, FloatingPointError)


def _missing_interface(e):
    """An attribute of the module, a class or an object of the code under
    test is missing."""
    if not isinstance(e, AttributeError):
        return False
    o = getattr(e, "obj", None)
    t = o if isinstance(o, type) else type(o)
    return o is env.mp or getattr(t, "__module__", "") == env.mp.__name__


def judge(sub, case):
    """Run one case.  Returns ('ok'|'violation'|'inconclusive', message)."""
    with class_settings():
        # summaries on (shipped setting) in a fifth of the cases; they go to the worker's log
        env.mp.mpopt._MUTE_ = zlib.crc32(canon(case).encode()) % 5 != 0
        try:
            sub.check(case)
            return "ok", ""
        except Violation as e:
            return "violation", str(e)
        except Inconclusive as e:
            return "inconclusive", str(e)
        except Exception as e:
            where = _repo_frame(e)
            if where is None:
                # the harness could not take a result apart: the result is
                # malformed, unless the interface itself is missing
                if isinstance(e, READ_ERRORS) and not _missing_interface(e):
                    frame = traceback.extract_tb(e.__traceback__)[-1]
                    return ("violation", f"malformed result: {type(e).__name__}: {_short(e)} "
                            f"(at {os.path.basename(frame.filename)}:{frame.name})")
                raise
            return (
                "violation",
                f"raised on a valid input: {type(e).__name__} at {where}: {_short(e)}",
            )
        finally:
            plt_close()


NOTES = []


def note(label):
    """Called by a check to count what a case turned out to exercise."""
    NOTES.append(label)


def plt_close():
    m = sys.modules.get("matplotlib.pyplot")
    if m is not None and m.get_fignums():
        m.close("all")


@contextlib.contextmanager
def class_settings():
    """The documented class-level settings start every case at their shipped
    values (captured once per process) and are put back afterwards."""
    mp = env.mp
    _restore()
    try:
        yield
    finally:
        _restore()


@contextlib.contextmanager
def loud(on=True):
    """The optimizers' summaries are switched on (shipped setting); what they
    print is discarded."""
    if not on:
        yield
        return
    import io

    mp = env.mp
    before = mp.mpopt._MUTE_
    mp.mpopt._MUTE_ = False
    try:
        with contextlib.redirect_stdout(io.StringIO()):
            yield
    finally:
        mp.mpopt._MUTE_ = before


_SETTINGS = None


def _setting_slots():
    mp = env.mp
    return [
        (mp.Collocation, "D_MATRIX_METHOD"),
        (mp.CollocationRoots, "_TAU_MIN"),
        (mp.CollocationRoots, "_TAU_MAX"),
        (mp.mpopt, "_GRID_TYPE"),
        (mp.mpopt, "_MAX_GRID_POINTS"),
        (mp.mpopt, "_MUTE_"),
        (mp.mpopt_h_adaptive, "_TOL_RESIDUAL"),
        (mp.mpopt_h_adaptive, "_SEG_WIDTH_MIN"),
        (mp.mpopt_h_adaptive, "_SEG_WIDTH_MAX"),
        (mp.mpopt_h_adaptive, "_TOL_SEG_WIDTH_CHANGE"),
        (mp.mpopt_h_adaptive, "_THRESHOLD_SLOPE"),
        (mp.mpopt_h_adaptive, "_DEFAULT_METHOD"),
        (mp.mpopt_h_adaptive, "_DEFAULT_SUB_METHOD"),
        (mp.mpopt_adaptive, "_TOL_RESIDUAL"),
        (mp.mpopt_adaptive, "_SEG_WIDTH_MIN"),
        (mp.mpopt_adaptive, "_SEG_WIDTH_MAX"),
        (mp.post_process, "_INTERPOLATION_NODES_PER_SEG"),
    ]


def _restore():
    global _SETTINGS
    if _SETTINGS is None:
        _SETTINGS = [
            (c, n, getattr(c, n)) for c, n in _setting_slots() if hasattr(c, n)
        ]
        return
    for c, n, v in _SETTINGS:
        if getattr(c, n, None) != v:
            setattr(c, n, v)


def canon(case):
    return json.dumps(case, sort_keys=True, separators=(",", ":"))


class SubResult:
    def __init__(self, name):
        self.name = name
        self.evaluations = 0
        self.keys = set()
        self.labels = Counter()
        self.samples = []
        self.inconclusive = Counter()
        self.skipped_for_time = 0
        self.violation = None  # {"case":..., "message":...}

    def as_dict(self):
        return {
            "name": self.name,
            "evaluations": self.evaluations,
            "keys": sorted(self.keys),
            "labels": dict(self.labels),
            "samples": self.samples,
            "inconclusive": dict(self.inconclusive),
            "skipped_for_time": self.skipped_for_time,
            "violation": self.violation,
        }


# multiples of the counts: quick tier by the cost of a case, thorough tier
SOLVED = {f"C{i}" for i in (*range(21, 26), *range(27, 32))}
SOLVING, EVALUATING, DEEP = 2, 4, 3


def planned(prop, sub, tier):
    """Number of generated cases of a sub-check."""
    k = DEEP if tier == "thorough" else SOLVING if prop in SOLVED else EVALUATING
    return sub.counts[tier] * k


def run_sub(sub, prop, seed, shard, nshards, tier, deadline, current_file=None):
    """Judge the corpus and this shard's share of the generated cases."""
    import hypothesis
    from hypothesis import HealthCheck, Phase, given, settings
    from hypothesis.internal.conjecture import engine

    engine.MAX_SHRINKING_SECONDS = 45
    res = SubResult(sub.name)
    last = {}
    counting = {"on": True}

    def evaluate(case):
        if current_file:
            with open(current_file, "w") as f:
                json.dump({"sub": sub.name, "case": case, "t": time.time()}, f)
        NOTES.clear()
        status, msg = judge(sub, case)
        if counting["on"]:
            res.evaluations += 1
            res.labels.update(NOTES)
            if status == "inconclusive":
                res.inconclusive[msg[:80]] += 1
            elif sub.nontrivial(case):
                c = canon(case)
                k = hashlib.blake2b(c.encode(), digest_size=8).hexdigest()
                if k not in res.keys:
                    res.keys.add(k)
                    if len(res.samples) < 2 and len(c) < 6000:
                        res.samples.append(case)
            for lb in sub.classify(case):
                res.labels[lb] += 1
        if status == "violation":
            counting["on"] = False
            last["case"], last["message"] = case, msg
            raise Violation(msg)

    try:
        for i, case in enumerate(sub.corpus):
            if i % nshards == shard:
                evaluate(json.loads(canon(case)))
    except Violation:
        res.violation = dict(last)
        return res

    n = planned(prop, sub, tier)
    mine = n // nshards + (1 if shard < n % nshards else 0)
    if mine == 0:
        return res
    h = hashlib.sha256(f"{prop}/{sub.name}/{seed}/{shard}/{tier}".encode()).digest()
    hseed = int.from_bytes(h[:8], "big")

    @hypothesis.seed(hseed)
    @settings(
        max_examples=mine,
        database=None,
        deadline=None,
        phases=(Phase.generate, Phase.shrink),
        suppress_health_check=list(HealthCheck),
        report_multiple_bugs=False,
        print_blob=False,
    )
    @given(sub.strategy(tier))
    def test(case):
        if counting["on"] and time.time() > deadline:
            res.skipped_for_time += 1
            return
        evaluate(json.loads(canon(case)))

    try:
        test()
    except BaseException as e:
        if isinstance(e, (KeyboardInterrupt, SystemExit)):
            raise
        if "case" not in last:
            raise
        # a violation (or Hypothesis' complaint about an unstable one):
        # the last failing case is the smallest Hypothesis found
        res.violation = dict(last)
    return res


def run_shard(module, prop, seed, shard, nshards, tier, budget, current_file=None):
    t0 = time.time()
    out = []
    subs = module.SUBS
    # the time budget is shared out in proportion to the weight of the subs
    weights = [getattr(s, "weight", 1.0) for s in subs]
    for i, sub in enumerate(subs):
        left = budget - (time.time() - t0)
        share = max(left * weights[i] / sum(weights[i:]), 5.0)
        r = run_sub(
            sub, prop, seed, shard, nshards, tier, time.time() + share, current_file
        )
        out.append(r.as_dict())
        if r.violation is not None:
            break
    return out


def format_exc():
    return traceback.format_exc()
