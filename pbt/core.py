"""Facets, oracles' comparison helpers and the Hypothesis driver."""
import hashlib
import importlib
import json
import os
import re
import sys
import time
import traceback

import numpy as np

from . import env


class Violation(Exception):
    """The property is broken by the current case."""


class Reject(Exception):
    """The case is outside the property's domain (counted, never a pass)."""


def fail(msg, *args):
    raise Violation(msg.format(*args) if args else msg)


def C(fn, /, *args, **kwargs):
    """Call the code under test; an exception out of it is a violation."""
    try:
        return fn(*args, **kwargs)
    except (Violation, Reject):
        raise
    except Exception as e:  # noqa: BLE001
        tb = traceback.extract_tb(e.__traceback__)
        where = [f for f in tb if f.filename.startswith(env.REPO)]
        loc = "{0}:{1}".format(where[-1].filename, where[-1].lineno) if where else "?"
        raise Violation(
            "calling {0} raised {1}: {2} [{3}]".format(
                getattr(fn, "__name__", fn), type(e).__name__, str(e)[:300], loc
            )
        ) from e


def must_raise(kinds, fn, /, *args, **kwargs):
    """The call must be rejected with one of the exception kinds."""
    try:
        r = fn(*args, **kwargs)
    except kinds:
        return
    except Exception as e:  # noqa: BLE001
        fail("expected {0}, got {1}: {2}", kinds, type(e).__name__, str(e)[:200])
    fail("expected {0}, but the call returned {1!r:.200}", kinds, r)


_API = {}


def api(path):
    """Public name of the package, e.g. 'dsps.sed:calc_rest_sed_...'."""
    if path not in _API:
        mod, name = path.split(":")
        m = C(importlib.import_module, mod)
        if not hasattr(m, name):
            fail("public name {0} is missing from {1}", name, mod)
        _API[path] = getattr(m, name)
    return _API[path]


def helper(path):
    """Internal name that may be renamed freely: None when it is gone."""
    if path not in _API:
        mod, name = path.split(":")
        m = C(importlib.import_module, mod)
        _API[path] = getattr(m, name, None)
    return _API[path]


def A(x, what="result"):
    """numpy view of a result, which must be real floating point and double."""
    a = np.asarray(x)
    if a.dtype.kind not in "fiub":
        fail("{0} has dtype {1}", what, a.dtype)
    return a


def finite(x, what="result"):
    a = A(x, what)
    if not np.all(np.isfinite(a)):
        i = np.argwhere(~np.isfinite(a))[0].tolist()
        fail("{0} is not finite at index {1}: {2}", what, i, a[tuple(i)])
    return a


# largest error/tolerance seen per comparison (PBT_MARGINS=<file>: a development aid)
MARGINS = {} if os.environ.get("PBT_MARGINS") else None


def margin(what, ratio):
    if MARGINS is not None and ratio == ratio:
        key = re.sub(r"[-+.0-9e]*[0-9][-+.0-9e]*", "#", what)
        MARGINS[key] = max(MARGINS.get(key, 0.0), float(ratio))


def close(got, want, rtol=0.0, atol=0.0, what="result", shape=None):
    """|got-want| <= rtol*|want| + atol everywhere; shapes equal; NaN only with NaN,
    infinities equal. atol may be an array."""
    g = A(got, what)
    w = np.asarray(want, dtype=float)
    if g.shape != w.shape:
        fail("{0} has shape {1}, expected {2}", what, g.shape, w.shape)
    g = g.astype(float)
    with np.errstate(all="ignore"):
        tol = rtol * np.abs(w) + atol
        err = np.abs(g - w)
        same = (g == w) | (np.isnan(g) & np.isnan(w))
        bad = ~(same | (err <= tol))
        if MARGINS is not None and err.size:
            margin(what, np.max(np.where(same, 0.0, err / np.where(tol > 0, tol, 1e-300))))
    if np.any(bad):
        k = np.argwhere(bad)
        with np.errstate(all="ignore"):
            excess = np.where(bad, err / np.where(tol > 0, tol, 1e-300), 0.0)
            excess = np.where(np.isnan(excess), np.inf, excess)
        i = np.unravel_index(int(np.argmax(excess)), g.shape) if g.shape else ()
        t = np.broadcast_to(tol, g.shape)
        fail(
            "{0}[{1}] = {2!r} but expected {3!r} (tolerance {4:.3g}; {5} of {6} entries differ)",
            what,
            ",".join(str(int(j)) for j in i),
            float(g[i]),
            float(w[i]),
            float(t[i]),
            len(k),
            g.size,
        )
    return g


def between(x, lo, hi, what="result", tol=0.0):
    a = finite(x, what)
    if np.any(a < lo - tol) or np.any(a > hi + tol):
        bad = (a < lo - tol) | (a > hi + tol)
        i = np.argwhere(bad)[0].tolist()
        fail("{0}{1} = {2!r} is outside [{3}, {4}]", what, i, a[tuple(i)], lo, hi)
    return a


def same(a, b, what="result"):
    """Bitwise identical arrays (NaN equal to NaN)."""
    a, b = np.asarray(a), np.asarray(b)
    if a.shape != b.shape or a.dtype != b.dtype:
        fail("{0}: {1}{2} vs {3}{4}", what, a.dtype, a.shape, b.dtype, b.shape)
    if not np.array_equal(a, b, equal_nan=a.dtype.kind == "f"):
        fail("{0} differs: {1!r:.300} vs {2!r:.300}", what, a, b)


class Ctx:
    """What one evaluation reports about its case."""

    def __init__(self, tier, shard):
        self.tier, self.shard = tier, shard
        self.labels = []
        self.nontrivial = False

    def label(self, *names):
        self.labels.extend(str(n) for n in names)

    def nt(self, flag=True):
        self.nontrivial = self.nontrivial or bool(flag)


class Facet:
    """One executable check of (a part of) a property.

    strategy(tier, shard) -> Hypothesis strategy producing a JSON-able case
    run(case, ctx)        -> raises Violation when the case breaks the property
    quick/thorough        -> examples per shard
    """

    def __init__(self, name, strategy, run, quick, thorough=None, qshards=1, tshards=4, cost=1.0):
        self.name, self.strategy, self.run = name, strategy, run
        self.quick = quick
        self.thorough = thorough if thorough is not None else quick * 20
        self.qshards, self.tshards, self.cost = qshards, tshards, cost


def seed_int(*parts):
    h = hashlib.sha256(":".join(str(p) for p in parts).encode()).digest()
    return int.from_bytes(h[:8], "big")


def canon(case):
    return json.dumps(case, sort_keys=True)


def classify(fn, case, ctx):
    """Runs one case. Returns ('ok'|'reject'|'violation'|'error', message)."""
    try:
        fn(case, ctx)
        return "ok", ""
    except Violation as e:
        return "violation", str(e)
    except Reject as e:
        return "reject", str(e)
    except Exception as e:  # noqa: BLE001
        # an exception out of the repository's own code is a violation,
        # one out of the harness is an error of the check
        tb = traceback.extract_tb(e.__traceback__)
        inrepo = [f for f in tb if f.filename.startswith(env.REPO + os.sep)]
        txt = "{0}: {1}".format(type(e).__name__, str(e)[:500])
        if inrepo:
            f = inrepo[-1]
            return "violation", "raised {0} [{1}:{2}]".format(txt, f.filename, f.lineno)
        if isinstance(e, FORM):
            # judging the answer failed: it has another type, structure or set of names
            f = tb[-1]
            return "violation", "the result is not of the expected form: {0} [{1}:{2}]".format(txt, os.path.basename(f.filename), f.lineno)
        return "error", "".join(traceback.format_exception(e))[-4000:]


FORM = (AttributeError, TypeError, IndexError, KeyError, ValueError, ZeroDivisionError, FileNotFoundError)


class HarnessError(Exception):
    pass


def even_backend():
    """Independent, evenly spread draws.

    Hypothesis' own generator favours small integers (of integers(0, 2**20) six in seven fall
    into the lowest tenth) and re-uses parts of earlier cases, so that a number drawn 400 times
    takes some 70 values. Failures are still shrunk by Hypothesis itself."""
    from hypothesis.internal.conjecture import providers

    if "pbt-even" in providers.AVAILABLE_PROVIDERS:
        return "pbt-even"

    class Even(providers.HypothesisProvider):
        def draw_integer(self, min_value=None, max_value=None, *, weights=None, shrink_towards=0):
            r = self._random
            if min_value is not None and max_value is not None:
                u = r.random()
                if u < 0.94 or max_value - min_value < 64:
                    return r.randint(min_value, max_value)
                if u < 0.98:
                    return r.choice((min_value, max_value))
            return super().draw_integer(min_value, max_value, weights=weights, shrink_towards=shrink_towards)

    providers.AVAILABLE_PROVIDERS["pbt-even"] = Even
    return "pbt-even"


# multiplies the quick number of cases: slow-compiling checks less
QUICK_SCALE = dict(C01=2, C02=1, C03=2, C04=2, C05=2, C06=1, C07=1, C08=2, C09=2, C10=2, C11=1, C13=2, C14=2, C27=1, C32=1, C33=1, C35=1, C38=2)

SHRINK_SECONDS = {"quick": 45.0, "thorough": 120.0}


def drive(prop, facet, tier, shard, seed, budget):
    """Runs one (facet, shard) under Hypothesis. Returns a result dict."""
    env.add_hypothesis_path()
    import hypothesis
    from hypothesis import HealthCheck, Phase, given, settings

    n = facet.quick * (QUICK_SCALE.get(prop, 3) if facet.quick > 1 else 1) if tier == "quick" else facet.thorough
    st = dict(
        prop=prop, facet=facet.name, shard=shard, evaluations=0, rejected=0,
        nontrivial=0, budget_hit=False, labels={}, samples=[], violation=None,
        error=None, hashes=[],
    )
    seen = {}
    t0 = time.monotonic()
    fail_state = dict(t=None, case=None, msg=None)
    cap = SHRINK_SECONDS[tier]

    def body(case):
        now = time.monotonic()
        if fail_state["t"] is None:
            if now - t0 > budget:
                st["budget_hit"] = True
                return
        elif now - fail_state["t"] > cap:
            return
        ctx = Ctx(tier, shard)
        kind, msg = classify(facet.run, case, ctx)
        if kind == "error":
            st["error"] = msg + "\ncase: " + canon(case)[:2000]
            raise HarnessError(msg)
        if kind == "violation":
            if fail_state["t"] is None:
                fail_state["t"] = time.monotonic()
            fail_state["case"], fail_state["msg"] = case, msg
            raise Violation(msg)
        if fail_state["t"] is not None:
            return  # shrinking: do not count
        if kind == "reject":
            st["rejected"] += 1
            return
        st["evaluations"] += 1
        for lb in set(ctx.labels):
            st["labels"][lb] = st["labels"].get(lb, 0) + 1
        if ctx.nontrivial:
            key = hashlib.sha1(canon(case).encode()).hexdigest()[:16]
            if key not in seen:
                seen[key] = True
                st["nontrivial"] += 1
                if len(st["samples"]) < 2 or (
                    len(st["samples"]) < 3 and st["nontrivial"] > 20
                ):
                    st["samples"].append(case)

    test = given(facet.strategy(tier, shard))(body)
    test = settings(
        max_examples=n, database=None, deadline=None, derandomize=False,
        suppress_health_check=list(HealthCheck), print_blob=False,
        report_multiple_bugs=False, backend=even_backend(), phases=[Phase.generate, Phase.shrink],
        verbosity=hypothesis.Verbosity.quiet,
    )(test)
    test = hypothesis.seed(seed_int(seed, prop, facet.name, shard))(test)
    try:
        test()
    except BaseException as e:  # noqa: BLE001
        if isinstance(e, (KeyboardInterrupt, SystemExit)):
            raise
        if fail_state["case"] is None and st["error"] is None:
            st["error"] = "".join(traceback.format_exception(e))[-4000:]
    if fail_state["case"] is not None:
        st["violation"] = dict(case=fail_state["case"], msg=fail_state["msg"])
    st["hashes"] = sorted(seen)
    st["wall_s"] = round(time.monotonic() - t0, 2)
    return st


def load_prop(pid):
    return importlib.import_module("pbt.props." + pid.lower())
