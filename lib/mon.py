"""Monitor kernel: scenarios, oracle assertions, event counters, replay."""
import hashlib, json, os, random, sys, time, traceback


class Violation(Exception):
    def __init__(self, msg, tag="", details=None):
        Exception.__init__(self, msg)
        self.tag = tag
        self.details = details or {}


class Skip(Exception):
    """The generated case is outside the property's domain."""


class Scenario(object):
    def __init__(self, name, fn, quick, thorough, need=None, rule=""):
        self.name, self.fn = name, fn
        self.quick, self.thorough = quick, thorough
        self.need = need or {}      # event kind -> minimum number expected per run
        self.rule = rule


SCENARIOS = []


def scenario(quick, thorough=None, need=None):
    """Register fn(ctx). quick/thorough: number of cases. need: {event: min count}
    (counts below it make the run inconclusive)."""
    def deco(fn):
        SCENARIOS.append(Scenario(fn.__name__, fn, quick, thorough or quick * 12, need,
                                  (fn.__doc__ or "").strip()))
        return fn
    return deco


class Ctx(object):
    def __init__(self, seed, name, index, rec):
        h = hashlib.sha256(("%s|%s|%s" % (seed, name, index)).encode()).digest()
        self.rng = random.Random(int.from_bytes(h[:8], "big"))
        self.name, self.index = name, index
        self.rec = rec
        self.log = []
        self.key = None
        self.tmp = rec.tmp

    # -- observation ----------------------------------------------------
    def event(self, kind, n=1):
        ev = self.rec.events
        k = self.name + ":" + kind
        ev[k] = ev.get(k, 0) + n

    def note(self, **kw):
        """describe the case (goes to the replay file and to the samples)"""
        self.log.append(kw)

    def distinct(self, *key):
        """declare what makes this case distinct and non-trivial"""
        self.rec.keys.add(hashlib.sha256(repr((self.name,) + key).encode()).hexdigest()[:16])

    def check(self, cond, msg, tag="", **details):
        self.rec.checks += 1
        if not cond:
            raise Violation(msg, tag, details)

    def eq(self, got, want, msg, tag=""):
        self.rec.checks += 1
        if not (got == want):
            raise Violation(msg, tag, {"got": got, "want": want})

    def close(self, got, want, tol, msg, tag=""):
        self.rec.checks += 1
        if got != got and want != want:
            return
        if not (abs(got - want) <= tol):
            raise Violation(msg, tag, {"got": got, "want": want, "tol": tol})

    def arr_eq(self, got, want, msg, tag="", rtol=0.0, atol=0.0):
        import numpy as np
        self.rec.checks += 1
        got = np.asarray(got)
        want = np.asarray(want)
        if got.shape != want.shape:
            raise Violation(msg + ": shape", tag, {"got": got.shape, "want": want.shape})
        if rtol or atol:
            with np.errstate(all="ignore"):
                ok = (abs(got - want) <= atol + rtol * abs(want)) | (got == want)
                if got.dtype.kind in "fc" and want.dtype.kind in "fc":
                    ok = ok | ((got != got) & (want != want))
        else:
            with np.errstate(all="ignore"):
                ok = (got == want)
                if got.dtype.kind in "fc" and want.dtype.kind in "fc":
                    ok = ok | (np.isnan(got) & np.isnan(want))
        if not np.all(ok):
            bad = np.argwhere(~np.atleast_1d(ok))[0].tolist()
            ix = tuple(bad) if got.ndim else ()
            raise Violation(msg, tag, {"at": bad, "got": repr(got[ix]), "want": repr(want[ix]),
                                       "n_bad": int((~np.atleast_1d(ok)).sum())})

    def raises(self, exc, fn, msg, tag=""):
        self.rec.checks += 1
        try:
            r = fn()
        except exc:
            return
        raise Violation(msg, tag, {"got": r})


class Recorder(object):
    def __init__(self, tmp):
        self.events, self.keys, self.checks = {}, set(), 0
        self.cases, self.skipped, self.cpu = {}, {}, {}
        self.violations, self.samples = [], []
        self.tmp = tmp


def jsonable(x, depth=0):
    if isinstance(x, (str, int, bool)) or x is None:
        return x if not isinstance(x, str) else x[:4000]
    if isinstance(x, float):
        return x if x == x and abs(x) != float("inf") else repr(x)
    if isinstance(x, dict):
        return {str(k): jsonable(v, depth + 1) for k, v in list(x.items())[:60]}
    if isinstance(x, (list, tuple)) and depth < 6:
        return [jsonable(v, depth + 1) for v in list(x)[:400]]
    return repr(x)[:2000]


def run_case(sc, seed, index, rec):
    t0 = time.time()
    try:
        return _run_case(sc, seed, index, rec)
    finally:
        rec.cpu[sc.name] = rec.cpu.get(sc.name, 0.0) + time.time() - t0


def _run_case(sc, seed, index, rec):
    ctx = Ctx(seed, sc.name, index, rec)
    rec.cases[sc.name] = rec.cases.get(sc.name, 0) + 1
    try:
        sc.fn(ctx)
    except Skip:
        rec.skipped[sc.name] = rec.skipped.get(sc.name, 0) + 1
    except Violation as e:
        rec.violations.append(dict(scenario=sc.name, index=index, seed=seed, tag=e.tag,
                                   message=str(e), details=jsonable(e.details), case=jsonable(ctx.log)))
    except MemoryError:
        rec.violations.append(dict(scenario=sc.name, index=index, seed=seed, tag="exception:MemoryError",
                                   message="MemoryError", details={}, case=jsonable(ctx.log)))
    except Exception as e:
        tb = traceback.format_exc()
        rec.violations.append(dict(scenario=sc.name, index=index, seed=seed,
                                   tag="exception:" + type(e).__name__,
                                   message="unexpected exception: %s: %s" % (type(e).__name__, e),
                                   details={"traceback": tb[-3000:]}, case=jsonable(ctx.log)))
    if ctx.log and len(rec.samples) < 400:
        ns = sum(1 for s in rec.samples if s["scenario"] == sc.name)
        if ns < 2:
            rec.samples.append(dict(scenario=sc.name, index=index, case=jsonable(ctx.log)))
    return rec
