"""Bounded runs of the real code: virtual-time event loop, scenarios, replay.

A scenario is a function case(rng) that drives the public interface of the real package and raises
Violation when what it observes contradicts the property.  It is a bounded check (labelled so) that
cross-checks the contracts and turns a failed obligation into a failing input where it can.
"""
import asyncio
import json
import logging
import os
import random
import re
import selectors
import signal
import sys
import time as _time
import traceback
import warnings

REPO = os.environ.get("PYDV_REPO", "/repo")
sys.path.insert(0, REPO)
warnings.simplefilter("ignore")
logging.disable(logging.CRITICAL)
EPOCH = 1_700_000_000.0
_CUR = [None]
_real_time = _time.time


def _vtime():
    lp = _CUR[0]
    return _real_time() if lp is None else EPOCH + lp._vt + getattr(lp, "_wall", 0)


_real_mono = _time.monotonic


def _vmono():
    lp = _CUR[0]
    return _real_mono() if lp is None else 1000 + lp._vt


def set_clock(by):
    """Set the wall clock (not the monotonic one) forward or back."""
    lp = _CUR[0]
    lp._wall = getattr(lp, "_wall", 0) + by


_time.time = _vtime
_time.time_ns = lambda: int(_vtime() * 1_000_000_000)
_time.monotonic = _time.perf_counter = _vmono
_time.monotonic_ns = _time.perf_counter_ns = lambda: int(_vmono() * 1_000_000_000)


class Violation(Exception):
    """What a scenario reports; remembered, as code under test may catch it (log handlers, retries)."""
    made = []

    def __init__(self, *a):
        super().__init__(*a)
        Violation.made.append(self)


class Stuck(BaseException):
    """Nothing is runnable and no timer is pending."""


class TooLong(BaseException):
    pass


class _Selector(selectors.SelectSelector):
    loop = None

    def select(self, timeout=None):
        lp = self.loop
        lp._steps += 1
        if lp._steps > lp._max_steps:
            raise TooLong(f"more than {lp._max_steps} scheduler steps")
        if timeout is None:
            raise Stuck
        if timeout > 0:
            lp._vt += timeout
            if lp._vt > lp._limit:
                raise TooLong("virtual time limit")
        return []


class VirtualLoop(asyncio.SelectorEventLoop):
    def __init__(self, max_steps=200_000, limit=1e9):
        self._vt = 0.0
        self._steps = 0
        self._max_steps = max_steps
        self._limit = limit
        sel = _Selector()
        super().__init__(sel)
        sel.loop = self
        self._clock_resolution = 1e-9
        self.set_exception_handler(lambda loop, ctx: None)

    def time(self):
        return self._vt


def run(coro_fn, *args, max_steps=200_000, limit=1e9):
    """Run an async scenario in a fresh virtual loop.  Stuck (nothing can happen any more) propagates."""
    loop = VirtualLoop(max_steps, limit)
    prev = _CUR[0]
    _CUR[0] = loop
    asyncio.set_event_loop(loop)
    try:
        return loop.run_until_complete(coro_fn(*args))
    finally:
        try:
            tasks = asyncio.all_tasks(loop)
            for t in tasks:
                t.cancel()
            loop._max_steps = loop._steps + 5000

            async def drain():
                await asyncio.gather(*tasks, return_exceptions=True)
            try:
                if tasks:
                    loop.run_until_complete(asyncio.wait(tasks, timeout=50))
            except (Stuck, TooLong, Exception):
                pass
        finally:
            _CUR[0] = prev
            asyncio.set_event_loop(None)
            try:
                loop.close()
            except Exception:
                pass


def now():
    return _CUR[0]._vt


async def settle(n=30):
    """Let everything that can run now run (no time passes): n turns at least, and until nothing is left to run."""
    loop = asyncio.get_running_loop()
    idle = turns = 0
    while turns < n or (idle < 2 and turns < n + 600):
        await asyncio.sleep(0)
        turns += 1
        idle = 0 if loop._ready else idle + 1


async def jig(rng, p=0.5, most=3):
    """A little scheduling variety."""
    while most > 0 and rng.random() < p:
        await asyncio.sleep(0)
        most -= 1


async def within(aw, t, what):
    """The awaitable finishes within t units of virtual time (and nothing deadlocks)."""
    task = asyncio.ensure_future(aw)
    done, _ = await asyncio.wait([task], timeout=t)
    if not done:
        task.cancel()
        await asyncio.wait([task], timeout=5)
        raise Violation(f"{what}: still blocked after {t} s (virtual)")
    return task.result()


def check(cond, msg):
    if not cond:
        raise Violation(msg() if callable(msg) else msg)


SCENARIOS = {}


def scenario(props, weight=1.0, name=None):
    def deco(fn):
        for p in props.split():
            SCENARIOS.setdefault(p, []).append((name or fn.__name__, fn, weight))
        return fn
    return deco


def _in_repo(tb):
    frames = traceback.extract_tb(tb)
    return any(f.filename.startswith(os.path.join(REPO, "aiok8s")) for f in frames)


_KINDS = [random.Random(0)]


def oops(text):
    """A failure of some kind: what somebody else's code may raise is not always a plain Exception."""
    k = _KINDS[0].randrange(8)
    if k < 2:
        return Exception(text)
    if k == 7:
        return _api(_KINDS[0].choice([410, 404, 409, 429, 500, 503]))
    return (ConnectionRefusedError, TimeoutError, ValueError, KeyError, OSError)[k - 2](text)


def _api(status):
    from kubernetes_asyncio.client import exceptions
    return exceptions.ApiException(status=status)


def run_case(fn, rng):
    _KINDS[0] = random.Random(repr(rng.getstate()[1][:4]))
    """None, or ('violation'|'error', text)."""
    def alarm(*a):
        raise TooLong("the scenario used more than its processor time")
    old = signal.signal(signal.SIGVTALRM, alarm)
    signal.setitimer(signal.ITIMER_VIRTUAL, 60)
    try:
        Violation.made.clear()
        fn(rng)
        return ("violation", str(Violation.made[0])) if Violation.made else None
    except Violation as e:
        return "violation", str(e)
    except Stuck:
        return "violation", "deadlock: nothing can run any more while the scenario is still waiting"
    except TooLong as e:
        return "violation", f"no end: {e}"
    except AssertionError as e:
        return "error", traceback.format_exc()[-1500:]
    except (ImportError,) as e:
        return "error", traceback.format_exc()[-1500:]
    except BaseException as e:
        if isinstance(e, (KeyboardInterrupt, SystemExit)):
            raise
        if Violation.made:
            return "violation", str(Violation.made[0])
        text = "".join(traceback.format_exception(e))[-1800:]
        if isinstance(e, TypeError) and re.match(r"'NoneType' object is not (iterable|subscriptable)|object of type 'NoneType'", str(e)):
            return "violation", f"nothing came back where something was due ({e})\n{text}"
        if _in_repo(e.__traceback__) or isinstance(e, asyncio.CancelledError):
            return "violation", f"unexpected {type(e).__name__}: {e}\n{text}"
        return "error", text
    finally:
        signal.setitimer(signal.ITIMER_VIRTUAL, 0)
        signal.signal(signal.SIGVTALRM, old)


def main(argv):
    prop, budget, seed, out = argv[0], float(argv[1]), int(argv[2]), argv[3]
    res = {"property": prop, "evaluations": 0, "distinct": 0, "failures": [], "errors": [], "samples": [],
           "scenarios": {}}
    t0 = _real_time()
    scs = SCENARIOS.get(prop, [])
    total = sum(w for _, _, w in scs) or 1
    for name, fn, w in scs:
        end = _real_time() + budget * w / total
        n = 0
        while n < 3 or (_real_time() < end and n < 4000):
            key = f"{prop}/{name}/{seed}/{n}"
            rng = random.Random(key)
            r = run_case(fn, rng)
            n += 1
            res["evaluations"] += 1
            if r is not None:
                kind, text = r
                rec = {"scenario": name, "key": key, "what": text}
                if kind == "violation":
                    res["failures"].append(rec)
                else:
                    res["errors"].append(rec)
                break
        res["scenarios"][name] = n
        if n and len(res["samples"]) < 4:
            res["samples"].append({"scenario": name, "key": f"{prop}/{name}/{seed}/{n - 1}", "doc": (fn.__doc__ or "").strip()})
    res["seconds"] = _real_time() - t0
    with open(out, "w") as fh:
        json.dump(res, fh, indent=1)
