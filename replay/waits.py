"""Backoff, polling and loop helpers: C22."""
import asyncio

from lib import check, now, run, scenario, settle, within

EPS = 1e-9


class Boom(Exception):
    pass


def near(lo, x, hi):
    return lo - EPS * max(1, lo) <= x <= hi + EPS * max(1, hi)


def condition(rng, calls, take=False, raises=True):
    """A condition that is true (or raises) at a random call; records when it was called."""
    at = rng.choice([1, 2, 3, 5, 9, 10**9])
    boom = raises and rng.random() < 0.2
    kind = rng.choice([Boom, asyncio.TimeoutError])

    async def f():
        calls.append(now())
        n = len(calls)
        if take:
            await asyncio.sleep(rng.choice([0, 0.25]))
        if n == at:
            if boom:
                raise kind
            return rng.choice([True, 1, "yes"])
        return rng.choice([False, None, 0])
    return f, at, boom


@scenario("C22", 2)
def backing_off(rng):
    from aiok8s.util import wait

    async def go():
        n, d = rng.randrange(0, 8), rng.choice([0, 0.5, 1, 3])
        f, j = rng.choice([0, 1, 1.5, 2, 3]), rng.choice([0, 0, 0.1, 1, 2.5])
        cap = rng.choice([0, 0, 4, 10])
        b = wait.Backoff(steps=n, duration=d, factor=f, jitter=j, cap=cap)
        before = dict(vars(b))
        for _ in range(2):
            calls = []
            cond, at, boom = condition(rng, calls)
            t0 = now()
            try:
                await within(wait.exponential_backoff(b, cond), 1e7, "exponential_backoff")
                how = "done"
            except wait.WaitTimeoutError:
                how = "timeout"
            except (Boom, asyncio.TimeoutError):
                how = "boom"
            conf = f"steps {n} duration {d} factor {f} jitter {j} cap {cap}, true at {at}"
            durs, x, limit = [], d, n
            for i in range(n - 1):
                durs.append(x)
                if f:
                    x *= f
                    if cap and x > cap:
                        x = cap
                        limit = i + 1
                        break
            want = "timeout" if at > limit else ("boom" if boom else "done")
            check(how == want, lambda: f"{conf}: {how} instead of {want} after {len(calls)} attempts")
            check(len(calls) == min(at, limit), lambda: f"{conf}: {len(calls)} attempts")
            for i in range(len(calls) - 1):
                w = calls[i + 1] - calls[i]
                check(near(durs[i], w, durs[i] * (1 + j)), lambda: f"{conf}: wait {i} was {w}, expected {durs[i]}")
            check(vars(b) == before, lambda: f"{conf}: became {vars(b)}")
    run(go, limit=1e9)


@scenario("C22")
def steps(rng):
    from aiok8s.util import wait

    async def go():
        n, d = rng.randrange(0, 6), rng.choice([0, 0.5, 1, 3])
        f, j, cap = rng.choice([0, 1, 1.5, 2, 3]), rng.choice([0, 0, 0.1, 1, 2.5]), rng.choice([0, 0, 4, 10])
        b = wait.Backoff(steps=n, duration=d, factor=f, jitter=j, cap=cap)
        for _ in range(n + 3):
            w = b.step()
            check(near(d, w, d * (1 + j)), lambda: f"a step with duration {d} and jitter {j} waits {w}")
            if n > 0:
                n -= 1
                if f:
                    d *= f
                    if cap and d > cap:
                        d, n = cap, 0
            check(b.duration == d and b.steps == n, lambda: f"next duration {b.duration}, steps {b.steps}; expected {d}, {n}")
        for _ in range(5):
            x, y = rng.choice([0, 1, 0.3, 100]), rng.choice([-1, 0, 0.1, 1, 3])
            w = wait.jitter(x, y)
            check(near(x, w, x * (1 + (y if y > 0 else 1))), lambda: f"jitter({x}, {y}) is {w}")
        x, y = rng.choice([1, 100]), rng.choice([0, -1, 0.5])
        check(any(wait.jitter(x, y) > x for _ in range(60)), lambda: f"jitter({x}, {y}) is always {x}")
    run(go)


@scenario("C22", 2)
def polling(rng):
    from aiok8s.util import wait

    async def go():
        interval, timeout = rng.choice([0.5, 1, 2]), rng.choice([0, 0.25, 1.75, 4.1, 30.3])
        calls = []
        cond, at, boom = condition(rng, calls)
        which = rng.randrange(4)
        immediate, limited = which in (1, 3), which in (0, 1)
        if at > 100 and not limited:
            return
        t0 = now()
        fs = (wait.poll, wait.poll_immediate, wait.poll_infinite, wait.poll_immediate_infinite)
        try:
            await within(fs[which](interval, timeout, cond) if limited else fs[which](interval, cond), 1000, "polling")
            how = "done"
        except wait.WaitTimeoutError:
            how = "timeout"
        except (Boom, asyncio.TimeoutError):
            how = "boom"
        first = 0 if immediate else interval
        due = first + (at - 1) * interval
        want = "timeout" if limited and due > timeout and not (immediate and at == 1) else "boom" if boom else "done"
        conf = f"interval {interval} timeout {timeout if limited else None} immediate {immediate} {'raises' if boom else 'true'} at {at}"
        check(how == want, lambda: f"{conf}: {how}")
        for i, t in enumerate(calls):
            check(near(first + i * interval, t - t0, first + i * interval), lambda: f"{conf}: evaluation {i} at {t - t0}")
        if want != "timeout":
            check(len(calls) == at, lambda: f"{conf}: {len(calls)} evaluations")
        else:
            check(abs(now() - t0 - timeout) < 1e-6, lambda: f"{conf}: gave up after {now() - t0}")
            n = 0
            while first + n * interval <= timeout and (immediate or timeout > 0):
                n += 1
            check(len(calls) in (n, max(n, 1 if immediate else 0)), lambda: f"{conf}: {len(calls)} evaluations, expected {n}")
        k = len(calls)
        await asyncio.sleep(50)
        check(len(calls) == k, f"{conf}: goes on evaluating afterwards")
    run(go, limit=1e6)


@scenario("C22", 2)
def looping(rng):
    from aiok8s.util import wait

    async def go():
        period, factor = rng.choice([0, 0.5, 1, 2]), rng.choice([0, 0, 0.2, 1.5])
        sliding = rng.random() < 0.5
        until = rng.random() < 0.6
        plain = rng.random() < 0.3
        if plain:
            factor, sliding = 0, True
        took = rng.choice([0, 0.25, 3]) if period else rng.choice([0.25, 3])
        starts, ends = [], []
        fails = rng.choice([None, None, 3])
        stop = asyncio.Event()

        async def f():
            check(not stop.is_set() or not until, "called after it was told to stop")
            starts.append(now())
            if took:
                await asyncio.sleep(took)
            if len(starts) == fails:
                raise Boom
            ends.append(now())
        args = [f, period] + ([] if plain else [factor, sliding]) + ([stop] if until else [])
        fn = ((wait.until if plain else wait.jitter_until) if until else (wait.loop if plain else wait.jitter_loop))
        t0 = now()
        task = asyncio.ensure_future(fn(*args))
        at = rng.choice([0, 0.3, 4.1, 9.7])
        if rng.random() < 0.2:
            stop.set()
            at = 0
        elif at:
            await asyncio.sleep(at)
        else:
            await settle(4)
        n_at = len(starts)
        stop.set()
        if until and not task.done():
            await asyncio.wait([task], timeout=took + 0.01)
            check(task.done(), "until goes on after the stop event was set")
        await settle(3)
        if not until and not task.done():
            check(fails is None or len(starts) < fails or len(starts) == fails and len(ends) < fails, "loop goes on after an exception")
            task.cancel()
            await asyncio.wait([task], timeout=10)
        else:
            e = task.exception()
            check(isinstance(e, Boom) if fails is not None and len(starts) >= fails else (e is None and until), lambda:
                  f"ended with {e!r} after {len(starts)} calls")
        for i in range(len(starts) - 1):
            base = ends[i] if sliding else starts[i]
            w = starts[i + 1] - base
            lo, hi = period, period * (1 + factor)
            if not sliding:
                lo, hi = max(lo, took), max(hi, took)
            check(near(lo, w, hi), lambda: f"period {period} factor {factor} sliding {sliding} took {took}: call {i + 1} came after {w}")
    run(go, limit=1000)
