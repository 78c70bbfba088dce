"""Delaying and rate-limited work queues: C04 (rate-limited adds also C05)."""
import asyncio

from lib import check, jig, now, run, scenario, settle, within


def fake(rng, t=None):
    """A queue with a fake clock, and a consumer that says what it is given and when."""
    from aiok8s.util import clock
    from aiok8s.workqueue import delaying_queue
    c = clock.FakeClock(rng.choice([0.0, 100.0, -7.5]) if t is None else t)
    q = delaying_queue._DelayingType(c)
    return c, q


def consumer(q, c, got):
    async def consume():
        while True:
            x, down = await q.get()
            if down:
                return
            got.append((x, c.now()))
            await q.done(x)
    return asyncio.ensure_future(consume())


def delay(rng):
    k = rng.random()
    if k < 0.15:
        return rng.choice([0, -1, -0.25])
    return rng.choice([rng.randrange(1, 8), rng.randrange(1, 80) / 8, 0.125, 60.0])


def grouped(pairs):
    """Deliveries in order; items of equal times in any order."""
    out = []
    for t, x in pairs:
        if out and out[-1][0] == t:
            out[-1][1].append(x)
        else:
            out.append((t, [x]))
    return out


def same(got, expected):
    """got: items in order; expected: (time, item) in order, any order among equal times."""
    i = 0
    for t, xs in grouped(expected):
        if sorted(map(str, got[i:i + len(xs)])) != sorted(map(str, xs)):
            return False
        i += len(xs)
    return i == len(got)


@scenario("C04", 3)
def stepped(rng):
    """Delayed adds and clock steps, everything at rest in between: what is delivered, when, in which order."""
    async def go():
        c, q = fake(rng)
        got = []
        consumer(q, c, got)
        await settle()
        wait, trace = {}, []
        things = ["i0", 1, ("t", 2), frozenset([3]), None, 2.5]
        for _ in range(rng.randrange(3, 25)):
            got.clear()
            expected = []
            if rng.random() < 0.6:
                calls = [(rng.choice(things), delay(rng)) for _ in range(rng.choice([1, 1, 1, 2, 3]))]
                trace.append(("add_after", calls))
                t = c.now()
                for x, d in calls:
                    if d > 0:
                        wait[x] = min(wait.get(x, t + d), t + d)
                    await q.add_after(x, d)
                    if rng.random() < 0.7 or d <= 0:
                        await settle()
                    if d <= 0:
                        expected.append((t, x))
                await settle()
            else:
                dt = rng.choice([0.125, 0.5, 1, 2.5, 5, 9.75, 11, 30])
                trace.append(("step", dt))
                await c.step(dt)
                await settle(60)
                t = c.now()
                due = sorted(((r, x) for x, r in wait.items() if r <= t), key=lambda p: p[0])
                for r, x in due:
                    del wait[x]
                expected = due
            check(all(tt == t for _, tt in got), lambda: f"delivered at another time: {got} at {t} after {trace}")
            check(same([x for x, _ in got], expected), lambda: f"delivered {got} at {t}, expected {expected}; waiting "
                  f"{wait}; after {trace}")
    run(go, limit=1e6)


@scenario("C04", 2)
def overtaken(rng):
    """A second, earlier delayed add of a waiting item, with the clock moving on before the loop has seen it."""
    async def go():
        c, q = fake(rng)
        got = []
        consumer(q, c, got)
        t0 = c.now()
        far = rng.choice([10, 20, 50])
        others = {f"o{k}": rng.choice([far + 1 + k, far * 2 + k]) for k in range(rng.randrange(3))}
        for x, d in others.items():
            await q.add_after(x, d)
        await q.add_after("x", far)
        await settle()
        near = rng.choice([0.5, 1, 2])
        more = rng.random() < 0.3
        ts = [asyncio.ensure_future(q.add_after("x", near))]
        for _ in range(rng.randrange(1, 6)):
            await asyncio.sleep(0)
        step = rng.choice([near, near + 1, 5])
        await c.step(step)
        if more:
            await asyncio.sleep(0)
            await c.step(0.25)
        await settle(60)
        check(all(t.done() for t in ts), "add_after does not return")
        check([x for x, _ in got] == ["x"], lambda: f"x was added with delays {far} and {near}; {c.now() - t0} later it was "
              f"delivered {len(got)} times")
        await c.step(far)
        await settle(60)
        n = [x for x, _ in got].count("x")
        check(n == 1, f"x, waiting with delay {far}, was given an earlier time {near} and was delivered {n} times")
        for x, d in others.items():
            await c.step(d)
            await settle(60)
            check([y for y, _ in got].count(x) == 1, f"{x} was delivered {[y for y, _ in got].count(x)} times")
    run(go, limit=1e6)


@scenario("C04")
def together(rng):
    """A delayed add that arrives about when the next item becomes due."""
    async def go():
        c, q = fake(rng)
        got = []
        consumer(q, c, got)
        for n in range(rng.randrange(1, 6)):
            got.clear()
            d = rng.choice([1, 5, 9, 12])
            await q.add_after("x", d)
            await settle()
            if rng.random() < 0.5:
                await c.step(d / 2)
                await settle()
                d = d / 2
            near = rng.choice([d, d / 4, 2 * d])
            k, before = rng.randrange(8), rng.random() < 0.5
            if before:
                t = asyncio.ensure_future(q.add_after("y", near))
                for _ in range(k):
                    await asyncio.sleep(0)
            await c.step(d)
            if not before:
                for _ in range(k):
                    await asyncio.sleep(0)
                t = asyncio.ensure_future(q.add_after("y", near))
            await settle(60)
            check(t.done(), "add_after does not return")
            await c.step(2 * d + 10)
            await settle(60)
            for x in "xy":
                m = [z for z, _ in got].count(x)
                check(m == 1, lambda: f"{x} was delivered {m} times; x due after {d}, y added with delay {near} "
                      f"{k} steps {'before' if before else 'after'}")
    run(go, limit=1e6)


@scenario("C04", 2)
def real_time(rng):
    """The real clock in virtual time: every delivery exactly when due, once, whatever else is going on."""
    async def go():
        from aiok8s.workqueue import delaying_queue, rate_limiting_queue
        q = rng.choice([delaying_queue.new, rate_limiting_queue.new])()
        got, wait, missed = [], {}, []

        async def consume():
            while True:
                x, down = await q.get()
                if down:
                    return
                got.append((now(), x))
                await q.done(x)
        asyncio.ensure_future(consume())
        expected = []

        def due(t):
            for x in [x for x, r in wait.items() if r <= t]:
                expected.append((wait.pop(x), x))
        trace = []
        for _ in range(rng.randrange(3, 30)):
            x, d = f"i{rng.randrange(6)}", delay(rng)
            t = now()
            due(t)
            trace.append((t, x, d))
            if d > 0:
                wait[x] = min(wait.get(x, t + d), t + d)
            else:
                expected.append((t, x))
            await within(q.add_after(x, d), 1, "add_after")
            await settle()
            # odd steps: no two things happen at the same moment
            await asyncio.sleep(rng.choice([0.0317, 0.517, 1.0713, 4.1171, 13.0377]) * (1 + rng.random() / 100))
        await asyncio.sleep(100)
        due(now())
        expected.sort()
        got.sort()
        check(len(got) == len(expected) and all(x == y and -1e-6 <= t - r <= 0.01 for (t, x), (r, y) in zip(
            sorted(got, key=lambda p: (p[1], p[0])), sorted(expected, key=lambda p: (p[1], p[0])))),
            lambda: f"delivered {got}, expected {expected}; delayed adds {trace}")
    run(go, limit=1e6)


@scenario("C04")
def contended(rng):
    """Adds that take their time while the clock moves on: never early, once, nothing forgotten."""
    async def go():
        c, q = fake(rng)
        real = q.add
        got = []
        consumer(q, c, got)
        t0 = c.now()
        items = {f"i{k}": rng.choice([1, 1, 2, 3, 5]) for k in range(rng.randrange(1, 6))}

        async def slow(x):
            for _ in range(rng.randrange(4)):
                await asyncio.sleep(0)
                if rng.random() < 0.4:
                    await c.step(rng.choice([0.25, 1]))
            await real(x)
        q.add = slow
        for x, d in items.items():
            await q.add_after(x, d)
        await settle()
        for _ in range(60):
            await c.step(rng.choice([0.25, 0.5, 1]))
            await jig(rng)
            if rng.random() < 0.5:
                await settle()
        # what is due is added at the latest when the heartbeat has the loop look again
        for _ in range(3):
            await c.step(10)
            await settle(100)
        check(sorted(x for x, _ in got) == sorted(items), lambda: f"delivered {got}, delayed adds {items} at {t0}")
        check(all(t >= t0 + items[x] for x, t in got), lambda: f"delivered early: {got}, delayed adds {items} at {t0}")
    run(go, limit=1e6)


@scenario("C04", 0.5)
def at_once(rng):
    """Without a delay an item is pending when add_after returns."""
    async def go():
        c, q = fake(rng)
        await jig(rng)
        n = 0
        for k in range(rng.randrange(1, 5)):
            await q.add_after(k, rng.choice([0, -1, 0.0, -0.5]))
            n += 1
            check(len(q) == n, lambda: f"{len(q)} of {n} items added without a delay are pending")
        await q.add_after("later", 1)
        check(len(q) == n, "an item with a delay is pending at once")
        await settle()
        check(len(q) == n, "an item with a delay is pending before its time")
    run(go, limit=1000)


@scenario("C04")
def many(rng):
    """More delayed adds than the loop takes at a time."""
    async def go():
        c, q = fake(rng, 0.0)
        n = rng.choice([5, 50, 1100, 1500])
        ds = [rng.randrange(1, 9) for _ in range(n)]
        await asyncio.gather(*(q.add_after(k, d) for k, d in enumerate(ds)))
        await settle(50)
        for t in range(1, 10):
            await c.step(1)
            await settle(100 + 2 * n)
            due = sum(d <= t for d in ds)
            check(len(q) == due, lambda: f"{due} of {n} items are due at {t}, {len(q)} are pending")
        order = []
        while len(q):
            x, _ = await within(q.get(), 1, "get")
            order.append(ds[x])
        check(order == sorted(order), "items are not pending in the order of their times")
        check(len(order) == n, "items are missing")
    run(go, limit=1e6, max_steps=2_000_000)


@scenario("C04 C03")
def down(rng):
    """Shut down with items waiting: delayed adds return and deliver nothing."""
    async def go():
        c, q = fake(rng)
        for k in range(rng.choice([0, 1, 3, 1500])):
            asyncio.ensure_future(q.add_after(f"w{k}", rng.randrange(1, 5)))
        await jig(rng, 0.8, 8)
        if rng.random() < 0.5:
            await settle(40)
        await within(q.shut_down(), 1, "shut_down")
        n = len(q)
        await within(q.add_after("late", rng.choice([-1, 0, 1])), 1, "add_after on a queue that is shut down")
        await within(q.add("late"), 1, "add on a queue that is shut down")
        for _ in range(4):
            await c.step(5)
            await settle(40)
        check(len(q) == n, lambda: f"{len(q) - n} items were added after shutdown")
        for _ in range(n):
            x, d = await within(q.get(), 1, "get")
            check(not d, "shutdown reported while items are pending")
        check(tuple(await within(q.get(), 1, "get on a drained queue")) == (None, True), "no shutdown signal")
        await within(q.shut_down(), 1, "a second shut_down")
    run(go, limit=1e6, max_steps=2_000_000)


@scenario("C04 C05")
def rate_limited(rng):
    """Rate-limited adds: delayed by what the limiter says, counted per item, forgotten."""
    async def go():
        from aiok8s.util import clock
        from aiok8s.workqueue import default_rate_limiters, rate_limiting_queue
        c = clock.FakeClock(0.0)
        base, most = rng.choice([1, 0.5]), rng.choice([10, 100])
        q = rate_limiting_queue._RateLimitingType(default_rate_limiters.ItemExponentialFailureRateLimiter(base, most), c)
        got = []
        consumer(q, c, got)
        fails, trace = {}, []
        for _ in range(rng.randrange(2, 15)):
            x = rng.choice("ab")
            k = rng.random()
            if k < 0.7:
                trace.append(("add", x))
                d = min(base * 2 ** fails.get(x, 0), most)
                fails[x] = fails.get(x, 0) + 1
                got.clear()
                pre = rng.random() < 0.3
                if pre:
                    trace.append(("pending", x))
                    await q.add(x)
                await q.add_rate_limited(x)
                await settle()
                check(len(got) == pre, lambda: f"{got} delivered at once, after {trace}")
                got.clear()
                await c.step(d - 0.125)
                await settle()
                check(not got, lambda: f"{got} delivered before {d}, after {trace}")
                await c.step(0.125)
                await settle()
                check([y for y, _ in got] == [x], lambda: f"{got} delivered after {d}, after {trace}")
            elif k < 0.85:
                trace.append(("forget", x))
                q.forget(x)
                fails.pop(x, None)
            else:
                y = rng.choice("abc")
                check(q.num_requeues(y) == fails.get(y, 0), lambda: f"{q.num_requeues(y)} requeues of {y} after {trace}")
    run(go, limit=1e6)


@scenario("C05 C06", 0.3)
def made(rng):
    """A queue made with a limiter uses that limiter; one made without uses the default one."""
    async def go():
        from aiok8s.workqueue import rate_limiting_queue
        calls = []

        class Limiter:
            def when(self, item):
                calls.append(("when", item))
                return rng.choice([0, 0.5])

            def forget(self, item):
                calls.append(("forget", item))

            def num_requeues(self, item):
                calls.append(("num", item))
                return 7
        q = rate_limiting_queue.new(Limiter()) if rng.random() < 0.5 else rate_limiting_queue.new(rate_limiter=Limiter())
        x = rng.choice("ab")
        await q.add_rate_limited(x)
        check(calls == [("when", x)], lambda: f"add_rate_limited({x}) asked the limiter given {calls}")
        n = q.num_requeues(x)
        check(n == 7 and calls[1:] == [("num", x)], lambda: f"num_requeues gave {n} and asked the limiter given {calls[1:]}")
        q.forget(x)
        check(calls[2:] == [("forget", x)], lambda: f"forget({x}) asked the limiter given {calls[2:]}")
        await q.shut_down()
        q = rate_limiting_queue.new()
        for i in range(rng.randrange(1, 4)):
            await q.add_rate_limited(x)
            check(q.num_requeues(x) == i + 1, lambda: f"num_requeues of the default queue is {q.num_requeues(x)} after {i + 1} failures")
        check(q.num_requeues("other") == 0, "a failure counts for another item")
        q.forget(x)
        check(q.num_requeues(x) == 0, "forget forgets nothing")
        await q.shut_down()
    run(go, limit=1e6)
