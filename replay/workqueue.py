"""Work queues: C01, C02, C03."""
import asyncio

from lib import Violation, Stuck, check, jig, now, run, scenario, settle, within


def kinds(rng):
    from aiok8s.workqueue import delaying_queue, queue, rate_limiting_queue
    return rng.choice([queue.new, delaying_queue.new, rate_limiting_queue.new])


class Model:
    def __init__(self):
        self.queue, self.dirty, self.processing, self.down = [], set(), set(), False

    def add(self, x):
        if self.down or x in self.dirty:
            return
        self.dirty.add(x)
        if x not in self.processing:
            self.queue.append(x)

    def get(self):
        if not self.queue:
            return (None, True)
        x = self.queue.pop(0)
        self.processing.add(x)
        self.dirty.discard(x)
        return (x, False)

    def done(self, x):
        self.processing.discard(x)
        if x in self.dirty:
            self.queue.append(x)


def sequence(rng, down, steps=40):
    async def go():
        q = kinds(rng)()
        m = Model()
        trace = []
        for _ in range(rng.randrange(5, steps)):
            k = rng.randrange(10)
            x = f"item-{rng.randrange(5)}"
            if k < 5:
                trace.append(("add", x))
                await q.add(x)
                m.add(x)
            elif k < 8:
                if m.queue or m.down:
                    trace.append(("get",))
                    r = await within(q.get(), 5, f"get with pending items {m.queue} after {trace}")
                    e = m.get()
                    check(tuple(r) == e, lambda: f"get returned {r}, expected {e}, after {trace}")
            elif k < 9:
                if m.processing:
                    x = rng.choice(sorted(m.processing))
                    trace.append(("done", x))
                    await q.done(x)
                    m.done(x)
            elif down and rng.random() < 0.3:
                trace.append(("shut_down",))
                await q.shut_down()
                m.down = True
            check(len(q) == len(m.queue), lambda: f"len is {len(q)}, expected {len(m.queue)}, after {trace}")
        # drain
        while m.processing or m.queue:
            for x in sorted(m.processing):
                await q.done(x)
                m.done(x)
            while m.queue:
                r = await within(q.get(), 5, f"get while draining after {trace}")
                e = m.get()
                check(tuple(r) == e, lambda: f"get returned {r}, expected {e}, draining after {trace}")
        if m.down:
            r = await within(q.get(), 5, "get on a drained, shut down queue")
            check(tuple(r) == (None, True), f"get on a drained, shut down queue returned {r}")
        else:
            t = asyncio.ensure_future(q.get())
            await settle()
            check(not t.done(), lambda: f"get on an empty running queue returned {t.result()} after {trace}")
    run(go, limit=1000)


@scenario("C01 C02")
def single_task_sequences(rng):
    """Random add/get/done sequences compared with the reference queue."""
    sequence(rng, False)


@scenario("C03")
def single_task_sequences_with_shutdown(rng):
    """Random add/get/done/shut_down sequences compared with the reference queue."""
    sequence(rng, True)


@scenario("C01 C02", 2)
def concurrent_consumers(rng):
    """Producers and consumers running concurrently: exclusivity, one delivery per burst, no lost add."""
    async def go():
        q = kinds(rng)()
        processing = set()
        added = {}           # item -> number of last add
        delivered = {}       # item -> add count seen by the last delivery start
        n = [0]
        inflight, ended = {}, {}     # adds under way; stamp of the last finished one

        async def consumer():
            while True:
                item, down = await q.get()
                if down:
                    return
                check(item not in processing, f"{item} was handed out while still being processed")
                processing.add(item)
                check(inflight.get(item, 0) or ended.get(item, 0) > delivered.get(item, 0),
                      f"{item} was delivered again without having been added since the last delivery")
                n[0] += 1
                delivered[item] = n[0]
                await jig(rng, 0.6, 5)
                if rng.random() < 0.3:
                    await asyncio.sleep(rng.random())
                if rng.random() < 0.2:
                    await add(item)
                processing.discard(item)
                await q.done(item)

        async def add(x):
            n[0] += 1
            added[x] = n[0]
            inflight[x] = inflight.get(x, 0) + 1
            await q.add(x)
            inflight[x] -= 1
            n[0] += 1
            ended[x] = n[0]

        budget = [rng.randrange(5, 30)]

        async def producer():
            while budget[0] > 0:
                budget[0] -= 1
                await add(f"i{rng.randrange(4)}")
                await jig(rng)
                if rng.random() < 0.2:
                    await asyncio.sleep(rng.random())
        cs = [asyncio.ensure_future(consumer()) for _ in range(rng.randrange(1, 5))]
        await jig(rng)
        ps = [asyncio.ensure_future(producer()) for _ in range(rng.randrange(1, 4))]
        await asyncio.gather(*ps)
        await asyncio.sleep(50)
        for t in cs:
            if t.done():
                t.result()
                raise Violation("get reported shutdown on a running queue")
        check(len(q) == 0, f"{len(q)} items stay pending although consumers are waiting")
        check(not processing, "items still under processing")
        for x, k in added.items():
            check(delivered.get(x, 0) >= k, f"the last add of {x} was never followed by a delivery")
    run(go, limit=100000)


@scenario("C02")
def many_waiting_consumers(rng):
    """Blocked consumers all get an item when enough are added in one go."""
    async def go():
        q = kinds(rng)()
        k = rng.randrange(1, 6)
        ts = [asyncio.ensure_future(q.get()) for _ in range(k)]
        await settle()
        m = rng.randrange(1, 8)
        if rng.random() < 0.5:
            # items put back by done
            for i in range(m):
                await q.add(i)
            await settle()
            got = [t.result()[0] for t in ts if t.done()]
            for i in list(got):
                await q.add(i)
            ts2 = [asyncio.ensure_future(q.get()) for _ in range(len(got))]
            await settle()
            pend = [t for t in ts + ts2 if not t.done()]
            for i in got:
                await q.done(i)
            await settle(60)
            left = [t for t in ts + ts2 if not t.done()]
            check(not (left and len(q)), f"{len(left)} consumers blocked while {len(q)} items are pending")
        else:
            for i in range(m):
                await q.add(i)
                await jig(rng)
            await settle(60)
            left = [t for t in ts if not t.done()]
            check(len(left) == max(0, k - m), f"{len(left)} of {k} consumers still blocked after {m} adds")
    run(go, limit=1000)


@scenario("C03", 2)
def shutdown_with_consumers(rng):
    """Shutdown with blocked and busy consumers: pending items delivered, everybody returns, later adds ignored."""
    async def go():
        make = kinds(rng)
        q = make()
        got, ended = [], [0]
        before = set()

        async def consumer():
            while True:
                item, down = await q.get()
                if down:
                    check(shut[0], "shutdown reported before shut_down was called")
                    check(item is None, f"shutdown signal came with item {item!r}")
                    ended[0] += 1
                    return
                got.append(item)
                await jig(rng, 0.7, 6)
                if rng.random() < 0.3 and not shut[0]:
                    await q.add(item)          # dirty while processing: delivered again after shutdown
                    if not shut[0]:
                        redo.append(item)
                if rng.random() < 0.5:
                    await asyncio.sleep(rng.random() * 3)
                await q.done(item)
        shut, redo = [False], []
        cs = [asyncio.ensure_future(consumer()) for _ in range(rng.randrange(1, 5))]
        for i in range(rng.randrange(0, 7)):
            await q.add(i)
            before.add(i)
            await jig(rng)
        await jig(rng)
        shut[0] = True
        await within(q.shut_down(), 20, "shut_down")
        check(q.shutting_down(), "shutting_down is false after shut_down")
        for i in range(3):
            await q.add(f"late{i}")
            if hasattr(q, "add_after"):
                await within(q.add_after(f"late-after{i}", rng.choice([0, 0.5, 2])), 30, "add_after after shutdown")
            if hasattr(q, "add_rate_limited"):
                await within(q.add_rate_limited(f"late-rl{i}"), 30, "add_rate_limited after shutdown")
        if rng.random() < 0.5:
            await within(q.shut_down(), 20, "second shut_down")
        await asyncio.sleep(60)
        for t in cs:
            check(t.done(), "a consumer is still blocked in get after shutdown")
            t.result()
        check(ended[0] == len(cs), "a consumer did not get the shutdown signal")
        check(not [x for x in got if isinstance(x, str)], lambda: f"items added after shutdown were delivered: {got}")
        check(before <= set(got), lambda: f"pending items lost at shutdown: {before - set(got)}")
        for x in set(redo):
            check(got.count(x) >= 2, f"{x} was added while processed but not delivered again")
        r = await within(q.get(), 5, "get after shutdown")
        check(tuple(r) == (None, True), f"get after shutdown returned {r}")
    run(go, limit=100000)


@scenario("C03")
def shutdown_with_delayed(rng):
    """A delayed add that is waiting when the queue is shut down is never delivered afterwards."""
    async def go():
        from aiok8s.workqueue import delaying_queue, rate_limiting_queue
        q = rng.choice([delaying_queue.new, rate_limiting_queue.new])()
        await q.add_after("soon", rng.choice([0.5, 1, 3]))
        await jig(rng)
        if rng.random() < 0.5:
            await asyncio.sleep(rng.random() * 0.4)
        await q.add("x")
        await within(q.shut_down(), 20, "shut_down")
        await asyncio.sleep(rng.choice([0, 5, 20]))
        r = await within(q.get(), 5, "get")
        check(tuple(r) == ("x", False), f"pending item lost, got {r}")
        r = await within(q.get(), 5, "get")
        check(tuple(r) == (None, True), f"got {r} after shutdown")
        await asyncio.sleep(20)
        r = await within(q.get(), 5, "get")
        check(tuple(r) == (None, True), f"got {r} after shutdown")
    run(go, limit=100000)
