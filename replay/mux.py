"""The broadcaster: C20."""
import asyncio

from lib import Stuck, Violation, check, jig, run, scenario, settle, within


def module():
    from aiok8s.watch import mux
    return mux


def number(e):
    return e["object"]


@scenario("C20", 3)
def waiting(rng):
    """Watchers that come, stop and give up waiting at any time; the broadcaster waits for full buffers."""
    m = module()

    async def go():
        b = m.Broadcaster(rng.randrange(4), m.FullChannelBehavior.WAIT_IF_CHANNEL_FULL)
        began, ended = [0], [0]          # actions begun / returned
        total = rng.randrange(1, 14)

        async def produce():
            for i in range(total):
                await asyncio.sleep(rng.choice([0, 0, 0, 1, 2]))
                await jig(rng)
                began[0] += 1
                await b.action("ADDED", i)
                ended[0] += 1
            await b.shutdown()

        async def consumer(c):
            late = c > 0 and rng.random() < 0.5
            if late:
                await asyncio.sleep(rng.randrange(6))
            prefix = [{"type": "ADDED", "object": f"p{c}.{i}"} for i in range(rng.randrange(4))] if rng.random() < 0.4 else None
            low = ended[0]
            if producer is not None and ended[0] == total:
                return
            if prefix is None:
                w = await b.watch()
            else:
                w = await b.watch_with_prefix(list(prefix))
            high = began[0]
            gone = asyncio.Event()
            if rng.random() < 0.35:
                at = rng.randrange(5)

                async def stopper():
                    await asyncio.sleep(at)
                    await jig(rng)
                    await asyncio.gather(*[within(w.stop(), 500, "stopping a watcher") for _ in range(rng.choice([1, 1, 2]))])
                    gone.set()
                stops.append(asyncio.ensure_future(stopper()))
                own = True
            else:
                own = rng.random() < 0.2
            quits = rng.randrange(4) if own else None
            impatient = rng.random() < 0.5
            got = []
            stalled = own and rng.random() < 0.3
            while not stalled:
                await asyncio.sleep(rng.choice([0, 0, 0, 1, 3]))
                if quits is not None and len(got) >= quits and not gone.is_set() and rng.random() < 0.5:
                    await within(w.stop(), 500, "stopping a watcher")
                    if rng.random() < 0.5:
                        await within(w.stop(), 5, "stopping a watcher again")
                    own = True
                    if rng.random() < 0.5:
                        break
                try:
                    if impatient and rng.random() < 0.5:
                        t = asyncio.ensure_future(w.__anext__())
                        for _ in range(rng.randrange(6)):
                            await asyncio.sleep(rng.choice([0, 0, 0, 1]))
                            if t.done():
                                break
                        if not t.done():
                            t.cancel()
                        try:
                            e = await t
                        except asyncio.CancelledError:
                            continue
                    else:
                        e = await w.__anext__()
                except StopAsyncIteration:
                    break
                got.append(number(e))
            if stalled:
                await asyncio.sleep(rng.randrange(4))
                await within(w.stop(), 500, "stopping a watcher that takes nothing")
            p = [number(e) for e in prefix or []]
            k = min(len(p), len(got))
            check(got[:k] == p[:k], lambda: f"a watcher with prefix {p} received {got}")
            check(own or len(got) >= len(p), lambda: f"a watcher with prefix {p} only received {got}")
            rest = got[len(p):]
            check(rest == list(range(rest[0], rest[0] + len(rest))) if rest else True,
                  lambda: f"events 0..{total - 1} in order: a watcher received {rest}")
            if rest:
                check(low <= rest[0] <= high, lambda: f"a watcher that began to watch after {low} events and was watching "
                      f"before event {high} received {rest}")
            if not own:
                check((rest[-1] if rest else total - 1) == total - 1 and (rest or high >= total), lambda:
                      f"a watcher watching before event {high} of {total} received {rest} before its iteration ended")
        stops = []
        producer = None
        cs = [asyncio.ensure_future(consumer(0))]
        if rng.random() < 0.5:
            await settle(8)
        producer = asyncio.ensure_future(produce())
        cs += [asyncio.ensure_future(consumer(i)) for i in range(1, rng.randrange(1, 5))]

        async def all_():
            await asyncio.gather(producer, *cs)
            await asyncio.gather(*stops)
        # a consumer that begins to watch after the end is not served: let it go
        done, pending = await asyncio.wait([asyncio.ensure_future(all_())], timeout=2000)
        if pending:
            for c in cs:
                if c.done() and c.exception():
                    raise c.exception()
            raise Violation(f"the broadcaster stands still: {began[0]} of {total} events acted on, shutdown "
                            f"{'returned' if producer.done() else 'not returned'}, {sum(not c.done() for c in cs)} watchers waiting")
        for d in done:
            d.result()
    try:
        run(go, limit=5000)
    except Stuck:
        raise Violation("the broadcaster stands still")


@scenario("C20", 2)
def dropping(rng):
    """In drop mode an event is withheld only from a watcher whose buffer is full."""
    m = module()

    async def go():
        length = rng.randrange(4)
        b = m.Broadcaster(length, m.FullChannelBehavior.DROP_IF_CHANNEL_FULL)
        ws = []
        n = 0
        acts = []
        for _ in range(rng.randrange(3, 40)):
            k = rng.randrange(8)
            live = [w for w in ws if not w["stopped"]]
            if k == 0 or not ws:
                p = [{"type": "ADDED", "object": f"p{i}"} for i in range(rng.randrange(4))]
                w = await within(b.watch_with_prefix(p) if p else b.watch(), 5, "watching")
                ws.append({"w": w, "p": [number(e) for e in p], "got": [], "start": n, "stopped": False, "end": None, "at": {},
                           "cap": max(length, len(p) + 1) if p else (length or 10**9)})
            elif k < 5:
                for _ in range(rng.choice([1, 1, 3])):
                    for w in ws:
                        w["at"][n] = len(w["got"])
                    await within(b.action("ADDED", n), 5, "acting in drop mode")
                    n += 1
                    await settle(6)
            elif k < 7:
                w = rng.choice(ws)
                t = asyncio.ensure_future(w["w"].__anext__())
                await settle(8)
                if t.done():
                    try:
                        w["got"].append(number(t.result()))
                    except StopAsyncIteration:
                        check(w["stopped"], "a watcher that was not stopped ended")
                else:
                    t.cancel()
                    await settle(3)
                    check(not w["stopped"], "a stopped watcher does not end")
                    # the event that comes next may go to the call made before: nothing is lost either way
            elif live:
                w = rng.choice(live)
                await within(w["w"].stop(), 5, "stopping")
                w["stopped"], w["end"] = True, n
        await within(b.shutdown(), 5, "shutdown")
        for w in ws:
            async def rest():
                async for e in w["w"]:
                    w["got"].append(number(e))
            await within(rest(), 5, "the rest of a watcher after shutdown")
            got, p = w["got"], w["p"]
            check(got[:len(p)] == p, lambda: f"a watcher with prefix {p} received {got}")
            ev = got[len(p):]
            check(ev == sorted(set(ev)), lambda: f"a watcher received {ev}")
            check(all(w["start"] <= e < (n if w["end"] is None else w["end"]) for e in ev), lambda:
                  f"a watcher that watched events {w['start']} to {w['end'] or n} received {ev}")
            for e in range(w["start"], n if w["end"] is None else w["end"]):
                if e not in ev:
                    held = len(p) + sum(1 for x in ev if x < e) - w["at"][e]
                    check(held >= w["cap"], lambda: f"event {e} was withheld from a watcher with {held} of {w['cap']} places taken")
    run(go, limit=2000)
