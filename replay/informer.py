"""Informers: C14, C15, C16, C17."""
import asyncio
import random as _random

from lib import check, jig, now, oops, run, scenario, settle, within
from server import Obj, Server, key, raw, rv

NAMES = ["a", "b", "c", "d"]


def obj_of(o):
    from aiok8s.cache import delta_fifo
    return o.obj if isinstance(o, delta_fifo.DeletedFinalStateUnknown) else o


def key_of(o):
    from aiok8s.cache import delta_fifo
    return o.key if isinstance(o, delta_fifo.DeletedFinalStateUnknown) else key(o)


class Handler:
    """Records what it is told and judges every call against the ones before."""

    def __init__(self, name, indexer=None, slow=0, raises=(), rng=None, strict=False):
        self.name, self.indexer, self.slow, self.raises, self.rng = name, indexer, slow, set(raises), rng
        self.log, self.known, self.busy, self.n = [], {}, False, 0
        self.times = []
        self.strict = strict
        self.missing = set()       # told of these while the store did not have them: their deletion must follow

    async def _tell(self, kind, old, new):
        check(not self.busy, f"{self.name}: notified while its handler still runs")
        k = key_of(old if new is None else new)
        had = self.known.get(k)
        what = f"{self.name}: {kind} {old!r} {new!r}; known of that key: {had!r}"
        if kind == "add":
            check(had is None, f"add of a known object. {what}")
            self.known[k] = new
        elif kind == "update":
            check(had is not None, f"update of an unknown object. {what}")
            check(had is old or (rv(had) == rv(old) and key(had) == key(old)), f"update from another object. {what}")
            check(key(old) == key(new), f"update mixes objects. {what}")
            check(int(rv(new)) >= int(rv(old)), f"update back in time. {what}")
            self.known[k] = new
        else:
            check(had is not None, f"delete of an unknown object. {what}")
            self.known.pop(k)
            self.missing.discard(k)
        ix = self.indexer() if self.indexer else None
        if ix is not None:
            st = ix.get_by_key(k)
            if self.strict:
                check(st is new, f"the store does not show the change its handler hears of: {st!r}. {what}")
            elif new is None and st is not None:
                check(obj_of(old) is None or int(rv(st)) > int(rv(obj_of(old))),
                      f"the deleted object is in the store while handlers hear of its deletion: {st!r}. {what}")
            elif new is not None and st is not None:
                check(int(rv(st)) >= int(rv(new)), f"the store is behind the handlers: {st!r}. {what}")
        sync = kind == "update" and rv(old) == rv(new)
        self.log.append((kind, k, old and rv(obj_of(old)), new and rv(new)))
        self.times.append((now(), kind, k, sync))
        self.n += 1
        self.busy = True
        try:
            if self.slow:
                await asyncio.sleep(self.slow * self.rng.random())
            else:
                await asyncio.sleep(0)
            if self.n in self.raises:
                raise oops("handler")
        finally:
            self.busy = False

    async def on_add(self, o):
        await self._tell("add", None, o)

    async def on_update(self, old, new):
        await self._tell("update", old, new)

    async def on_delete(self, o):
        await self._tell("delete", o, None)

    def changes(self, since=0):
        return [e for e in self.log[since:] if not (e[0] == "update" and e[2] == e[3])]


def guard(rng):
    _random.seed(rng.random())


class Errors:
    """Violations raised inside handlers end up as lost exceptions; keep them."""

    def __init__(self, hs):
        self.hs = hs


def watch_violations(h, sink):
    tell = h._tell

    async def f(*a):
        from lib import Violation
        try:
            await tell(*a)
        except Violation as e:
            sink.append(str(e))
            raise
    h._tell = f
    return h


def final(h, srv, what):
    want = {k: rv(o) for k, o in srv.objs.items()}
    got = {k: rv(o) for k, o in h.known.items()}
    check(not h.missing, lambda: f"{what}: {h.name} heard of {h.missing} while the store did not have it, and of no deletion after")
    check(got == want, f"{what}: {h.name} ends with {got}, the server has {want}; calls {h.log}")


async def churn(rng, srv, n, span, loss=0.3):
    """Random changes, broken watches (losing events or not), failing calls."""
    for _ in range(n):
        r = rng.random()
        if r < 0.45:
            srv.put(rng.choice(NAMES))
        elif r < 0.65:
            srv.delete(rng.choice(NAMES))
        elif r < 0.65 + loss * 0.5:
            lose = rng.random() < 0.7
            srv.drop(lose)
            if rng.random() < 0.4:
                srv.fail_list = rng.randrange(3)
            for _ in range(rng.randrange(4)):
                if rng.random() < 0.6:
                    srv.put(rng.choice(NAMES))
                else:
                    srv.delete(rng.choice(NAMES))
            if rng.random() < 0.5:
                await asyncio.sleep(rng.random() * 3)
            srv.heal() if not lose else None
            if lose:
                # the reflector must relist: older versions cannot be watched any more
                srv.gone_before = len(srv.history)
        elif r < 0.9:
            await asyncio.sleep(rng.choice([0.01, 0.3, 1.1, span]))
        else:
            await jig(rng)
    srv.heal()


@scenario("C14", 2)
def plain(rng):
    """A plain informer: its store and its handler follow the server through changes, lost watches and relists."""
    from aiok8s.cache import controller
    guard(rng)

    async def main():
        srv = Server(rng, rng.choice([Obj, raw]))
        for n in NAMES[:rng.randrange(4)]:
            srv.put(n)
        sink = []
        h = watch_violations(Handler("handler", lambda: box[0], slow=rng.choice([0, 0, 0.5]), rng=rng, strict=True), sink)
        box = [None]
        st, c = controller.new_informer(srv, Obj if srv.make is Obj else dict, rng.choice([0, 0, 5]), h)
        box[0] = st
        t = asyncio.ensure_future(c.run())
        await churn(rng, srv, rng.randrange(2, 14), 2)
        await asyncio.sleep(60)
        check(not sink, lambda: sink[0])
        check(not t.done(), "the informer ended by itself")
        final(h, srv, "at rest")
        check({key(o): rv(o) for o in st.list()} == {k: rv(o) for k, o in srv.objs.items()},
              lambda: f"store {sorted(map(repr, st.list()))}, server {srv.objs}")
        check(c.has_synced(), "not synced at rest")
        t.cancel()
        await asyncio.wait([t], timeout=30)
        check(t.done(), "a cancelled informer does not end")
        n = h.n
        srv.put("z")
        await asyncio.sleep(5)
        check(h.n == n, "a handler is called after the informer ended")
    run(main)


def new_shared(srv, period):
    from aiok8s.cache import shared_informer
    return shared_informer.new_shared_informer(srv, Obj if srv.make is Obj else dict, period)


async def shared_run(rng, slow=True, raising=True, late=True, loss=0.3, n=12):
    srv = Server(rng, rng.choice([Obj, raw]))
    for x in NAMES[:rng.randrange(4)]:
        srv.put(x)
    check_period = rng.choice([0, 3, 10])
    inf = new_shared(srv, check_period)
    sink, hs = [], []

    def make(i):
        h = Handler(f"handler {i}", inf.get_indexer, rng=rng,
                    slow=rng.choice([0, 0, 0.05, 2]) if slow else 0,
                    raises=[rng.randrange(1, 6)] if raising and rng.random() < 0.3 else ())
        hs.append(h)
        return watch_violations(h, sink)
    for i in range(rng.randrange(1, 4)):
        p = rng.choice([None, 0, 2, 5, 20])
        await (inf.add_event_handler(make(i)) if p is None else inf.add_event_handler(make(i), resync_period=p))
    first = list(hs)
    t = asyncio.ensure_future(inf.run())
    await jig(rng)
    lates = []
    for part in range(3):
        await churn(rng, srv, rng.randrange(1, n // 2 + 1), 2, loss)
        if late and rng.random() < 0.6:
            h = make(len(hs))
            p = rng.choice([None, 0, 2, 30])
            add = inf.add_event_handler(h) if p is None else inf.add_event_handler(h, resync_period=p)
            if rng.random() < 0.5:
                await within(add, 2000, "adding a handler")
            else:
                lates.append(asyncio.ensure_future(add))
                await jig(rng)
    await asyncio.sleep(400 if raising or slow else 60)
    for a in lates:
        check(a.done(), "adding a handler does not end")
    check(not sink, lambda: sink[0])
    check(not t.done(), "the informer ended by itself")
    await asyncio.sleep(0.5)
    return srv, inf, t, hs, first


async def ends(inf, t, hs, srv):
    t.cancel()
    await asyncio.wait([t], timeout=300)
    check(t.done(), "a cancelled informer does not end")
    n = [h.n for h in hs]
    srv.put("z")
    late = Handler("a handler added after the end")
    await within(inf.add_event_handler(late), 100, "adding a handler to an informer that has ended")
    await asyncio.sleep(100)
    check(not late.n, lambda: f"{late.name} is called: {late.log}")
    check([h.n for h in hs] == n, "a handler is called after the informer ended")


@scenario("C14 C15 C17", 3)
def shared(rng):
    """A shared informer: all handlers, early and late, slow and raising, follow the server; same changes, same order."""
    guard(rng)

    async def main():
        srv, inf, t, hs, first = await shared_run(rng)
        ix = inf.get_indexer()
        check({key(o): rv(o) for o in ix.list()} == {k: rv(o) for k, o in srv.objs.items()},
              lambda: f"store {sorted(map(repr, ix.list()))}, server {srv.objs}")
        for h in hs:
            final(h, srv, "at rest")
        c0 = first[0].changes()
        for h in first[1:]:
            check(h.changes() == c0, lambda: f"{h.name} heard {h.changes()}, {first[0].name} heard {c0}")
        for h in hs:
            if h in first:
                continue
            # adds for what was stored at one moment, then exactly the later changes
            c = h.changes()
            ok = False
            for cut in range(len(c0) + 1):
                state = {}
                for kind, k, _, new in c0[:cut]:
                    if kind == "delete":
                        state.pop(k, None)
                    else:
                        state[k] = new
                m = len(state)
                if sorted(c[:m]) == sorted(("add", k, None, v) for k, v in state.items()) and c[m:] == c0[cut:]:
                    ok = True
                    break
            check(ok, lambda: f"{h.name}, added later, heard {c}; an early one heard {c0}")
        await ends(inf, t, hs, srv)
    run(main, limit=1e7)


@scenario("C14", 1)
def exact(rng):
    """With a watch that does not break, a handler hears of every single change, in bursts or not, in the order of the server."""
    from aiok8s.cache import controller
    guard(rng)

    async def main():
        srv = Server(rng, rng.choice([Obj, raw]))
        for x in NAMES[:rng.randrange(4)]:
            srv.put(x)
        sink, box = [], [None]
        shared_ = rng.random() < 0.6
        h = watch_violations(Handler("handler", lambda: box[0], rng=rng,
                                     slow=0 if shared_ else rng.choice([0, 0, 0.7]), strict=not shared_), sink)
        if shared_:
            inf = new_shared(srv, 0)
            box[0] = inf.get_indexer()
            await inf.add_event_handler(h)
            for i in range(rng.randrange(9)):
                await inf.add_event_handler(watch_violations(Handler(f"another handler {i}"), sink))
            t = asyncio.ensure_future(inf.run())
        else:
            box[0], c = controller.new_informer(srv, Obj if srv.make is Obj else dict, 0, h)
            t = asyncio.ensure_future(c.run())
        await asyncio.sleep(10)
        start, n = len(h.log), len(srv.history)
        names = rng.choice([NAMES, NAMES[:2], NAMES[:1]])
        for _ in range(rng.randrange(1, 5)):
            for _ in range(rng.randrange(1, 7)):
                srv.put(rng.choice(names)) if rng.random() < 0.75 else srv.delete(rng.choice(names))
            await (jig(rng) if rng.random() < 0.5 else asyncio.sleep(rng.random()))
        await asyncio.sleep(60)
        check(not sink, lambda: sink[0])
        kinds = {"ADDED": "add", "MODIFIED": "update", "DELETED": "delete"}
        for k in {key(o) for _, o in srv.history}:
            want = [(kinds[ty], rv(o)) for ty, o in srv.history[n:] if key(o) == k]
            got = [(e[0], e[2] if e[0] == "delete" else e[3]) for e in h.log[start:] if e[1] == k]
            check(got == want, f"changes of {k} on the server: {want}; heard: {got}")
        t.cancel()
        await asyncio.wait([t], timeout=300)
    run(main)


@scenario("C14", 1)
def batches(rng):
    """Lists of changes handed to a running shared informer: one notification for each, with its objects."""
    guard(rng)

    async def main():
        from aiok8s.cache import delta_fifo
        T, D = delta_fifo.DeltaType, delta_fifo.Delta
        srv = Server(rng, rng.choice([Obj, raw]))
        inf = new_shared(srv, 0)
        if not hasattr(inf, "handle_deltas"):
            return
        told, ver = [], [0]

        class H:
            async def on_add(self, o):
                told.append(("add", None, o))

            async def on_update(self, old, new):
                told.append(("update", old, new))

            async def on_delete(self, o):
                told.append(("delete", o, None))
        await inf.add_event_handler(H())
        t = asyncio.ensure_future(inf.run())
        await asyncio.sleep(3)
        have, want = {}, []
        for _ in range(rng.randrange(1, 5)):
            n, ds = rng.choice(NAMES), []
            for _ in range(rng.randrange(1, 6)):
                k = "d/" + n
                if rng.random() < 0.3:
                    o = have.pop(k, None) or srv.make(n, "d", ver[0], 0)
                    if rng.random() < 0.3:
                        o = delta_fifo.DeletedFinalStateUnknown(k, o)
                    ds.append(D(T.DELETED, o))
                    want.append(("delete", o, None))
                    continue
                ver[0] += rng.random() < 0.8 or not have
                o = srv.make(n, "d", ver[0], rng.random())
                ty = rng.choice([T.ADDED, T.UPDATED, T.SYNC])
                if ty is T.SYNC and k in have and rv(have[k]) == rv(o):
                    ty = T.UPDATED
                ds.append(D(ty, o))
                want.append(("update", have[k], o) if k in have else ("add", None, o))
                have[k] = o
            await inf.handle_deltas(delta_fifo.Deltas(ds))
            st = inf.get_indexer().get_by_key("d/" + n)
            check(st is have.get("d/" + n), f"after {ds} the store has {st!r}")
            if rng.random() < 0.5:
                await jig(rng)
        await asyncio.sleep(5)
        check(len(told) == len(want) and all(a[0] == b[0] and a[1] is b[1] and a[2] is b[2] for a, b in zip(told, want)),
              lambda: f"the changes call for {want}, the handler heard {told}")
        t.cancel()
        await asyncio.wait([t], timeout=300)
    run(main)


@scenario("C15", 1)
def held(rng):
    """A handler that does not come back for long holds up neither the store nor the others, and then gets everything too."""
    guard(rng)

    async def main():
        srv = Server(rng)
        inf = new_shared(srv, 0)
        ix = inf.get_indexer
        sink, gate, more = [], asyncio.Event(), []
        stuck = Handler("the held handler")
        others = [watch_violations(Handler(f"handler {i}", ix), sink) for i in range(rng.randrange(1, 3))]
        tell, at = stuck._tell, rng.randrange(1, 5)
        registers = rng.random() < 0.5

        async def hold(*a):
            if stuck.n + 1 == at:
                if registers:
                    # for as long as it takes to have one more handler registered
                    while len(others[0].log) < at + 3:
                        await asyncio.sleep(1)
                    h = watch_violations(Handler("a handler registered by a handler", ix), sink)
                    more.append(h)
                    await inf.add_event_handler(h)
                else:
                    await gate.wait()
            await tell(*a)
        stuck._tell = hold
        hs = [stuck] + others
        rng.shuffle(hs)
        for h in hs:
            await inf.add_event_handler(watch_violations(h, sink) if h is stuck else h)
        t = asyncio.ensure_future(inf.run())
        await asyncio.sleep(3)
        many = rng.random() < 0.06
        for i in range(1100 if many else rng.choice([8, 20, 80])):
            srv.put(rng.choice(NAMES)) if many or rng.random() < 0.8 else srv.delete(rng.choice(NAMES))
            if many and i % 100 or rng.random() < 0.5:
                continue
            await jig(rng)
        for n in NAMES:
            srv.put(n)
        await asyncio.sleep(60)
        check(not sink, lambda: sink[0])
        check({key(o): rv(o) for o in ix().list()} == {k: rv(o) for k, o in srv.objs.items()},
              "the store does not follow the server while a handler has not come back")
        for h in others + more:
            final(h, srv, "while another handler has not come back")
        gate.set()
        await asyncio.sleep(60)
        check(not sink, lambda: sink[0])
        check(registers is bool(more), "the handler that registers another one was not called")
        final(stuck, srv, "once it came back")
        check(stuck.changes() == others[0].changes(), lambda:
              f"the held handler heard {len(stuck.log)} changes, the others {len(others[0].log)}, or not the same ones")
        await ends(inf, t, hs, srv)
    run(main, limit=1e7)


@scenario("C12", 1)
def informer_sync(rng):
    """has_synced of an informer: false until every object of the first list has been processed, true from then on."""
    from aiok8s.cache import controller
    guard(rng)

    async def main():
        srv = Server(rng, rng.choice([Obj, raw]))
        for n in NAMES[:rng.randrange(5)]:
            srv.put(n)
        first = set(srv.objs)
        gate, lister = asyncio.Event(), srv.list

        async def late_list(options):
            r = await lister(options)
            await gate.wait()
            return r
        srv.list = late_list
        sink = []
        h = watch_violations(Handler("handler", slow=rng.choice([0, 0.5]), rng=rng), sink)
        plain_ = rng.random() < 0.5
        if plain_:
            st, inf = controller.new_informer(srv, Obj if srv.make is Obj else dict, 0, h)
        else:
            inf = new_shared(srv, rng.choice([0, 4]))
            st = inf.get_indexer()
            await inf.add_event_handler(h)
        check(not inf.has_synced(), "has_synced before the informer runs")
        srv.fail_list = rng.randrange(2)
        t = asyncio.ensure_future(inf.run())
        for _ in range(rng.randrange(8)):
            await asyncio.sleep(rng.choice([0, 0, 0.1, 2]))
            check(not inf.has_synced(), "has_synced before the first list")
        gate.set()
        synced = False
        for i in range(400):
            await asyncio.sleep(0 if i < 300 else 0.2)
            got = inf.has_synced()
            have = {key(o) for o in st.list()}
            if got:
                check(first <= have, f"has_synced with {sorted(have)} processed of the first list {sorted(first)}")
                check(not plain_ or h.n >= len(first) and (synced or h.n > len(first) or not h.busy),
                      f"has_synced with the handler still told of entry {h.n} of {len(first)}")
            check(got or not synced, "has_synced became false again")
            if got and not synced and rng.random() < 0.5:
                srv.put("later")
            synced = got
        check(synced, "has_synced never became true")
        check(not sink, lambda: sink[0])
        t.cancel()
        await asyncio.wait([t], timeout=300)
    run(main)


@scenario("C16", 3)
def resyncs(rng):
    """Periodic resyncs reach the handlers that asked for them, no closer together than their period, and only those."""
    guard(rng)

    async def main():
        srv = Server(rng)
        for x in NAMES[:rng.randrange(1, 4)]:
            srv.put(x)
        period = rng.choice([0, 1.5, 4, 10, 30])
        inf = new_shared(srv, period)
        hs, sink = [], []
        req = []
        checkp = period
        for i in range(rng.randrange(1, 4)):
            p = rng.choice([None, 0, 0.2, 1, 2, 5, 7, 20])
            h = watch_violations(Handler(f"handler {i} ({p})", inf.get_indexer), sink)
            hs.append(h)
            await (inf.add_event_handler(h) if p is None else inf.add_event_handler(h, resync_period=p))
            want = period if p is None else p
            if want:
                want = max(want, 1)
                if want < checkp:
                    checkp = want
            req.append([h, want, 0])
        t = asyncio.ensure_future(inf.run())
        await asyncio.sleep(rng.choice([0.1, 3, 8]))
        for i in range(rng.randrange(3)):
            p = rng.choice([None, 0, 0.2, 2, 5, 20])
            h = watch_violations(Handler(f"late handler {i} ({p})", inf.get_indexer), sink)
            t0 = now()
            await (inf.add_event_handler(h) if p is None else inf.add_event_handler(h, resync_period=p))
            want = period if p is None else p
            if want:
                want = max(want, 1)
                if want < checkp:
                    want = checkp
            req.append([h, want, t0])
            await asyncio.sleep(rng.random() * 5)
        start = now()
        for _ in range(rng.randrange(8)):
            srv.put(rng.choice(NAMES))
            await asyncio.sleep(rng.random() * 30)
        await asyncio.sleep(150)
        check(not sink, lambda: sink[0])
        for h, want, t0 in req:
            eff = 0 if not want or not checkp else max(want, checkp)
            per = {}
            for tm, kind, k, sync in h.times:
                if sync:
                    per.setdefault(k, []).append(tm)
            if not eff:
                check(not per, f"{h.name} (check period {checkp}) takes no part in resyncs but got some at {per}")
                continue
            for k, ts in per.items():
                for a, b in zip(ts, ts[1:]):
                    check(b - a >= eff - 0.01, f"{h.name}: effective period {eff}, resyncs of {k} at {a} and {b}")
                check(ts[0] >= t0 + eff - 0.01, f"{h.name}: effective period {eff}, added at {t0}, first resync of {k} at {ts[0]}")
            # and they do come: within an effective period and a check period (plus the second a list may take)
            for k in srv.objs:
                ts = [x for x in per.get(k, []) if x >= start]
                last = max([start] + [tm for tm, kind, kk, sync in h.times if kk == k and not sync])
                gap = eff + 2 * checkp + 3
                marks = [x for x in ts if x >= last] + [now()]
                prev = last
                for x in marks:
                    check(x - prev <= gap, f"{h.name}: effective period {eff}, check period {checkp}: no resync of {k} between {prev} and {x}")
                    prev = x
        t.cancel()
        await asyncio.wait([t], timeout=300)
    run(main, limit=1e7)


@scenario("C16", 1)
def added_meanwhile(rng):
    """A handler added while a resync is being delivered takes no part in it."""
    guard(rng)

    async def main():
        srv = Server(rng)
        for i in range(rng.randrange(1, 7)):
            srv.put(f"n{i}")
        period = rng.choice([2, 4])
        inf = new_shared(srv, period)
        sink = []
        h = watch_violations(Handler("handler", inf.get_indexer), sink)
        await inf.add_event_handler(h)
        t = asyncio.ensure_future(inf.run())
        await asyncio.sleep(period)
        for _ in range(rng.randrange(30)):
            await asyncio.sleep(0)
        p = rng.choice([0, 0, None, 3, 20])
        late = watch_violations(Handler(f"late handler ({p})", inf.get_indexer), sink)
        t0 = now()
        await (inf.add_event_handler(late) if p is None else inf.add_event_handler(late, resync_period=p))
        await asyncio.sleep(rng.choice([0.1, 15]))
        check(not sink, lambda: sink[0])
        eff = 0 if p == 0 else max(period if p is None else p, period)
        for tm, kind, k, sync in late.times:
            check(not sync or (eff and tm >= t0 + eff - 0.01), lambda:
                  f"{late.name}, added {t0} while a resync was being delivered, got a resync of {k} at {tm}")
        t.cancel()
        await asyncio.wait([t], timeout=300)
    run(main, limit=1e7)


@scenario("C16", 1)
def jitter(rng):
    """The informers of a cache get resync periods between 0.9 and 1.1 times the configured one."""
    guard(rng)

    async def main():
        from kubernetes_asyncio.client import models

        from aiok8s.controller import cache
        resync = rng.choice([10, 100, 36000.0])
        seen = set()
        for _ in range(6):
            c = cache.new(resync=resync)
            inf = await c.get_informer(models.V1Pod)
            srv = Server(rng)
            p = getattr(inf, "_resync_check_period", None)
            if p is None:
                return
            check(0.9 * resync - 1e-6 <= p <= 1.1 * resync + 1e-6, f"configured {resync}, informer has {p}")
            seen.add(p)
        check(len(seen) > 1, f"the periods of six informers are all {seen}")
    run(main)


@scenario("C17", 2)
def relist(rng):
    """After resyncs, changes found only by a relist reach every handler, whatever its resync period."""
    guard(rng)

    async def main():
        srv = Server(rng, rng.choice([Obj, raw]))
        for x in NAMES[:3]:
            srv.put(x)
        inf = new_shared(srv, rng.choice([0, 2, 5]))
        sink = []
        hs = [watch_violations(Handler(f"handler {i} ({p})", inf.get_indexer, rng=rng), sink)
              for i, p in enumerate([0, rng.choice([1, 2]), rng.choice([3, 50])])]
        for h, p in zip(hs, [0, 1, 50]):
            await inf.add_event_handler(h, resync_period=p)
        t = asyncio.ensure_future(inf.run())
        await asyncio.sleep(rng.choice([0.5, 1.5, 3.3, 7]))
        for _ in range(rng.randrange(1, 4)):
            before = [len(h.log) for h in hs]
            old = {k: rv(o) for k, o in srv.objs.items()}
            srv.drop(True)
            touched = set()
            for _ in range(rng.randrange(1, 4)):
                n = rng.choice(NAMES)
                touched.add("d/" + n)
                srv.put(n) if rng.random() < 0.7 else srv.delete(n)
            srv.gone_before = len(srv.history)
            srv.heal() if rng.random() < 0.3 else None
            await asyncio.sleep(rng.choice([1.5, 4, 9]) + 2)
            check(not sink, lambda: sink[0])
            for h, b in zip(hs, before):
                for k in touched:
                    new = rv(srv.objs[k]) if k in srv.objs else None
                    if old.get(k) == new:
                        continue
                    heard = [e for e in h.changes(b) if e[1] == k]
                    last = heard[-1] if heard else None
                    check(last is not None and (last[0] == "delete" if new is None else last[3] == new),
                          f"{h.name} was not told of the relist's change of {k} from {old.get(k)} to {new}: heard {h.log[b:]}")
        t.cancel()
        await asyncio.wait([t], timeout=300)
    run(main, limit=1e7)
