"""Reflector: C18, C19."""
import asyncio
import copy
import random as _random

from lib import check, jig, now, oops, run, scenario, settle, within
from server import Obj, Server, Stream, key, raw, rv

NAMES = ["a", "b", "c"]
OPS = {"ADDED": "add", "MODIFIED": "update", "DELETED": "delete"}


class Foreign:
    def __init__(self, rv_):
        from types import SimpleNamespace
        self.metadata = SimpleNamespace(name="f", namespace="d", uid="f", resource_version=rv_)
        self.api_version, self.kind = "v1", "Node"


class Bare(Obj):
    """The right type, but no metadata."""

    def __init__(self):
        pass

    def __repr__(self):
        return "bare"


class Tape:
    """What was delivered and what was done with it."""

    def __init__(self, rng, srv):
        self.rng, self.srv = rng, srv
        self.due = []              # (op, object, version) delivered and not yet applied
        self.version = None        # version of the last event applied, or of the list
        self.listed = None         # the list to be put into the store
        self.lossy = False         # the round was ended by something that need not wait for events delivered before
        self.fail_ops = 0.0
        self.fail_replace = False
        self.fail_resync = False
        self.resyncs = []
        self.replaced = False
        self.errors = []
        self.log = []

    def bad(self, text):
        self.errors.append(f"{text}; the last steps: {self.log[-12:]}")

    async def pause(self):
        await asyncio.sleep(0)
        await jig(self.rng, 0.3)

    async def _apply(self, op, o):
        self.log.append((op, o))
        if not self.replaced:
            self.bad(f"{op} before the list was put into the store")
        if not self.due:
            return self.bad(f"{op} {o!r} without an event for it")
        d = self.due.pop(0)
        if d[0] != op or d[1] is not o:
            self.bad(f"{op} {o!r} while {d[0]} {d[1]!r} was next")
        await self.pause()
        if self.rng.random() < self.fail_ops:
            raise oops("store operation failed")

    async def add(self, o):
        await self._apply("add", o)

    async def update(self, o):
        await self._apply("update", o)

    async def delete(self, o):
        await self._apply("delete", o)

    async def replace(self, items, version):
        self.log.append(("replace", version))
        if self.listed is None:
            return self.bad("replace without a list")
        want, v = self.listed
        self.listed = None
        items = list(items)
        if [id(x) for x in items] != [id(x) for x in want] or version != v:
            self.bad(f"replace with {items} at {version}, listed {want} at {v}")
        await self.pause()
        if self.fail_replace:
            self.fail_replace = False
            raise oops("replace failed")
        self.replaced = True
        self.version = v

    async def resync(self):
        self.log.append(("resync",))
        self.resyncs.append(now())
        await self.pause()
        if self.fail_resync:
            self.fail_resync = False
            self.lossy = True
            raise oops("resync failed")

    # -- what the server side sees
    def delivered(self, ev):
        self.log.append(("event", ev["type"], ev["object"]))
        if self.lossy:
            return
        if ev["type"] == "ERROR":
            self.lossy = True
            return
        o = ev["object"]
        if not self.right(o):
            return
        if ev["type"] != "BOOKMARK":
            self.due.append((OPS[ev["type"]], o))
        self.version = rv(o)

    def right(self, o):
        if isinstance(o, (Foreign, Bare)):
            return False
        if isinstance(o, dict):
            return o["kind"] == "Pod" and o["apiVersion"] == "v1" and "metadata" in o
        return True


class TapedStream(Stream):
    tape = None

    async def __anext__(self):
        ev = await super().__anext__()
        self.tape.delivered(ev)
        return ev


class TapedServer(Server):
    """Checks every list and watch call."""

    def __init__(self, rng, make):
        super().__init__(rng, make)
        self.tape = Tape(rng, self)
        self.reflector = None
        self.all = []
        self.list_times = []

    def over(self, what):
        t = self.tape
        if any(not s.closed for s in self.all if s.entered):
            t.bad(f"{what} while an earlier watch is still open")
        if not t.lossy and t.due:
            t.bad(f"{what} although {t.due} were received and not applied")

    async def list(self, options):
        t = self.tape
        t.log.append(("list",))
        self.list_times.append(now())
        self.over("a list")
        t.due, t.lossy, t.replaced, t.listed = [], False, False, None
        r = await super().list(options)
        items = r["items"] if isinstance(r, dict) else r.items
        v = r["metadata"]["resourceVersion"] if isinstance(r, dict) else r.metadata.resource_version
        t.listed = (items, v)
        return r

    async def watch(self, options):
        t = self.tape
        t.log.append(("watch", options.get("resource_version")))
        self.over("a watch")
        if not t.replaced:
            t.bad("a watch before the list was put into the store")
        if not t.lossy:
            if options["resource_version"] != t.version:
                t.bad(f"a watch from {options['resource_version']}, the last event applied or list was {t.version}")
            if self.reflector.last_sync_resource_version() != t.version:
                t.bad(f"reports {self.reflector.last_sync_resource_version()}, the last event applied or list was {t.version}")
        s = await super().watch(options)
        self.streams.remove(s)
        n = TapedStream(self, s.at)
        n.tape = t
        self.streams.append(n)
        self.all.append(n)
        return n


def setup(rng, period=0):
    from aiok8s.cache import reflector
    from aiok8s.runtime.schema import GroupVersionKind
    _random.seed(rng.random())
    make = rng.choice([Obj, raw])
    srv = TapedServer(rng, make)
    for n in NAMES[:rng.randrange(3)]:
        srv.put(n)
    expected = rng.choice([Obj, None]) if make is Obj else rng.choice([GroupVersionKind("", "v1", "Pod"), None])
    r = reflector.Reflector(srv, expected, srv.tape, period)
    srv.reflector = r
    srv.lenient = expected is None
    if expected is None:
        srv.tape.right = lambda o: not isinstance(o, Bare) and not (isinstance(o, dict) and "metadata" not in o)
    return srv, r, srv.tape


def foreign(rng, srv):
    v = str(len(srv.history) if srv.lenient else 90000 + rng.randrange(1000))
    if srv.make is Obj:
        return rng.choice([Foreign(v), Bare()])
    o = raw("f", "d", v, 0)
    k = rng.randrange(3)
    if k == 0:
        o["kind"] = "Node"
    elif k == 1:
        o["apiVersion"] = "apps/v1"
    else:
        del o["metadata"]
    return o


async def quiet(srv, t, what):
    """Whatever was received has been applied by now and the versions agree."""
    check(not t.errors, lambda: f"{what}: {t.errors[0]}")
    if not srv.streams or t.lossy:
        return
    check(not t.due, lambda: f"{what}: received and not applied: {t.due}; {t.log[-12:]}")
    if t.replaced:
        check(srv.reflector.last_sync_resource_version() == t.version, lambda: (
            f"{what}: reports version {srv.reflector.last_sync_resource_version()}, applied {t.version}; {t.log[-12:]}"))


def change(rng, srv):
    if rng.random() < 0.7:
        srv.put(rng.choice(NAMES))
    else:
        srv.delete(rng.choice(NAMES))


@scenario("C18", 2)
def applies(rng):
    """Random changes, foreign objects, bookmarks, failing store operations, closing watches."""
    async def go():
        srv, r, t = setup(rng, rng.choice([0, 0, 3]))
        t.fail_ops = rng.choice([0, 0, 0.4])
        task = asyncio.ensure_future(r.run())
        lists = 0
        for step in range(rng.randrange(4, 25)):
            k = rng.random()
            if k < 0.5:
                for _ in range(rng.randrange(1, 4)):
                    change(rng, srv)
                    await jig(rng, 0.3)
            elif k < 0.6 and srv.streams:
                srv.streams[-1].inject({"type": rng.choice(list(OPS)), "object": foreign(rng, srv)})
            elif k < 0.7 and srv.streams:
                b = srv.make("a", "d", len(srv.history), 0)
                srv.streams[-1].inject({"type": "BOOKMARK", "object": b})
            elif k < 0.8 and srv.streams:
                srv.streams[-1].end()
            elif k < 0.83 and srv.streams:
                srv.streams[-1].end(oops("broken"))
            elif k < 0.85 and srv.streams:
                srv.streams[-1].inject({"type": "ERROR", "object": {}})
            else:
                await asyncio.sleep(rng.choice([0.1, 1.2]))
            if rng.random() < 0.6:
                await settle(60)
                await quiet(srv, t, "while running")
        await asyncio.sleep(3)
        await settle(60)
        await quiet(srv, t, "at the end")
        check(len(srv.lists) >= 1, "never listed")
        check(srv.streams, "no watch is running 3 s after the last failure")
        change(rng, srv)
        await settle(60)
        await quiet(srv, t, "after a last change")
        check(srv.streams[-1].at == len(srv.history), "the watch does not read its events")
        task.cancel()
        await asyncio.wait([task])
    run(go, limit=1e5)


@scenario("C19", 2)
def recovers(rng):
    """One failure after another, of every kind: each ends the round, everything of it is stopped, the next one lists."""
    async def go():
        period = rng.choice([0, 2.0])
        srv, r, t = setup(rng, period)
        others = asyncio.all_tasks()
        task = asyncio.ensure_future(r.run())
        rest = getattr(r, "_period", 1)
        await asyncio.sleep(0.5)
        await settle(60)

        async def mine():
            await settle(60)
            return len([x for x in asyncio.all_tasks() - others if not x.done()])
        for step in range(rng.randrange(2, 9)):
            check(not task.done(), lambda: f"the reflector ended by itself: {task!r}")
            check(srv.streams, lambda: f"no watch is running; {t.log[-10:]}")
            s = srv.streams[-1]
            check(s.entered == 1, "the watch is not entered once")
            kind = rng.choice(["error", "exception", "close", "empty", "resync", "list", "watch", "rewatch", "replace", "ops"])
            tail = rng.random() < 0.5
            n = len(srv.lists)
            full = False
            if tail and kind != "empty":
                for _ in range(rng.randrange(1, 3)):
                    srv.put(rng.choice(NAMES))
                    full = True
                await jig(rng, 0.5)
            if kind == "error":
                s.inject({"type": "ERROR", "object": {}})
            elif kind == "exception":
                s.end(oops("stream broke"))
            elif kind == "ops":
                t.fail_ops = 1.0
                srv.put("a")
                srv.put("b")
                await settle(60)
                t.fail_ops = 0.0
                check(len(srv.lists) == n and not s.closed, "a failing store operation stopped the watch")
                continue
            elif kind == "close":
                await asyncio.sleep(1.5)
                await settle(60)
                n = len(srv.lists)
                s = srv.streams[-1]
                w = len(srv.watches)
                s.end()
                await settle(80)
                check(s.closed, "a watch that ended is not left")
                check(len(srv.lists) == n, "a watch that closed normally led to a new list")
                check(len(srv.watches) == w + 1, lambda: f"a watch that closed normally was not started again; {t.log[-8:]}")
                continue
            elif kind == "empty":
                # a new watch that closes at once
                await asyncio.sleep(1.5)
                await settle(60)
                s = srv.streams[-1]
                s.end()
                await settle(80)
                n = len(srv.lists)
                s = srv.streams[-1]
                s.end()
            elif kind == "resync":
                if not period:
                    continue
                t.fail_resync = True
                for _ in range(int((period + 0.1) / 0.05)):
                    if t.fail_resync:
                        await asyncio.sleep(0.05)
                check(not t.fail_resync, lambda: f"no resync within its period; {t.log[-8:]}")
            elif kind == "list":
                srv.fail_list = rng.randrange(1, 4)
                fails = srv.fail_list
                s.end(oops("gone"))
                await settle(80)
                for _ in range(fails):
                    await asyncio.sleep(rest + 0.01)
                    await settle(80)
            elif kind == "watch":
                srv.fail_watch = 1
                s.end(oops("gone"))
                await asyncio.sleep(rest + 0.01)
                await settle(80)
                check(srv.fail_watch == 0, lambda: f"no watch was tried; {t.log[-8:]}")
            elif kind == "rewatch":
                # the watch closes normally, the call that starts it again fails
                await asyncio.sleep(1.5)
                srv.put("c")
                await settle(60)
                n = len(srv.lists)
                s = srv.streams[-1]
                srv.fail_watch = 1
                s.end()
                await settle(80)
                check(srv.fail_watch == 0, lambda: f"a watch that closed normally was not started again; {t.log[-8:]}")
            elif kind == "replace":
                t.fail_replace = True
                s.end(oops("gone"))
                await asyncio.sleep(rest + 0.01)
                await settle(80)
                check(not t.fail_replace, lambda: f"no list after a broken stream; {t.log[-8:]}")
            await settle(80)
            check(s.closed, lambda: f"after {kind}: the watch is not left; {t.log[-8:]}")
            left = await mine()
            check(left <= 1, lambda: f"after {kind}: {left - 1} background tasks of the round are left; {t.log[-8:]}")
            at = now()
            k = len(srv.lists)
            await asyncio.sleep(rest + 0.01)
            await settle(80)
            check(len(srv.lists) > n and len(srv.lists) == k + 1, lambda: (
                f"after {kind}: {len(srv.lists) - k} lists in the period after the failure; {t.log[-8:]}"))
            check(srv.list_times[-1] - at >= rest * 0.5, lambda: f"after {kind}: lists again at once")
            check(not t.errors, lambda: f"after {kind}: {t.errors[0]}")
        await settle(80)
        await quiet(srv, t, "at the end")
        await jig(rng)
        if rng.random() < 0.5:
            change(rng, srv)
        if rng.random() < 0.3 and srv.streams:
            srv.streams[-1].end(oops("broken"))
        await jig(rng, 0.8, 12)
        task.cancel()
        await within(asyncio.wait([task]), 5, "cancelling a reflector")
        check(task.cancelled(), lambda: f"a cancelled reflector ends with {task!r}")
        await settle(30)
        check(all(s.closed for s in srv.all if s.entered), "a cancelled reflector leaves its watch open")
        check(await mine() == 0, "a cancelled reflector leaves background tasks")
    run(go, limit=1e5)


@scenario("C19", 1)
def cancelled(rng):
    """Cancelling at any moment ends everything."""
    async def go():
        srv, r, t = setup(rng, rng.choice([0, 0.5]))
        srv.fail_list = rng.choice([0, 0, 1])
        srv.fail_watch = rng.choice([0, 0, 1])
        others = asyncio.all_tasks()
        task = asyncio.ensure_future(r.run() if rng.random() < 0.6 else r.list_and_watch())
        if rng.random() < 0.5:
            await asyncio.sleep(rng.choice([0.1, 0.5, 1.0, 1.5]))
        for _ in range(rng.randrange(25)):
            await asyncio.sleep(0)
        for _ in range(rng.randrange(3)):
            change(rng, srv)
        if rng.random() < 0.3 and srv.streams:
            srv.streams[-1].end(rng.choice(["close", oops("x")]))
        for _ in range(rng.randrange(12)):
            await asyncio.sleep(0)
        was = task.done()
        task.cancel()
        await within(asyncio.wait([task]), 5, "cancelling a reflector")
        check(was or task.cancelled(), lambda: f"a cancelled reflector ends with {task!r}")
        await settle(30)
        check(all(s.closed for s in srv.all if s.entered), "a cancelled reflector leaves its watch open")
        left = [x for x in asyncio.all_tasks() - others if not x.done()]
        check(not left, lambda: f"a cancelled reflector leaves {left}")
        check(not t.errors, lambda: t.errors[0])
    run(go, limit=1e5)
