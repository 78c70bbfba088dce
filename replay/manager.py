"""Managers, informer caches and reads: C28 (and what a cache lists and watches: C29)."""
import asyncio
from types import SimpleNamespace

from lib import check, jig, now, oops, run, scenario, settle, within
from server import Obj, Server, rv


class Syncs:
    def __init__(self, at):
        self.at, self.asked = at, 0

    def __call__(self):
        self.asked += 1
        return self.at is not None and now() >= self.at


@scenario("C28")
def waiting(rng):
    from aiok8s.cache import shared_informer

    async def go():
        fs = [Syncs(rng.choice([0, 0, 0.5, 1, 3.3])) for _ in range(rng.randrange(5))]
        if rng.random() < 0.5:
            for f in fs:
                f.at *= rng.choice([0, 1, 20])
        if fs and rng.random() < 0.2:
            rng.choice(fs).at = None
        t0 = now()
        t = asyncio.ensure_future(shared_informer.wait_for_cache_sync(*fs))
        never = any(f.at is None for f in fs)
        last = max([0] + [f.at for f in fs if f.at is not None])
        if never or rng.random() < 0.2:
            await asyncio.sleep(rng.choice([0, 2, 100]))
            if never:
                check(not t.done(), "it stopped waiting although an informer has not synced")
            elif t.done():
                check(t.result() and now() >= last, "success reported before every informer had synced")
                return
            t.cancel()
            try:
                r = await within(t, 1, "a cancelled wait")
            except asyncio.CancelledError:
                return
            check(not r, "a cancelled wait reported success")
            return
        r = await within(t, last + 10, "waiting for informers that have synced")
        check(r is True or r == 1, f"waiting returned {r!r} though all have synced")
        check(now() - t0 >= last, "success reported before every informer had synced")
        check(now() - t0 <= last + 2, f"it waited until {now() - t0}, the last informer synced at {last}")
    run(go)


# ---------------------------------------------------------------- a manager with plain runnables
class Cache:
    def __init__(self, rng, log):
        self.log, self.ok, self.delay = log, rng.random() < 0.75, rng.choice([0, 0, 1, 5])
        self.runs, self.running, self.ended = 0, False, rng.random() < 0.3

    async def start(self):
        self.runs += 1
        self.running = True
        self.log.append("cache")
        try:
            await asyncio.Event().wait()
        finally:
            self.running = False

    async def wait_for_cache_sync(self):
        if self.delay:
            await asyncio.sleep(self.delay)
        self.log.append("synced" if self.ok else "failed")
        return self.ok


class Runs:
    def __init__(self, log, name):
        self.log, self.name, self.cache, self.f, self.n = log, name, None, None, 0

    def inject_cache(self, c):
        self.cache = c

    def inject_func(self, f):
        self.f = f

    async def start(self):
        self.n += 1
        self.log.append(self.name)
        await asyncio.Event().wait()


class Bare:
    def __init__(self, log, name):
        self.log, self.name, self.n = log, name, 0

    async def start(self):
        self.n += 1
        self.log.append(self.name)


class Field:
    cache = None

    def inject_cache(self, c):
        self.cache = c


@scenario("C28")
def managers(rng):
    from aiok8s.controller import manager

    async def go():
        log = []
        c = Cache(rng, log)
        m = manager._ControllerManager(c)
        check(m.get_cache() is c, "get_cache gives another cache")
        rs = [rng.choice([Runs, Runs, Bare])(log, f"r{i}") for i in range(rng.randrange(4))]
        for r in rs:
            m.add(r)
        for r in rs:
            if isinstance(r, Runs):
                check(r.cache is c, "an added controller has not got the cache")
                f = Field()
                r.f(f)
                check(f.cache is c, "the fields of a controller are set to another cache")
        t = asyncio.ensure_future(m.start())
        await asyncio.sleep(c.delay / 2)
        if c.delay:
            check(not any(r.n for r in rs), "a controller started before the cache had synced")
            if rng.random() < 0.2:
                t.cancel()
                await asyncio.wait([t], timeout=5)
                check(t.done(), "a cancelled manager goes on")
                await settle()
                check(not c.running, "a manager cancelled before the sync leaves its cache running")
                check(not any(r.n for r in rs), "a cancelled manager starts controllers")
                return
        await asyncio.sleep(c.delay / 2 + 1)
        await settle()
        if not c.ok:
            check(not any(r.n for r in rs), "controllers were started though the cache did not sync")
            check(t.done() and t.exception() is not None, "a manager whose cache does not sync goes on")
            check(not c.running, "a manager whose cache did not sync leaves it running")
            return
        check(all(r.n == 1 for r in rs), f"after the sync the controllers were started {[r.n for r in rs]} times")
        check(c.runs == 1, f"the cache was started {c.runs} times")
        check(all(log.index("synced") < log.index(r.name) for r in rs), f"started too early: {log}")
        check(not t.done(), "start ended while the cache runs")
        t.cancel()
        await asyncio.wait([t], timeout=5)
        check(t.done(), "a cancelled manager goes on")
        await settle()
        check(not c.running, "the cache outlives its manager")
    run(go)


# ---------------------------------------------------------------- informer caches over a server
class Gate:
    """Listing waits until the gate opens."""

    def __init__(self, srv):
        self.srv, self.open, self.asked = srv, asyncio.Event(), []

    async def list(self, **options):
        self.asked.append(("list", options))
        await self.open.wait()
        return await self.srv.list(options)

    def watch(self, **options):
        self.asked.append(("watch", options))
        return Opening(self.srv, options)


class Opening:
    """The stream of a watch: opened when entered."""

    def __init__(self, srv, options):
        self.srv, self.options, self.s = srv, options, None

    async def __aenter__(self):
        self.s = await self.srv.watch(self.options)
        await self.s.__aenter__()
        return self

    async def __aexit__(self, *a):
        if self.s is not None:
            await self.s.__aexit__(*a)

    def __aiter__(self):
        return self

    async def __anext__(self):
        return await self.s.__anext__()

    async def stop(self):
        await self.__aexit__()


class World:
    """A few kinds of objects, each on a server of its own."""

    def __init__(self, rng, n=2):
        from aiok8s.controller import client
        from aiok8s.runtime import schema
        self.client, self.rng = client, rng
        self.kinds, self.gates, self.asked = [], [], []
        self.saved = [dict(client._GVK_TO_CLIENT_CLS), dict(client._GVK_TO_OBJECT_TYPE), dict(client._OBJECT_TYPE_TO_GVK)]
        for i in range(n):
            t = type(f"T{i}", (Obj,), {})
            g = Gate(Server(rng, t))
            world = self

            class C(client._Client):
                gvk = schema.GroupVersionKind("g", "v1", f"K{i}")
                object_type = t
                api_cls = staticmethod(lambda api_client: None)
                gate = g

                def _get_lister(self, namespace):
                    world.asked.append(("lister", self.gate, namespace))
                    return self.gate.list

                def _get_watcher(self, namespace):
                    world.asked.append(("watcher", self.gate, namespace))
                    return self.gate.watch
            self.kinds.append(t)
            self.gates.append(g)

    def close(self):
        c = self.client
        for d, s in zip([c._GVK_TO_CLIENT_CLS, c._GVK_TO_OBJECT_TYPE, c._OBJECT_TYPE_TO_GVK], self.saved):
            d.clear()
            d.update(s)


NAMES = ["a", "b", "c"]


def name_of(ns, name):
    from aiok8s.controller import reconcile
    try:
        return reconcile.Request(name=name, namespace=ns).namespaced_name
    except TypeError:
        return SimpleNamespace(namespace=ns, name=name)


@scenario("C28", 2)
def reads(rng):
    from aiok8s.controller import cache as caches

    async def go():
        W = World(rng)
        try:
            c = caches.new(resync=rng.choice([50, 1000]))
            asked = [i for i in range(2) if rng.random() < 0.8]
            for g in W.gates:
                for n in NAMES:
                    if rng.random() < 0.5:
                        g.srv.put(n)
            same = {i: [] for i in asked}

            async def informer(i):
                await jig(rng)
                same[i].append(await c.get_informer(W.kinds[i]))
            await asyncio.gather(*[informer(i) for i in asked for _ in range(rng.randrange(1, 4))])
            if rng.random() < 0.5:
                i = rng.randrange(2)
                try:
                    await within(c.get(name_of("d", "a"), W.kinds[i]), 1, "reading a cache that is not started")
                    check(False, "a cache that is not started can be read")
                except caches.CacheNotStartedError:
                    pass
                if i not in asked:
                    asked.append(i)
                    same[i] = []
            w = asyncio.ensure_future(c.wait_for_cache_sync()) if rng.random() < 0.4 else None
            await jig(rng)
            t = asyncio.ensure_future(c.start())
            race, refused = rng.randrange(2) if rng.random() < 0.5 else None, []
            if race is not None:
                async def racing():
                    for _ in range(rng.randrange(4)):
                        await asyncio.sleep(0)
                    try:
                        await c.get(name_of("d", "a"), W.kinds[race])
                    except caches.CacheNotStartedError:
                        refused.append(race)
                    except KeyError:
                        pass
                rt = asyncio.ensure_future(racing())
            if w is None:
                w = asyncio.ensure_future(c.wait_for_cache_sync())
            await settle()
            if refused and race not in asked:
                asked.append(race)          # requested before the start: refused only until then
                same[race] = []
            elif race is not None and race not in asked:
                rt.cancel()
                t.cancel()
                return                      # requested after it: not run
            results = {}

            async def read(i, n):
                await jig(rng)
                try:
                    results[i, n] = await c.get(name_of("d", n), W.kinds[i])
                except KeyError:
                    results[i, n] = None
            early = [(i, rng.choice(NAMES)) for i in asked for _ in range(rng.randrange(3))]
            ts = {k: asyncio.ensure_future(read(*k)) for k in set(early)}
            ts.update({("inf", i): asyncio.ensure_future(informer(i)) for i in asked if rng.random() < 0.5})
            order = list(asked)
            rng.shuffle(order)
            for j, i in enumerate(order):
                await asyncio.sleep(rng.choice([0.05, 1, 2.5]))
                check(not w.done(), "the cache counts as synced before its informers have")
                for k, x in ts.items():
                    if k[0] == i:
                        check(not x.done(), f"reading {k} ended before its informer had synced: {results.get(k)!r}")
                W.gates[i].open.set()
            r = await within(w, 10, "waiting for the sync of the cache")
            check(bool(r), "the cache reports no sync though all informers have synced")
            for x in ts.values():
                await within(x, 10, "reading")
            for (i, n), o in list(results.items()):
                want = W.gates[i].srv.objs.get("d/" + n)
                check((o is None) == (want is None) and (o is None or rv(o) == rv(want) and o.metadata.name == n),
                      f"reading {n} gave {o!r} instead of {want!r}")
            for _ in range(rng.randrange(4)):
                i = rng.randrange(2)
                if rng.random() < 0.5:
                    W.gates[i].srv.put(rng.choice(NAMES), rng.choice(["d", "e"]))
                else:
                    W.gates[i].srv.delete(rng.choice(NAMES))
            await asyncio.sleep(3)
            for i in asked:
                ix = (await c.get_informer(W.kinds[i]))
                same[i].append(ix)
                check(all(x is same[i][0] for x in same[i]), "requests for one kind got different informers")
                lists = [k for k, _ in W.gates[i].asked if k == "list"]
                check(len(lists) == 1, f"{len(lists)} lists for one kind")
                for ns in ["d", "e"]:
                    for n in NAMES:
                        want = W.gates[i].srv.objs.get(ns + "/" + n)
                        try:
                            o = await within(c.get(name_of(ns, n), W.kinds[i]), 2, "reading a synced cache")
                        except KeyError:
                            o = None
                        check((o is None) == (want is None) and (o is None or rv(o) == rv(want)),
                              f"reading {ns}/{n} gave {o!r} instead of {want!r}")
            if len(asked) == 2:
                check(same[asked[0]][0] is not same[asked[1]][0], "two kinds share an informer")
            check(not asked or not t.done(), "start ended while the informers run")
            t.cancel()
            await asyncio.wait([t], timeout=20)
            check(t.done(), "a cancelled cache goes on")
        finally:
            W.close()
    run(go)


@scenario("C28", 2)
def whole(rng):
    """Builder, manager, controllers, cache: in the end every object was reconciled in its last state."""
    from aiok8s.controller import builder, manager, reconcile

    async def go():
        W = World(rng, rng.choice([1, 2]))
        try:
            m = manager.new()
            c = m.get_cache()
            seen, started = [{} for _ in W.kinds], []
            for i, t in enumerate(W.kinds):
                class R:
                    def __init__(self, i, t):
                        self.i, self.t, self.busy = i, t, set()

                    async def reconcile(self, req):
                        nn = req.namespaced_name
                        k = (nn.namespace or "") + "/" + nn.name
                        check(all(g.open.is_set() for g in W.gates), f"{k} is reconciled before the cache has synced")
                        check(k not in self.busy, f"{k} is reconciled twice at a time")
                        self.busy.add(k)
                        try:
                            at = len(W.gates[self.i].srv.history)
                            try:
                                o = await c.get(nn, self.t)
                            except KeyError:
                                o = None
                            await asyncio.sleep(rng.choice([0, 0, 0.3]))
                            seen[self.i][k] = None if o is None else rv(o)
                            if rng.random() < 0.15:
                                raise oops("try again")
                            return reconcile.Result(requeue=rng.random() < 0.1)
                        finally:
                            self.busy.discard(k)
                await builder.build_controller(m, R(i, t), api_type=t)
            for g in W.gates:
                for n in NAMES:
                    if rng.random() < 0.5:
                        g.srv.put(n)
            run_ = asyncio.ensure_future(m.start())
            await settle()
            for g in rng.sample(W.gates, len(W.gates)):
                if rng.random() < 0.5:
                    await asyncio.sleep(rng.random() * 2)
                g.open.set()
            ever = [set(g.srv.objs) for g in W.gates]
            for _ in range(rng.randrange(12)):
                i = rng.randrange(len(W.gates))
                n, ns = rng.choice(NAMES), rng.choice(["d", "d", "e"])
                if rng.random() < 0.6:
                    W.gates[i].srv.put(n, ns)
                    ever[i].add(ns + "/" + n)
                else:
                    W.gates[i].srv.delete(n, ns)
                await asyncio.sleep(rng.choice([0, 0, 0.4, 2]))
            await asyncio.sleep(60)
            check(not run_.done(), "the manager ended")
            for i, g in enumerate(W.gates):
                want = {k: rv(o) for k, o in g.srv.objs.items()}
                for k in ever[i]:
                    if k in want:
                        check(seen[i].get(k) == want[k], f"last reconciled {k} as {seen[i].get(k)!r}, it is {want[k]!r}")
                    else:
                        check(seen[i].get(k) is None, f"the deletion of {k} was not reconciled")
            run_.cancel()
            await asyncio.wait([run_], timeout=20)
            check(run_.done(), "a cancelled manager goes on")
        finally:
            W.close()
    run(go, limit=1e6)


@scenario("C29", 2)
def scoped(rng):
    """What a cache's informers ask of the server, over lists, watches and failures."""
    from aiok8s.controller import cache as caches

    async def go():
        W = World(rng)
        try:
            ns = rng.choice([None, "", "d", "other"])
            c = caches.new(resync=rng.choice([0, 7]), **({} if ns is None and rng.random() < 0.5 else {"namespace": ns}))
            kinds = [i for i in range(2) if rng.random() < 0.8]
            for i in kinds:
                await c.get_informer(W.kinds[i])
                W.gates[i].open.set()
            t = asyncio.ensure_future(c.start())
            for _ in range(rng.randrange(5)):
                i = rng.randrange(2)
                W.gates[i].srv.put(rng.choice(NAMES))
                if rng.random() < 0.4:
                    W.gates[i].srv.drop(rng.random() < 0.5)
                    W.gates[i].srv.heal()
                await asyncio.sleep(rng.choice([0, 1, 4]))
            await asyncio.sleep(2)
            for i, g in enumerate(W.gates):
                check(bool(g.asked) == (i in kinds), f"kind {i}: {g.asked}")
                check(i not in kinds or {w for w, _ in g.asked} == {"list", "watch"}, f"kind {i} was only asked for {g.asked}")
                for what, o in g.asked:
                    want = {"list": set(), "watch": {"resource_version", "timeout_seconds"}}[what]
                    rest = set(o) - {"resource_version"} if what == "list" else set(o)
                    check(rest - {"namespace"} == want, f"{what} with the options {o}")
                    check(("namespace" in o) == bool(ns) and o.get("namespace") == (ns or None),
                          f"{what} of the cache for namespace {ns!r} with the options {o}")
            for what, g, n in W.asked:
                check((n or None) == (ns or None), f"a {what} for namespace {n!r} in a cache for {ns!r}")
            t.cancel()
            await asyncio.wait([t], timeout=20)
        finally:
            W.close()
    run(go)


@scenario("C29")
def clients(rng):
    from aiok8s.controller import client
    from aiok8s.runtime import schema
    from kubernetes_asyncio.client import models

    async def go():
        W = World(rng, 2)
        try:
            for t, g in zip(W.kinds, W.gates):
                gvk = client.gvk_for_object(t)
                check(client.rest_client_for_gvk(gvk).gate is g, "a type leads to another type's client")
                known = dict(client._OBJECT_TYPE_TO_GVK)
                other = type("Other", (), {})
                try:
                    type("C", (client._Client,), {"gvk": gvk, "object_type": other})
                    check(False, "a kind got a second client")
                except AssertionError:
                    pass
                check(client._OBJECT_TYPE_TO_GVK == known, "a refused client was registered")
                check(client.rest_client_for_gvk(gvk).gate is g, "a refused client replaced the kind's own")
            try:
                client.gvk_for_object(type("T", (), {}))
                check(False, "a type that is not registered has a kind")
            except KeyError:
                pass
            try:
                client.rest_client_for_gvk(schema.GroupVersionKind("x", "v1", "Nothing"))
                check(False, "a kind that is not registered has a client")
            except KeyError:
                pass
            gvk = client.gvk_for_object(models.V1Pod)
            check(gvk == schema.GroupVersionKind("", "v1", "Pod"), f"pods are {gvk}")
            made, watch = [], client.watch.Watch

            class Watch:
                def stream(self, f, **kw):
                    made.append((self, f, kw))
                    return self
            client.watch.Watch = Watch
            try:
                pods = client.rest_client_for_gvk(gvk)
                for ns in [None, "", "d"]:
                    want = "list_namespaced_pod" if ns else "list_pod_for_all_namespaces"
                    check(pods._get_lister(ns).__name__ == want, f"pods of {ns!r} are listed with {pods._get_lister(ns).__name__}")
                    ws = [pods._get_watcher(ns)(resource_version=v) for v in ("1", "2")]
                    check(ws[0] is not ws[1] or made[-1][0] is not made[-2][0], "two watches share one stream")
                    check([(f.__name__, kw["resource_version"]) for _, f, kw in made[-2:]] == [(want, "1"), (want, "2")], f"watches {made[-2:]}")
                ac = pods._api_client.api_client
                await ac.close()
            finally:
                client.watch.Watch = watch
        finally:
            W.close()
    run(go)
