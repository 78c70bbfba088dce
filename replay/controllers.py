"""Controllers, sources, handlers, identity: C25, C26, C27."""
import asyncio
from types import SimpleNamespace

from lib import Stuck, Violation, check, now, oops, run, scenario, settle, within

NS = ["", None, "default", "kube-system", "a", "b", "ab", "a-b"]
NAMES = ["x", "y", "web-0", "a", "b", "ab", "a.b", "X", "Web", "a-b-0", "default-token", " x", "ab-", "default"]


def make(form, ns, name, absent=False, **extra):
    if form == "dict":
        md = {"name": name, "uid": "u-" + name, "resourceVersion": "7"}
        if not (absent and ns is None):
            md["namespace"] = ns
        return dict({"metadata": md, "apiVersion": extra.get("api", "v1"), "kind": extra.get("kind", "Pod")})
    return SimpleNamespace(metadata=SimpleNamespace(name=name, namespace=ns, uid="u-" + name, resource_version="7"),
                           api_version=extra.get("api", "v1"), kind=extra.get("kind", "Pod"))


def form(rng):
    return rng.choice(["dict", "typed"])


def want_key(ns, name):
    return f"{ns}/{name}" if ns else name


@scenario("C27", 2)
def keys(rng):
    """Store keys of typed and dict objects, tombstones, explicit keys, lookups and group/version/kind."""
    from aiok8s.api import meta
    from aiok8s.cache import controller, delta_fifo, index, store
    from aiok8s.controller import _cache_reader, reconcile
    seen = {}
    for _ in range(20):
        ns, name, f = rng.choice(NS), rng.choice(NAMES), form(rng)
        api = rng.choice(["v1", "apps/v1", "batch/v1beta1", "custom.example.com/v2", "v2alpha1"])
        kind = rng.choice(["Pod", "Deployment", "Job"])
        o = make(f, ns, name, absent=rng.random() < 0.5, api=api, kind=kind)
        k = want_key(ns, name)
        what = f"{f} object namespace={ns!r} name={name!r}"
        for fn in (store.meta_namespace_key_func, controller.deletion_handling_meta_namespace_key_func):
            got = fn(o)
            check(got == k, f"{fn.__name__}({what}) = {got!r}, expected {k!r}")
        check(seen.setdefault(k, (ns or "", name)) == (ns or "", name), f"{what} shares key {k!r} with {seen[k]}")
        t = controller.deletion_handling_meta_namespace_key_func(delta_fifo.DeletedFinalStateUnknown(k + "!", o))
        check(t == k + "!", f"key of a tombstone with key {k + '!'!r}: {t!r}")
        e = store.meta_namespace_key_func(store.ExplicitKey(k))
        check(e == k and type(e) is str, f"explicit key {k!r} gives {e!r}")
        gvk = meta.type_accessor(o).group_version_kind
        g, v = api.split("/") if "/" in api else ("", api)
        check(tuple(gvk) == (g, v, kind), f"group/version/kind of apiVersion {api!r}, kind {kind!r}: {tuple(gvk)}")
        a = meta.accessor(o)
        check((a.namespace, a.name, a.uid, a.resource_version) == (ns, name, "u-" + name, "7"), f"accessor of {what}")
        a.resource_version = "8"
        check(meta.accessor(o).resource_version == "8", f"{what}: the resource version written is not read back")
        check(list(index.meta_namespace_index_func(o)) == [ns], f"namespace index of {what}")

    async def look():
        ix = store.new_indexer(controller.deletion_handling_meta_namespace_key_func, {})
        model = {}
        for _ in range(12):
            ns, name = rng.choice(NS), rng.choice(NAMES)
            o = make(form(rng), ns, name, absent=True)
            await ix.add(o)
            model[(ns or "", name)] = o
        rd = _cache_reader.CacheReader(ix, None)
        for ns in NS:
            for name in NAMES:
                o = model.get((ns or "", name))
                try:
                    got = rd.get(reconcile.NamespacedName(namespace=ns, name=name))
                except KeyError:
                    got = None
                check(got is o, f"lookup of {ns!r}/{name!r} finds {got}, expected {o}")
    run(look)
    for bad in ({}, SimpleNamespace(), None, 3):
        try:
            meta.accessor(bad)
        except Exception:
            pass
        else:
            raise Violation(f"accessor accepts {bad!r}, which has no metadata")


class Pred:
    def __init__(self, rng, log):
        self.verdict = {k: rng.random() < 0.75 for k in ("create", "update", "delete")}
        self.log = log

    def create(self, e):
        self.log.append(("create", e))
        return self.verdict["create"]

    def update(self, e):
        self.log.append(("update", e))
        return self.verdict["update"]

    def delete(self, e):
        self.log.append(("delete", e))
        return self.verdict["delete"]


@scenario("C26", 2)
def events(rng):
    """Events through the source's handler into a real queue, with any predicates; tombstones; no metadata."""
    from aiok8s.cache import delta_fifo
    from aiok8s.controller import handler, reconcile, source
    from aiok8s.workqueue import rate_limiting_queue

    class Informer:
        async def add_event_handler(self, h, *a):
            self.h = h

    class Cache:
        async def get_informer(self, t):
            self.t = t
            return inf

    inf = Informer()

    async def main():
        q = rate_limiting_queue.new()
        log = []
        preds = [Pred(rng, log) for _ in range(rng.randrange(4))]
        k = source.Kind("the type")
        c = Cache()
        k.inject_cache(c)
        await k.start(handler.EnqueueRequestForObject(), q, *preds)
        check(c.t == "the type", f"informer asked for {c.t}")
        h = inf.h

        def req(ns, name):
            return reconcile.Request(reconcile.NamespacedName(namespace=ns, name=name))
        for _ in range(12):
            log.clear()
            kind = rng.choice(["create", "update", "delete", "tombstone", "none"])
            f, ns, name = form(rng), rng.choice(NS), rng.choice(NAMES)
            o = make(f, ns, name, absent=rng.random() < 0.5)
            ok = all(p.verdict["delete" if kind == "tombstone" else kind] for p in preds) if kind != "none" else False
            want = {req(ns, name)} if ok else set()
            if kind == "create":
                await h.on_add(o)
            elif kind == "update":
                ns2, name2 = (ns, name) if rng.random() < 0.5 else (rng.choice(NS), rng.choice(NAMES))
                o2 = make(f, ns2, name2, absent=True)
                if ok:
                    want.add(req(ns2, name2))
                await h.on_update(o, o2)
            elif kind == "delete":
                await h.on_delete(o)
            elif kind == "tombstone":
                await h.on_delete(delta_fifo.DeletedFinalStateUnknown(want_key(ns, name), o))
            else:
                bad = rng.choice([{}, SimpleNamespace(), None, {"spec": 1}])
                await rng.choice([lambda: h.on_add(bad), lambda: h.on_delete(bad), lambda: h.on_update(bad, o),
                                  lambda: h.on_update(o, bad),
                                  lambda: h.on_delete(delta_fifo.DeletedFinalStateUnknown("k", bad))])()
            got = set()
            while len(q):
                i, down = await q.get()
                got.add(i)
                await q.done(i)
            check(got == want, f"{kind} of {f} {ns!r}/{name!r} (verdicts {[p.verdict for p in preds]}) "
                               f"enqueued {sorted(map(str, got))}, expected {sorted(map(str, want))}")
            for kk, e in log:
                if kk == "update":
                    check(e.object_old is o and e.object_new is o2 and e.meta_old.name == name
                          and e.meta_new.name == name2, f"predicate saw {e}")
                else:
                    check(e.object is o and e.meta.name == name and e.meta.namespace == ns, f"predicate saw {e}")
    run(main)


@scenario("C26", 0.5)
def direct(rng):
    """Events given to the handler itself, with and without metadata on each side."""
    from aiok8s.controller import event, handler, reconcile
    from aiok8s.workqueue import rate_limiting_queue

    async def main():
        q = rate_limiting_queue.new()
        h = handler.EnqueueRequestForObject()

        def side():
            if rng.random() < 0.4:
                return None, set()
            ns, name = rng.choice(NS), rng.choice(NAMES)
            return SimpleNamespace(name=name, namespace=ns), {reconcile.Request(reconcile.NamespacedName(namespace=ns, name=name))}
        for _ in range(6):
            (m1, r1), (m2, r2) = side(), side()
            kind = rng.choice(["create", "update", "update", "delete"])
            if kind == "create":
                await h.create(event.CreateEvent(meta=m1, object=object()), q)
            elif kind == "delete":
                await h.delete(event.DeleteEvent(meta=m1, object=object()), q)
            else:
                await h.update(event.UpdateEvent(meta_old=m1, object_old=object(), meta_new=m2, object_new=object()), q)
            want = r1 | r2 if kind == "update" else r1
            got = set()
            while len(q):
                i, _down = await q.get()
                got.add(i)
                await q.done(i)
            check(got == want, f"{kind} with metadata {m1} {m2} enqueued {sorted(map(str, got))}, expected {sorted(map(str, want))}")
    run(main)


class Manager:
    def __init__(self, cache):
        self.cache = cache

    def set_fields(self, i):
        pass

    def add(self, c):
        c.inject_func(self.set_fields)

    def get_cache(self):
        return self.cache


class SyncedCache:
    def __init__(self, ok=True):
        self.ok = ok

    async def wait_for_cache_sync(self):
        await asyncio.sleep(0)
        return self.ok


class Feed:
    def __init__(self):
        self.q = asyncio.get_event_loop().create_future()

    async def start(self, handler, queue, *predicates):
        self.q.set_result(queue)


@scenario("C25", 3)
def outcomes(rng):
    """A running controller: what each reconcile outcome leads to, seen through the next reconciles and the queue."""
    from aiok8s.controller import controller, reconcile

    async def main():
        calls = []           # (time, item, outcome)
        active = set()

        class Do:
            async def reconcile(self, r):
                check(r not in active, f"{r} is reconciled twice at the same time")
                active.add(r)
                try:
                    t = now()
                    if rng.random() < 0.5:
                        await asyncio.sleep(rng.choice([0, 0.1]))
                    left[r] = left.get(r, 0) - 1
                    k = rng.choice(bad if r == items[0] else ["after", "requeue", "raise", "timeout"]) if left[r] > 0 else "ok"
                    calls.append((t, now(), r, k, failures.get(r, 0)))
                    if k == "ok":
                        failures[r] = 0
                        return reconcile.Result()
                    if k == "after":
                        failures[r] = 0
                        return reconcile.Result(requeue=rng.random() < 0.5, requeue_after=3.5)
                    failures[r] = failures.get(r, 0) + 1
                    if k == "requeue":
                        return reconcile.Result(requeue=True)
                    raise (oops("reconcile failed") if k == "raise" else asyncio.TimeoutError())
                finally:
                    active.discard(r)
        left, failures = {}, {}
        long = rng.random() < 0.3
        bad = rng.choice([["raise"], ["requeue", "timeout"]]) if long else ["after", "requeue", "raise", "timeout"]
        c = controller.new(Manager(SyncedCache()), reconciler=Do())
        c.max_concurrent_reconciles = rng.choice([1, 1, 2, 3])
        f = Feed()
        await c.watch(f, object())
        t = asyncio.ensure_future(c.start())
        q = await f.q
        items = [reconcile.Request(reconcile.NamespacedName(namespace="n", name=f"i{j}")) for j in range(3)]
        for it in items:
            left[it] = rng.randrange(1, 6)
            if it == items[0] and long:
                left[it] = rng.randrange(10, 15)
            if rng.random() < 0.3:
                await q.add("not a request")
            await q.add(it)
        await asyncio.sleep(200)
        check(not t.done(), f"the controller stopped by itself: {t}")
        for it in items:
            mine = [x for x in calls if x[2] == it]
            check(mine and mine[-1][3] == "ok" and left[it] == 0,
                  f"{it} was asked for again but not reconciled again: outcomes {[x[3] for x in mine]}")
            check(q.num_requeues(it) == 0, f"after success {it} keeps a failure history of {q.num_requeues(it)}")
            for a, b in zip(mine, mine[1:]):
                gap = b[0] - a[1]
                if a[3] == "after":
                    check(3.5 - 1e-6 <= gap <= 3.5 + 4, f"requeue_after 3.5 led to a reconcile after {gap}")
                else:
                    low = 0.005 * 2 ** a[4]
                    check(low - 1e-6 <= gap <= low + 4, f"failure number {a[4] + 1} was retried after {gap}, "
                                                        f"the rate limit asks for {low}")
        check(q.num_requeues("not a request") == 0 and len(q) == 0, "an item that is not a request is kept")
        for it in items:
            left[it] = 1
            await q.add(it)
        await asyncio.sleep(5)
        check(all(left[it] == 0 for it in items), "an item added after the retries is not reconciled any more "
                                                  "(not marked done, or the workers stopped)")
        if rng.random() < 0.1:
            await q.shut_down()          # the workers end (and may look again now and then)
            await asyncio.sleep(3)
        t.cancel()
        try:
            await within(t, 20, "stopping the controller")
        except asyncio.CancelledError:
            pass
        check(q.shutting_down() if callable(getattr(q, "shutting_down", None)) else True, "the queue is not shut down")
        r = await within(q.get(), 5, "get on the queue of a stopped controller")
        check(tuple(r) == (None, True), f"get on the queue of a stopped controller returned {r}")
    run(main)


@scenario("C25")
def cancelled(rng):
    """Stopping in the middle of a reconcile, and a controller that does not get started."""
    from aiok8s.controller import controller, reconcile

    async def main():
        began = asyncio.Event()

        class Do:
            async def reconcile(self, r):
                began.set()
                await asyncio.sleep(1000)
        ok = rng.random() < 0.7
        c = controller.new(Manager(SyncedCache(ok)), reconciler=Do())
        f = Feed()
        await c.watch(f, object())
        t = asyncio.ensure_future(c.start())
        q = await f.q
        it = reconcile.Request(reconcile.NamespacedName(namespace="n", name="x"))
        await q.add(it)
        if ok:
            await within(began.wait(), 5, "the first reconcile")
            if rng.random() < 0.5:
                await q.add(it)
            t.cancel()
        try:
            await within(t, 20, "stopping the controller")
        except asyncio.CancelledError:
            check(ok, "cancelled")
        except Violation:
            raise
        except Exception:
            check(not ok, "start failed although the caches synced")
        else:
            raise Violation("start returned although nobody stopped it")
        while True:
            i, down = await within(q.get(), 5, "get on the queue of a stopped controller")
            if down:
                break
            check(i == it, f"{i} in the queue")
            await q.done(i)
    run(main)
