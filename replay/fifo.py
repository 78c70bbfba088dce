"""C09-C13: the FIFO and the delta queue against reference models of the documented behaviour."""
import asyncio

from lib import Violation, check, run, scenario, jig, settle, within


class Obj:
    n = 0

    def __init__(self, key, bad=False):
        Obj.n += 1
        self.key, self.bad, self.n = key, bad, Obj.n

    def __repr__(self):
        return f"{self.key}#{self.n}"


class EqObj(Obj):
    def __eq__(self, o):
        return isinstance(o, Obj) and o.key == self.key

    __hash__ = None

    def __bool__(self):
        return False


class KF(Exception):
    pass


class Boom(Exception):
    pass


def keyf(o):
    if o.bad:
        raise KF(o)
    return o.key


def mk(rng, keys="abcd", bad=0.0):
    return rng.choice([Obj, Obj, EqObj])(rng.choice(keys), rng.random() < bad)


def same(a, b):
    return len(a) == len(b) and all(x is y for x, y in zip(a, b))


async def expect(exc, aw, what):
    try:
        r = await aw
    except exc as e:
        return e
    except Exception as e:
        raise Violation(f"{what}: raised {e!r} instead of {exc.__name__}")
    raise Violation(f"{what}: returned {r!r} instead of raising {exc.__name__}")


class FModel:
    """Pending objects; keys deleted while pending are exempt from the order until the next replace."""

    def __init__(self):
        self.items, self.order, self.exempt = {}, [], set()
        self.populated, self.n = False, 0
        self.finished = self.gone = 0

    def add(self, o):
        if o.key not in self.items:
            self.order.append(o.key)
        self.items[o.key] = o
        self.populated = True

    def put_back(self, o):
        self.populated = True
        if o.key not in self.items:
            self.order.append(o.key)
            self.items[o.key] = o

    def delete(self, key):
        self.populated = True
        if key in self.items:
            del self.items[key]
            self.order.remove(key)
            self.exempt.add(key)
            self.gone += 1

    def replace(self, objs):
        d = {}
        for o in objs:
            d[o.key] = o
        if not self.populated:
            self.populated, self.n, self.finished, self.gone = True, len(d), 0, 0
        # positions of the former entries go away: nothing is passed over for them any more
        self.items, self.order, self.exempt = d, list(d), set()

    def taken(self, o, what):
        check(o.key in self.items, f"{what}: handed out {o}, which is not pending ({self.items})")
        check(self.items[o.key] is o, f"{what}: handed out {o}, the object last written is {self.items[o.key]}")
        if o.key not in self.exempt:
            first = next(k for k in self.order if k not in self.exempt)
            check(first == o.key, f"{what}: handed out {o.key}, but {first} became pending before it ({self.order})")
        del self.items[o.key]
        self.order.remove(o.key)

    def synced(self, q, what):
        got = bool(q.has_synced())
        if not self.populated:
            check(not got, f"{what}: has_synced is true on an unpopulated queue")
        elif self.finished >= self.n:
            check(got, f"{what}: has_synced is false after {self.finished} processed entries of an initial {self.n}")
        elif self.finished + self.gone < self.n:
            check(not got, f"{what}: has_synced is true after {self.finished} of {self.n} initial entries were processed")


def fcompare(q, m, what):
    check(sorted(q.list_keys()) == sorted(m.items), f"{what}: list_keys {q.list_keys()}, pending {sorted(m.items)}")
    check(sorted(map(id, q.list())) == sorted(id(o) for o in m.items.values()), f"{what}: list {q.list()}, pending {m.items}")
    for k in "abcde":
        check(q.get_by_key(k) is m.items.get(k), f"{what}: get_by_key({k}) {q.get_by_key(k)}, pending {m.items}")
        check(q.get(Obj(k)) is m.items.get(k), f"{what}: get({k})")
    m.synced(q, what)


async def fpop(q, m, rng, what, modes=("ok",)):
    from aiok8s.cache import fifo
    mode = rng.choice(modes)
    seen = []
    cause = Boom()

    def process(o):
        seen.append(o)
        m.taken(o, what)
        m.synced(q, what + " (while processing)")
        if mode == "requeue":
            raise fifo.RequeueError
        if mode == "requeue_cause":
            raise fifo.RequeueError from cause
        if mode == "fail":
            raise cause

    if not m.items:
        await q.close() if not q.is_closed() else None
        await expect(fifo.FIFOClosedError, within(q.pop(process), 5, what + ": pop on the closed queue"), what)
        check(not seen, f"{what}: the processor was called with {seen} although nothing is pending")
        return False
    pop = within(q.pop(process), 5, what)
    if mode in ("requeue_cause", "fail"):
        e = await expect(fifo.ProcessError, pop, what)
        check(len(seen) == 1 and e.item is seen[0], f"{what}: ProcessError carries {e.item}, processed {seen}")
        check(e.__cause__ is cause, f"{what}: ProcessError's cause is {e.__cause__!r}")
    else:
        r = await pop
        check(len(seen) == 1 and r is seen[0], f"{what}: pop returned {r}, processed {seen}")
    m.finished += 1
    if mode.startswith("requeue"):
        m.put_back(seen[0])
    return True


@scenario("C09 C12 C13", 2)
def fifo_history(rng):
    """random single-task histories of the FIFO queue, compared after every step"""
    async def main():
        from aiok8s.cache import fifo, store
        q, m = fifo.FIFO(keyf), FModel()
        fcompare(q, m, "new queue")
        modes = rng.choice([("ok",), ("ok", "ok", "requeue"), ("ok", "requeue", "requeue_cause", "fail")])
        start = rng.choice(["replace", "replace", "any"])
        for step in range(rng.randint(1, 16)):
            op = "replace" if step == 0 and start == "replace" else rng.choice(
                ["add", "add", "update", "delete", "replace", "resync", "ainp", "pop", "pop", "pop", "bad"])
            what = f"step {step} {op}"
            o = mk(rng)
            if op == "add":
                await q.add(o)
                m.add(o)
            elif op == "update":
                await q.update(o)
                m.add(o)
            elif op == "delete":
                await q.delete(o)
                m.delete(o.key)
            elif op == "ainp":
                await q.add_if_not_present(o)
                m.put_back(o)
            elif op == "replace":
                objs = [mk(rng) for _ in range(rng.randint(0, 5))]
                await q.replace(objs, "1")
                m.replace(objs)
            elif op == "resync":
                await q.resync()
            elif op == "bad":
                o.bad = True
                async def get(x):
                    return q.get(x)
                f = rng.choice([q.add, q.update, q.delete, q.add_if_not_present, lambda x: q.replace([mk(rng), x], "1"), get])
                e = await expect(store.StoreKeyError, f(o), what)
                check(isinstance(e.__cause__, KF), f"{what}: cause {e.__cause__!r}")
                if not m.populated and q.has_synced():
                    m.populated = True
            else:
                if not m.items:
                    continue
                await fpop(q, m, rng, what, modes)
            fcompare(q, m, what)
        while m.items:
            await fpop(q, m, rng, "draining")
            fcompare(q, m, "draining")
        await fpop(q, m, rng, "after draining")
        fcompare(q, m, "at the end")
    run(main)


@scenario("C12 C09", 1)
def fifo_sync_deleted(rng):
    """entries deleted before the first pop: synced only when everything of the first population is gone"""
    async def main():
        from aiok8s.cache import fifo
        q, m = fifo.FIFO(keyf), FModel()
        objs = [mk(rng, "abcdef") for _ in range(rng.randint(0, 6))]
        await q.replace(objs, "1")
        m.replace(objs)
        for o in list(m.items.values()):
            if rng.random() < 0.4:
                await q.delete(o)
                m.delete(o.key)
        extra = [Obj(k) for k in "uvw"[:rng.randint(0, 3)]]
        for o in extra:
            await q.add(o)
            m.add(o)
        fcompare(q, m, "after deletions")
        while m.items:
            await fpop(q, m, rng, "popping")
            fcompare(q, m, "popping")
        if extra or (not m.gone):
            check(q.has_synced(), "everything of the first population was processed or deleted, but has_synced is false")
    run(main)


@scenario("C13 C09 C10", 1.5)
def blocked_pops(rng):
    """pops blocked on an empty queue return once entries are added and raise once the queue is closed"""
    async def main():
        from aiok8s.cache import fifo, delta_fifo
        delta = rng.random() < 0.5
        known = None
        q = delta_fifo.DeltaFIFO(keyf, known) if delta else fifo.FIFO(keyf)
        got = []

        def sp(o):
            got.append(o)

        async def ap(o):
            got.append(o)
            await jig(rng)
        n = rng.randint(1, 4)
        tasks = [asyncio.ensure_future(q.pop(ap if delta else sp)) for _ in range(n)]
        await settle()
        check(not any(t.done() for t in tasks), "a pop of an empty open queue returned")
        cancelled = 0
        if n > 1 and rng.random() < 0.3:
            tasks.pop(0).cancel()
            n -= 1
            await settle()
        k = rng.randint(0, n)
        keys = "abcd"[:k]
        how = rng.choice(["add", "replace", "ainp", "burst"])
        if how == "replace" and k:
            await q.replace([Obj(x) for x in keys], "1")
        elif how == "burst":
            await asyncio.gather(*[q.add(Obj(x)) for x in keys])
        else:
            for x in keys:
                o = Obj(x)
                if how == "ainp":
                    if delta:
                        o = delta_fifo.Deltas([delta_fifo.Delta(delta_fifo.DeltaType.ADDED, o)])
                    await q.add_if_not_present(o)
                else:
                    await q.add(o)
                await jig(rng)
        await settle(60)
        check(len(got) == k, f"{k} entries were added ({how}) while {n} pops were blocked, {len(got)} were handed out")
        check(sum(t.done() for t in tasks) == k, f"{k} entries for {n} blocked pops, {sum(t.done() for t in tasks)} returned")
        last = n > k and rng.random() < 0.4
        if last:
            # the entry is there and the queue closed before a blocked pop gets to run
            await q.add(Obj("y"))
            k += 1
            await q.close()
        else:
            await within(q.close(), 5, "close")
        check(q.is_closed(), "is_closed after close")
        await asyncio.wait(tasks, timeout=5)
        check(len(got) == k, f"an entry was pending when the queue was closed and {n - k + 1} pops were blocked, none got it")
        check(all(t.done() for t in tasks), "a pop is still blocked after close")
        for t in tasks:
            e = t.exception()
            check(e is None or isinstance(e, fifo.FIFOClosedError), f"a blocked pop raised {e!r}")
        check(sum(t.exception() is not None for t in tasks) == n - k, "wrong number of pops raised FIFOClosedError")
        await q.add(Obj("z"))
        r = await within(q.pop(ap if delta else sp), 5, "pop of a pending entry of a closed queue")
        z = r[-1].object if delta else r
        check(z.key == "z", f"closed queue returned {r}")
        await expect(fifo.FIFOClosedError, within(q.pop(ap if delta else sp), 5, "pop on a closed queue"), "closed, empty")
    run(main)


@scenario("C09 C13", 1)
def fifo_concurrent(rng):
    """producers and consumers at once: each handed-out object is the last written one, none twice"""
    async def main():
        from aiok8s.cache import fifo
        q = fifo.FIFO(keyf)
        written, taken = {}, {}

        def process(o):
            check(written.get(o.key) and written[o.key][-1] is o, f"{o} handed out, last written {written.get(o.key)}")
            taken.setdefault(o.key, []).append(o)
            check(len({id(x) for x in taken[o.key]}) == len(taken[o.key]), f"{o} handed out twice")
            if rng.random() < 0.2:
                written[o.key].append(o)
                taken[o.key].pop()
                raise fifo.RequeueError

        async def consumer():
            while True:
                try:
                    await q.pop(process)
                except fifo.FIFOClosedError:
                    return
                await jig(rng)
        async def producer(k):
            for _ in range(rng.randint(1, 5)):
                o = Obj(k)
                # the queue's lock is free here and add does not wait before writing
                written.setdefault(k, []).append(o)
                await q.add(o)
                await jig(rng)
        cons = [asyncio.ensure_future(consumer()) for _ in range(rng.randint(1, 3))]
        await asyncio.gather(*[producer(k) for k in "abc"[:rng.randint(1, 3)]])
        await settle(80)
        check(not q.list_keys(), f"{q.list_keys()} still pending although consumers are waiting")
        for k, os_ in written.items():
            check(taken.get(k) and taken[k][-1] is os_[-1], f"the last object of {k} was never handed out")
        await q.close()
        await within(asyncio.gather(*cons), 5, "consumers after close")
    run(main)


# ---------------------------------------------------------------- delta queue

class Known:
    """A known-objects store whose lookups may fail."""

    def __init__(self, objs=()):
        self.d = {o.key: o for o in objs}
        self.fail = set()
        self.ghost = []

    def list_keys(self):
        return list(self.d) + [k for k in self.ghost if k not in self.d]

    def get_by_key(self, k):
        if k in self.fail:
            raise Boom(k)
        return self.d.get(k)

    def __bool__(self):
        return True


class DModel:
    def __init__(self, known):
        from aiok8s.cache import delta_fifo as df
        self.df = df
        self.known = known
        self.items, self.rank, self.t = {}, {}, 0
        self.populated, self.n, self.finished = False, 0, 0

    def key(self, o):
        return o.key

    def queue(self, typ, o, rank=None):
        k = o.key
        T = self.df.DeltaType
        cur = self.items.get(k)
        if cur is None:
            self.items[k] = cur = []
            self.t += 1
            self.rank[k] = self.t if rank is None else rank
        cur.append((typ, o))
        if len(cur) > 1 and cur[-1][0] is T.DELETED and cur[-2][0] is T.DELETED:
            a, b = cur[-1], cur[-2]
            keep = a if isinstance(b[1], self.df.DeletedFinalStateUnknown) else b
            cur[-2:] = [keep]

    def delete(self, o):
        self.populated = True
        k = o.key
        if k not in self.items:
            if self.known is None:
                return
            if k not in self.known.fail and k not in self.known.d:
                return
        self.queue(self.df.DeltaType.DELETED, o)

    def replace(self, objs):
        T, U = self.df.DeltaType, self.df.DeletedFinalStateUnknown
        keys = {o.key for o in objs}
        for o in objs:
            self.queue(T.SYNC, o)
        n = len(keys)
        for k in list(self.items):
            if k in keys:
                continue
            new = self.items[k][-1][1]
            o = new.obj if isinstance(new, U) else new
            self.queue(T.DELETED, U(k, o))
            n += 1
        if self.known is not None:
            self.t += 1
            r = self.t
            for k in self.known.list_keys():
                if k in keys or k in self.items:
                    continue
                o = None if k in self.known.fail else self.known.d.get(k)
                self.queue(T.DELETED, U(k, o), rank=r)
                n += 1
        if not self.populated:
            self.populated, self.n, self.finished = True, n, 0

    def resync(self):
        if self.known is None:
            return
        self.t += 1
        r = self.t
        for k in self.known.list_keys():
            if k in self.known.fail or k not in self.known.d or k in self.items:
                continue
            self.queue(self.df.DeltaType.SYNC, self.known.d[k], rank=r)

    def put_back(self, k, ds):
        self.populated = True
        if k not in self.items:
            self.items[k] = ds
            self.t += 1
            self.rank[k] = self.t

    def synced(self, q, what):
        got = bool(q.has_synced())
        want = self.populated and self.finished >= self.n
        check(got == want, f"{what}: has_synced is {got} after {self.finished} of {self.n} initial entries "
                           f"(populated: {self.populated})")


def same_obj(m, a, b):
    U = m.df.DeletedFinalStateUnknown
    if isinstance(a, U) or isinstance(b, U):
        return isinstance(a, U) and isinstance(b, U) and a.key == b.key and a.obj is b.obj
    return a is b


def dsame(m, got, want):
    return got is not None and len(got) == len(want) and all(
        g.type is w[0] and same_obj(m, g.object, w[1]) for g, w in zip(got, want))


def dcompare(q, m, what):
    check(sorted(q.list_keys()) == sorted(m.items), f"{what}: list_keys {q.list_keys()}, pending {sorted(m.items)}")
    ls = q.list()
    check(len(ls) == len(m.items), f"{what}: list {ls}, pending {m.items}")
    for k, ds in m.items.items():
        check(sum(1 for x in ls if same_obj(m, x, ds[-1][1])) >= 1, f"{what}: list {ls} lacks the newest object of {k}")
    for k in "abcde":
        for got in (q.get_by_key(k), q.get(Obj(k))):
            want = m.items.get(k)
            if want is None:
                check(not got, f"{what}: {k} has pending changes {got}, expected none")
            else:
                check(dsame(m, got, want), f"{what}: pending changes of {k} are {got}, expected {want}")
                got.append("spoiled")
                got.reverse()
    m.synced(q, what)


async def dpop(q, m, rng, what, modes=("ok",)):
    from aiok8s.cache import fifo
    mode = rng.choice(modes)
    cause = Boom()
    seen = []

    async def process(ds):
        check(not seen, f"{what}: the processor was called twice in one pop")
        seen.append(ds)
        k = q.key_of(ds)
        want = m.items.get(k)
        check(want is not None, f"{what}: handed out {ds}, nothing is pending for {k}")
        check(dsame(m, ds, want), f"{what}: handed out {ds}, the pending changes are {want}")
        check(m.rank[k] == min(m.rank[x] for x in m.items), f"{what}: {k} handed out before keys waiting longer ({m.rank})")
        del m.items[k]
        seen.append(k)
        seen.append(want)
        await jig(rng)
        m.synced(q, what + " (while processing)")
        if mode == "requeue":
            raise fifo.RequeueError
        if mode == "requeue_cause":
            raise fifo.RequeueError from cause
        if mode == "fail":
            raise cause

    pop = within(q.pop(process), 5, what)
    if mode in ("requeue_cause", "fail"):
        e = await expect(fifo.ProcessError, pop, what)
        check(seen and e.item is seen[0], f"{what}: ProcessError carries {e.item}, processed {seen}")
        check(e.__cause__ is cause, f"{what}: ProcessError's cause is {e.__cause__!r}")
    else:
        r = await pop
        check(seen and r is seen[0], f"{what}: pop returned {r}, processed {seen}")
    m.finished += 1
    if mode.startswith("requeue"):
        m.put_back(seen[1], seen[2])


@scenario("C10 C11 C12 C13", 4)
def delta_history(rng):
    """random single-task histories of the delta queue, compared after every step"""
    async def main():
        from aiok8s.cache import fifo, delta_fifo as df
        T, U = df.DeltaType, df.DeletedFinalStateUnknown
        known = None
        if rng.random() < 0.75:
            known = Known([Obj(k) for k in "abcd" if rng.random() < 0.4])
            if rng.random() < 0.2:
                known.fail.add(rng.choice("abcd"))
            if rng.random() < 0.2:
                known.ghost.append(rng.choice("abcd"))
        q, m = df.DeltaFIFO(keyf, known), DModel(known)
        dcompare(q, m, "new queue")
        modes = rng.choice([("ok",), ("ok", "ok", "requeue"), ("ok", "requeue", "requeue_cause", "fail")])
        start = rng.choice(["replace", "replace", "any"])
        made = []
        for step in range(rng.randint(1, 18)):
            op = "replace" if step == 0 and start == "replace" else rng.choice(
                ["add", "add", "update", "delete", "delete", "tomb", "replace", "resync", "ainp", "pop", "pop", "known"])
            what = f"step {step} {op}"
            o = rng.choice(made) if made and rng.random() < 0.3 else mk(rng)
            made.append(o)
            if op == "add":
                await q.add(o)
                m.populated = True
                m.queue(T.ADDED, o)
            elif op == "update":
                await q.update(o)
                m.populated = True
                m.queue(T.UPDATED, o)
            elif op == "delete":
                await q.delete(o)
                m.delete(o)
            elif op == "tomb":
                u = U(o.key, rng.choice([o, None]))
                await q.delete(u)
                m.delete(u)
            elif op == "replace":
                objs = [mk(rng) for _ in range(rng.randint(0, 4))]
                await q.replace(objs, "1")
                m.replace(objs)
            elif op == "resync":
                await q.resync()
                m.resync()
            elif op == "ainp":
                ds = [(T.ADDED, o)]
                await q.add_if_not_present(df.Deltas([df.Delta(T.ADDED, o)]))
                m.put_back(o.key, ds)
            elif op == "known" and known is not None:
                if rng.random() < 0.5:
                    known.d[o.key] = o
                else:
                    known.d.pop(o.key, None)
            elif op == "pop" and m.items:
                await dpop(q, m, rng, what, modes)
            dcompare(q, m, what)
        while m.items:
            await dpop(q, m, rng, "draining")
            dcompare(q, m, "draining")
        await q.close()

        async def never(d):
            raise Violation(f"closed and empty, but {d} was handed out")
        await expect(fifo.FIFOClosedError, within(q.pop(never), 5, "pop on a closed queue"), "closed, empty")
    run(main)


@scenario("C11", 1)
def relist_survivors(rng):
    """apply every popped change to the known store: after a relist only listed objects survive"""
    async def main():
        from aiok8s.cache import delta_fifo as df
        T = df.DeltaType
        known = Known([Obj(k) for k in "abc" if rng.random() < 0.5]) if rng.random() < 0.8 else Known()
        q = df.DeltaFIFO(keyf, known)

        async def apply(ds):
            await jig(rng)
            for d in ds:
                if d.type is T.DELETED:
                    known.d.pop(q.key_of(d.object), None)
                else:
                    known.d[d.object.key] = d.object
        for _ in range(rng.randint(0, 6)):
            o = mk(rng)
            await rng.choice([q.add, q.update, q.delete])(o)
            if rng.random() < 0.4 and q.list_keys():
                await q.pop(apply)
        objs = [mk(rng) for _ in range(rng.randint(0, 4))]
        await q.replace(objs, "1")
        while q.list_keys():
            await within(q.pop(apply), 5, "pop")
        want = {o.key: o for o in objs}
        check(set(known.d) <= set(want), f"after the relist {sorted(set(known.d) - set(want))} survive, listed {sorted(want)}")
        for k, o in want.items():
            check(known.d.get(k) is o, f"after the relist {k} is {known.d.get(k)}, listed {o}")
    run(main)


@scenario("C10", 1)
def delta_concurrent(rng):
    """concurrent producers and consumers: each key's changes arrive complete and in order"""
    async def main():
        from aiok8s.cache import fifo, delta_fifo as df
        q = df.DeltaFIFO(keyf)
        sent, got = {}, {}
        busy = set()

        async def process(ds):
            k = q.key_of(ds)
            check(k not in busy, f"{k} is being processed twice at once")
            busy.add(k)
            got.setdefault(k, []).extend(ds)
            await jig(rng)
            busy.discard(k)

        async def consumer():
            while True:
                try:
                    await q.pop(process)
                except fifo.FIFOClosedError:
                    return
                await jig(rng)

        async def producer(k):
            for _ in range(rng.randint(1, 6)):
                o = Obj(k)
                up = rng.random() < 0.5
                await (q.update if up else q.add)(o)
                sent.setdefault(k, []).append((df.DeltaType.UPDATED if up else df.DeltaType.ADDED, o))
                await jig(rng)
        cons = [asyncio.ensure_future(consumer()) for _ in range(rng.randint(1, 3))]
        await asyncio.gather(*[producer(k) for k in "abc"[:rng.randint(1, 3)]])
        await settle(120)
        for k, ds in sent.items():
            g = got.get(k, [])
            check(len(g) == len(ds) and all(x.type is y[0] and x.object is y[1] for x, y in zip(g, ds)),
                  f"changes of {k}: sent {ds}, handed out {g}")
        await q.close()
        await within(asyncio.gather(*cons), 5, "consumers after close")
    run(main)
