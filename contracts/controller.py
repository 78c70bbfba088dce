"""Contracts of controller/controller.py (C25; the start order also serves C28)."""
import asyncio

import z3

from contracts.informer import GhostSeq
from pydv.containers import MList
from pydv.core import StarSeq, Unsupported, V, tag_of
from pydv.aio import run_coro
from pydv.spec import LoopSpec, contract, failure, mod, need, no_raise, run, term


class Queue:
    """The work queue as its users see it: an item handed out must be marked done once before the next get."""
    _pv_model = True

    def __init__(self, eng):
        self.eng, self.hand, self.calls, self.down, self.shut = eng, None, [], False, 0
        self.reconciled, self.result, self.forms = [], None, ()
        self.told = None             # ghost state: the shutdown was reported and nobody has slept since

    def note(self, *c):
        self.calls.append(c)

    async def get(self):
        eng = self.eng
        eng.check("C25| a request is marked done before the next one is taken", z3.BoolVal(self.hand is None))
        eng.suspend("queue.get")
        if self.told is not None:
            eng.check("C25| a worker that was told of the shutdown ends (at least until it has slept)",
                      self.told.get("closed") == 0)
        self.calls, self.reconciled, self.result = [], [], None
        if eng.choose(2) == 1:
            self.down = True
            if self.told is not None:
                self.told.set("closed", 1)
            return None, True
        rec = mod("controller.reconcile")
        if eng.choose(2) == 1:
            self.hand = eng.caller_val("thing", not_none=True)
            eng.assume(z3.Not(V.is_rec(self.hand.expr)))
            self.is_request = False
        else:
            self.hand = rec.Request(rec.NamespacedName(eng.str("ns"), eng.str("name")))
            self.is_request = True
        return self.hand, False

    def mine(self, item, what):
        if self.hand is None:
            self.eng.fail(f"C25| {what} concerns the item in hand")
            self.eng.end_path()
        self.eng.check(f"C25| {what} concerns the item in hand", self.eng.enc(item) == self.eng.enc(self.hand))

    async def done(self, item):
        self.mine(item, "done")
        self.judge()
        self.hand = None
        self.eng.suspend("queue.done")

    def forget(self, item):
        self.mine(item, "forget")
        self.note("forget")

    async def add(self, item):
        self.mine(item, "add")
        self.note("add")
        self.eng.suspend("queue.add")

    async def add_after(self, item, delay):
        self.mine(item, "add_after")
        self.note("after", delay)
        self.eng.suspend("queue.add_after")

    async def add_rate_limited(self, item):
        self.mine(item, "add_rate_limited")
        self.note("limited")
        self.eng.suspend("queue.add_rate_limited")

    async def shut_down(self):
        self.shut += 1
        self.eng.suspend("queue.shut_down")

    def shutting_down(self):
        return self.down

    def num_requeues(self, item):
        n = self.eng.int("requeues")
        self.eng.assume(n.expr >= 0)
        return n

    def __len__(self):
        return self.eng.int("len")

    def judge(self):
        """At done: what happened to the request is what its outcome asks for."""
        eng = self.eng
        names = [c[0] for c in self.calls]
        if not self.is_request:
            eng.check("C25| an item that is not a request is not reconciled", z3.BoolVal(not self.reconciled))
            eng.check("C25| an item that is not a request is forgotten and not added again",
                      z3.BoolVal(names == ["forget"]))
            eng.cover("not a request")
            return
        if eng.cancelled:
            return
        eng.check("C25| a request is reconciled exactly once", z3.BoolVal(len(self.reconciled) == 1))
        if len(self.reconciled) != 1:
            eng.end_path()
        eng.check("C25| the request that is reconciled is the one taken",
                  eng.enc(self.reconciled[0]) == eng.enc(self.hand))
        if self.result is None:
            eng.check("C25| a request whose reconcile failed is added again rate-limited and keeps its history",
                      z3.BoolVal(names == ["limited"]))
            eng.cover("failed")
            return
        requeue, after = self.result
        if names == ["forget"]:
            eng.check("C25| nothing is added again only on plain success", z3.And(z3.Not(requeue), after == 0))
            eng.cover("success")
        elif sorted(names) == ["after", "forget"]:
            eng.check("C25| a delayed add only when a delay was asked for", after != 0)
            d = next(c[1] for c in self.calls if c[0] == "after")
            eng.check("C25| the delay is the one asked for", term(d) == after)
            eng.cover("delayed")
        elif names == ["limited"]:
            eng.check("C25| a rate-limited add only when a requeue was asked for", z3.And(requeue, after == 0))
            eng.cover("requeue")
        else:
            eng.fail("C25| after reconciling, the request is forgotten, added later, or added rate-limited", str(names))


class Reconciler:
    _pv_model = True

    def __init__(self, eng, q):
        self.eng, self.q = eng, q

    async def reconcile(self, request):
        eng, q = self.eng, self.q
        if q.hand is None:
            eng.fail("C25| only a request in hand is reconciled")
            eng.end_path()
        q.reconciled.append(request)
        eng.suspend("reconcile")
        k = eng.choose(4)
        if k == 0:
            after = eng.real("after")
            eng.assume(after.expr >= 0)
            requeue = eng.bool("requeue")
            q.result = (requeue.expr, after.expr)
            return mod("controller.reconcile").Result(requeue=requeue, requeue_after=after)
        raise (None, failure(eng, "failed"), KeyError("failed"), asyncio.TimeoutError())[k]


class Cache:
    _pv_model = True

    def __init__(self, eng, log):
        self.eng, self.log, self.synced = eng, log, False

    async def wait_for_cache_sync(self, *a):
        self.log.append("wait")
        self.eng.suspend("wait_for_cache_sync")
        if self.eng.choose(2) == 1:
            self.log.append("not synced")
            return False
        self.synced = True
        self.log.append("synced")
        return True


class Source:
    _pv_model = True

    def __init__(self, eng, log, n):
        self.eng, self.log, self.n, self.starts = eng, log, n, []

    async def start(self, handler, queue, *predicates):
        self.starts.append((handler, queue, predicates))
        self.log.append(("source", self.n))
        self.eng.suspend("source.start")
        if self.eng.choose(2) == 1:
            self.log.append("source failed")
            raise failure(self.eng, "source failed")


def controller(eng, log, workers=None, watches=None):
    m = mod("controller.controller")
    need(m, "_Controller")
    q = Queue(eng)
    fields_set = []
    cache = Cache(eng, log)
    c = m._Controller(do=Reconciler(eng, q), cache=cache, make_queue=lambda: q)
    c.inject_func(fields_set.append)
    need(c, "max_concurrent_reconciles")
    if workers is not None:
        c.max_concurrent_reconciles = workers
    ws = []
    for n in range(watches or 0):
        s = Source(eng, log, n)
        h, p1, p2 = object(), object(), object()
        ps = (p1, p2)[:n + 1]
        out = run(c.watch, s, h, *ps)
        no_raise(out, "C25| watch raises nothing")
        ws.append((s, h, ps))
        eng.check("C25| fields are injected into source, handler and predicates", z3.BoolVal(
            all(any(x is f for f in fields_set) for x in (s, h) + ps)))
    return c, q, cache, ws


@contract("controller.worker", "C25", ["controller.controller:_Controller._worker",
                                       "controller.controller:_Controller._process_next_work_item",
                                       "controller.controller:_Controller._reconcile_handler"])
def worker(eng):
    """Any number of items through one worker, cancelled at any await or not at all."""
    log, spawned = [], []
    c, q, cache, ws = controller(eng, log, workers=1)
    eng.hooks["spawn"] = lambda t: spawned.append(t)

    def started(t):
        # the workers are judged below, on their own
        raise asyncio.CancelledError
    eng.hooks["task"] = started
    run(c.start)
    if not spawned:
        eng.end_path()
    q.shut = 0
    eng.check("C25| one worker is started", z3.BoolVal(len(spawned) == 1))
    told = q.told = GhostSeq(eng)
    eng.hooks["slept"] = lambda d: told.set("closed", 0)

    def inv(ctx):
        return [("C25| the item taken last was marked done", z3.BoolVal(q.hand is None)),
                ("C25| a worker that was told of the shutdown ends (at least until it has slept)", told.get("closed") == 0)]
    eng.loop_specs.append(LoopSpec(name="worker loop", kind="while", inv=inv))
    eng.cancel_enabled = True
    out = run(lambda: _body(spawned[0].prim))
    eng.check("C25| every item taken is marked done, whatever happens", z3.BoolVal(q.hand is None))
    if eng.cancelled:
        eng.check("C25| cancelling a worker ends it", z3.BoolVal(out.cancelled()))
        eng.cover("cancelled")
    else:
        eng.check("C25| a worker ends only on shutdown, never because of a failing reconcile",
                  z3.BoolVal(q.down and out.ok), str(out.exc))


async def _body(coro):
    return await coro


@contract("controller.start", "C25 C28", ["controller.controller:_Controller.start",
                                          "controller.controller:_Controller.watch"])
def start(eng):
    log, spawned = [], []
    n = eng.choose(3)
    c, q, cache, ws = controller(eng, log, workers=1 + eng.choose(3), watches=n)
    ended = []

    def spawn(t):
        eng.check("C28| workers start only once the caches are synced", z3.BoolVal(cache.synced))
        eng.check("C25| workers start only once every source is started", z3.BoolVal(
            all(len(s.starts) == 1 for s, _, _ in ws)))
        spawned.append(t)

    def outcome(t):
        eng.end_path()         # a worker never ends by itself (controller.worker)
    eng.hooks["spawn"], eng.hooks["task"] = spawn, outcome
    eng.cancel_enabled = True
    out = run(c.start)
    eng.cancel_enabled = False
    eng.check("C25| stopping a controller shuts its queue down, once", z3.BoolVal(q.shut == 1))
    for s, h, ps in ws[:len([x for x in log if isinstance(x, tuple)])]:
        ok = len(s.starts) == 1 and s.starts[0][0] is h and s.starts[0][1] is q and \
            len(s.starts[0][2]) == len(ps) and all(a is b for a, b in zip(s.starts[0][2], ps))
        eng.check("C25| each source is started once with its handler, the queue and its predicates", z3.BoolVal(ok))
    if "not synced" in log:
        eng.check("C25,C28| a controller whose caches do not sync fails", z3.BoolVal(
            out.exc is not None and not spawned))
        eng.cover("not synced")
    elif "source failed" in log:
        eng.check("C25| a source that does not start fails the controller", z3.BoolVal(
            out.exc is not None and not spawned))
    else:
        eng.check("C25| start ends only when cancelled", z3.BoolVal(out.cancelled()), str(out.exc))
        if spawned:
            eng.check("C25| as many workers as asked for", z3.BoolVal(len(spawned) == c.max_concurrent_reconciles))
            eng.cover("workers")


@contract("controller.start.many", "C25 C28", ["controller.controller:_Controller.start"])
def start_many(eng):
    """Any number of watches and workers."""
    log, spawned = [], []
    c, q, cache, _ = controller(eng, log, workers=None, watches=0)
    m = mod("controller.controller")
    need(m, "_WatchDescription")
    ws = getattr(c, "_watches", None)
    if not isinstance(ws, MList):
        raise Unsupported("the watches of a controller")
    eng.havoc_container(ws)
    eng.heap.write("lo", ws._pv_ref, z3.IntVal(0))
    eng.assume(ws.hi >= 0)
    ws._pv_elem = ("rec", m._WatchDescription, ("val", "val", "val"))
    el = z3.Int("i!cs")
    w = z3.Select(ws.el, el)
    eng.assume(z3.ForAll([el], z3.Implies(z3.And(0 <= el, el < ws.hi), z3.And(
        V.is_rec(w), V.tag(w) == tag_of(m._WatchDescription, 3), V.is_opq(V.f0(w)), V.is_opq(V.f2(w)))), patterns=[w]))
    n = eng.int("workers")
    eng.assume(n.expr >= 1)
    c.max_concurrent_reconciles = n
    g = GhostSeq(eng)

    async def start(source, handler, queue, preds):
        k = g.get("taken")
        e = z3.Select(ws.el, k)
        eng.check("C25| the sources are started one by one, each once", z3.And(k < ws.hi, source == V.f0(e)))
        eng.check("C25| each source is started with its handler, the queue and its predicates", z3.And(
            eng.enc(handler) == V.f1(e), z3.BoolVal(queue is q), eng.enc(preds) == V.f2(e)))
        eng.check("C28| sources are started before the sync is waited for", z3.BoolVal("wait" not in log))
        g.set("taken", k + 1)
        eng.suspend("source.start")
        if eng.choose(2) == 1:
            log.append("source failed")
            raise failure(eng, "source failed")

    def getattr_(v, name):
        if name != "start":
            return NotImplemented
        # noinspection PyUnusedLocal
        return lambda h, queue, *ps: start(v.expr, h, queue, ps[0]._pv_seq if len(ps) == 1 and type(ps[0]) is StarSeq else None)
    eng.hooks["getattr"] = getattr_
    eng.loop_specs.append(LoopSpec(name="every watch", over=ws, inv=lambda ctx: [
        ("C25| the sources are started one by one, each once", g.get("taken") == ctx.i),
        ("C28| sources are started before the sync is waited for", z3.BoolVal("wait" not in log))]))

    task = eng.val("task")

    def each(x):
        x.close()
        eng.check("C28| workers start only once the caches are synced", z3.BoolVal(cache.synced))
        eng.check("C25| workers start only once every source is started", g.get("taken") == ws.hi)
        eng.call_log.append(("worker",))
        return task
    eng.hooks["spawn.each"] = each

    def spawn(t):
        raise Unsupported("workers started one by one")
    eng.hooks["spawn"] = spawn
    begun = []

    def many(_):
        fa = [c for c in eng.call_log if c[0] == "forall" and [k for k, *_ in c[4]] == ["worker"]]
        eng.check("C25| as many workers as asked for", z3.And(z3.BoolVal(len(fa) == 1), *[hi - lo == n.expr for _, _, lo, hi, _ in fa]))
        begun.append(1)
        eng.cover("workers")
        raise asyncio.CancelledError
    eng.hooks["gather.many"] = many
    eng.cancel_enabled = True
    out = run(c.start)
    eng.cancel_enabled = False
    eng.check("C25| stopping a controller shuts its queue down, once", z3.BoolVal(q.shut == 1))
    if "not synced" in log:
        eng.check("C25,C28| a controller whose caches do not sync fails", z3.BoolVal(out.exc is not None and not begun))
        eng.cover("not synced")
    elif "source failed" in log:
        eng.check("C25| a source that does not start fails the controller", z3.BoolVal(
            out.exc is not None and not begun and "wait" not in log))
        eng.cover("source failed")
    else:
        eng.check("C25| start ends only when cancelled", z3.BoolVal(out.cancelled()), str(out.exc))


@contract("controller.reconcile", "C25", ["controller.controller:_Controller.reconcile"])
def reconcile(eng):
    log = []
    c, q, cache, ws = controller(eng, log)
    rec = mod("controller.reconcile")
    q.hand = r = rec.Request(rec.NamespacedName("a", "b"))
    out = run(c.reconcile, r)
    eng.check("C25| reconcile hands the request to the reconciler", z3.BoolVal(
        len(q.reconciled) == 1 and q.reconciled[0] is r))
    if q.result is not None:
        no_raise(out, "C25| reconcile returns the result")
        eng.check("C25| and returns its result", term(out.value.requeue_after) == q.result[1])
        eng.cover("result")


class Manager:
    _pv_model = True

    def __init__(self):
        self.log = []
        self.cache = object()

    def set_fields(self, i):
        self.log.append(("set", i))

    def add(self, r):
        self.log.append(("add", r))

    def get_cache(self):
        return self.cache


@contract("controller.new", "C25", ["controller.controller:new"])
def new(eng):
    m, rq = mod("controller.controller"), mod("workqueue.rate_limiting_queue")
    need(m, "new")
    mg, rc = Manager(), object()
    out = run(m.new, mg, reconciler=rc)
    no_raise(out, "C25| new raises nothing")
    c = out.value
    eng.check("C25| the controller uses the reconciler and the manager's cache", z3.BoolVal(
        c.do is rc and c.cache is mg.cache and c.make_queue is rq.new))
    eng.check("C25| the controller is added to the manager, and the reconciler has its fields set", z3.BoolVal(
        [x for x in mg.log if x[0] == "add"] == [("add", c)] and ("set", rc) in mg.log))
    eng.cover("new")
