"""Contracts of the informers: cache/shared_informer.py, cache/controller.py (C14, C15, C16, C17)."""
import asyncio

import z3

from contracts.delta_fifo import T_, seq
from pydv.aio import MEvent, run_coro, suspending
from pydv.containers import MList, zint
from pydv.core import NONE, TRUTHY, SymBool, SymReal, SymVal, Unsupported, V, zbool
from pydv.spec import ListV, LoopSpec, Stub, contract, failure, follow, instance, mod, need, no_raise, patched, run, setf, term

SI = "cache.shared_informer"
KEYD = z3.Function("key_or_tombstone_key", V, V)      # the store's key function
NOMETA = z3.Function("has_no_metadata", V, z3.BoolSort())
RV = z3.Function("resource_version", V, V)
STORE = "a:ghost_store"


class Store(Stub):
    """The object store as its contract (C07) describes it: a map from keys to objects."""

    def __init__(self, eng):
        self.eng, self.writes, self.watch = eng, 0, None
        self.items = None

    def get(self, obj):
        return self.eng.dec(self.eng.heap.read(STORE, KEYD(self.eng.enc(obj))))

    def get_by_key(self, key):
        return self.eng.dec(self.eng.heap.read(STORE, self.eng.enc(key)))

    def _write(self, obj, v):
        eng = self.eng
        if self.watch:
            self.watch("store")
        k = KEYD(eng.enc(obj))
        eng.suspend("store.write")
        eng.log_write(STORE, k)
        eng.heap.write(STORE, k, v)
        self.writes += 1

    async def add(self, obj):
        self._write(obj, self.eng.enc(obj))

    async def update(self, obj):
        self._write(obj, self.eng.enc(obj))

    async def delete(self, obj):
        self._write(obj, NONE)

    def list(self):
        if self.items is None:
            raise Unsupported("list of the store")
        return self.items


def deltas(eng, m):
    """A non-empty list of changes as the delta queue hands them out (C10)."""
    t = T_(eng, m)
    need(m, "Deltas", "Delta", "DeltaType")
    lst = m.Deltas()
    eng.havoc_container(lst)
    eng.heap.write("lo", lst._pv_ref, z3.IntVal(0))
    eng.assume(lst.hi > 0)
    lst._pv_elem = ("rec", m.Delta, ("val", "val"))
    i = z3.Int("i!dl")
    e = z3.Select(lst.el, i)
    eng.assume(z3.ForAll([i], z3.Implies(z3.And(0 <= i, i < lst.hi), z3.And(
        t.is_delta(e), V.f1(e) != NONE, z3.Not(V.is_ref(V.f1(e))),
        z3.Or([V.f0(e) == x for x in (t.ADDED, t.UPDATED, t.DELETED, t.SYNC)]))), patterns=[e]))
    return t, lst


class Judge:
    """Per change: what happened to the store and what the handlers were told."""

    def __init__(self, eng, t, lst, store, sync=False):
        self.eng, self.t, self.lst, self.store, self.sync = eng, t, lst, store, sync
        self.told = []
        self.n = 0
        self.open = False
        eng.on_loop = self.on_loop

    def on_loop(self, loop, when):
        if when == "head":
            self.told, self.store.writes, self.open = [], 0, True
            self.before = self.eng.heap[STORE]
        elif when == "back":
            self.close(loop.src.elem_v(self.i))

    def inv(self, ctx):
        self.i = ctx.i if not self.open else self.i
        return []

    def tell(self, kind, *objs, sync=None):
        self.told.append((kind, [self.eng.enc(o) for o in objs], self.eng.heap[STORE], sync))

    def close(self, d):
        eng, t = self.eng, self.t
        self.open = False
        ty, o = V.f0(d), V.f1(d)
        k = KEYD(o)
        old = z3.Select(self.before, k)
        after = z3.Store(self.before, k, z3.If(ty == t.DELETED, NONE, o))
        eng.check("C14| after a change the store is the one before with that change applied", eng.heap[STORE] == after)
        eng.check("C14| exactly one notification per change", z3.BoolVal(len(self.told) == 1))
        if len(self.told) != 1:
            eng.end_path()
        kind, objs, at, sync = self.told[0]
        eng.check("C14| the change is in the store when the handlers hear of it", at == after)
        if kind == "delete":
            eng.check("C14| a deletion is told exactly for a deletion, with its object or tombstone",
                      z3.And(ty == t.DELETED, objs[0] == o))
            eng.cover("delete")
        elif kind == "add":
            eng.check("C14| an add is told exactly for an object that was not stored", z3.And(
                ty != t.DELETED, old == NONE, objs[0] == o))
            eng.cover("add")
        else:
            eng.check("C14| an update is told exactly for a stored object, with the stored and the new object", z3.And(
                ty != t.DELETED, old != NONE, objs[0] == old, objs[1] == o))
            eng.cover("update")
        if self.sync:
            s = zbool(sync) if not isinstance(sync, bool) else z3.BoolVal(sync)
            same = z3.Or(old == o, z3.And(z3.Not(NOMETA(old)), z3.Not(NOMETA(o)), RV(old) == RV(o),
                                          TRUTHY(RV(o)), RV(o) != NONE))
            eng.check("C17| only the redelivery of an unchanged object by a sync may be limited to some listeners",
                      z3.Implies(s, z3.And(kind == "update", ty == t.SYNC, same)))
            eng.check("C16,C17| the redelivery of an unchanged object by a sync goes only to listeners of the resync",
                      z3.Implies(z3.And(z3.BoolVal(kind == "update"), ty == t.SYNC, same), s))


class Handler(Stub):
    def __init__(self, j):
        self.j = j

    async def on_add(self, new):
        self.j.tell("add", new)
        self.j.eng.suspend("handler")

    async def on_update(self, old, new):
        self.j.tell("update", old, new)
        self.j.eng.suspend("handler")

    async def on_delete(self, obj):
        self.j.tell("delete", obj)
        self.j.eng.suspend("handler")


@contract("informer.plain.process", "C14", ["cache.controller:_new_informer.process"])
def plain(eng):
    m, df = mod("cache.controller"), mod("cache.delta_fifo")
    need(m, "new_informer")
    store = Store(eng)
    t, lst = deltas(eng, df)
    j = Judge(eng, t, lst, store)
    cfg = []
    h = Handler(j)
    with patched(mod("cache.store"), new_store=lambda *a: store), patched(m, new=lambda c: cfg.append(c)):
        out = run(m.new_informer, object(), object(), 0, h)
    no_raise(out, "C14| new_informer raises nothing")
    eng.check("C14| the informer returns the store it feeds", z3.BoolVal(out.value[0] is store and len(cfg) == 1))
    need(cfg[0], "process", "queue")
    eng.check("C14| the queue computes deletions against the store it feeds",
              z3.BoolVal(cfg[0].queue._known_objects is store))
    eng.loop_specs.append(LoopSpec(name="each change in order", over=lst, inv=j.inv))
    out = run(cfg[0].process, lst)
    no_raise(out, "C14| processing changes raises nothing")
    eng.check("C14| nothing happens besides the changes", z3.BoolVal(not j.open))


class Processor(Stub):
    def __init__(self, j, kinds):
        self.j, self.kinds = j, kinds

    async def _distribute(self, obj, sync):
        j = self.j
        j.store.watch("notification")
        for cls, kind, fields in self.kinds:
            if isinstance(obj, cls):
                j.tell(kind, *[getattr(obj, f) for f in fields], sync=sync)
                break
        else:
            j.eng.fail("C14| only add, update and delete notifications are distributed")
        j.eng.suspend("distribute")


def shared(eng, store, lw=None):
    m = mod(SI)
    need(m, "new_shared_index_informer", "_UpdateNotification", "_AddNotification", "_DeleteNotification")
    with patched(mod("cache.store"), new_indexer=lambda *a: store):
        out = run(m.new_shared_index_informer, lw or object(), object(), 0, object())
    no_raise(out, "C14| creating a shared informer raises nothing")
    inf = out.value
    need(inf, "_processor", "_block_deltas", "_started_lock", "_indexer", "_resync_check_period", "_started", "_stopped",
         "_default_event_handler_resync_period", "_clock")
    return m, inf


class Meta(Stub):
    def __init__(self, eng, o):
        self.eng, self.o = eng, o

    @property
    def resource_version(self):
        self.eng.assume(z3.Not(V.is_rec(RV(self.o))))
        return self.eng.dec(RV(self.o))


def accessor(eng):
    def acc(obj):
        o = eng.enc(obj)
        if eng.fork(NOMETA(o)):
            raise Exception("no metadata")
        return Meta(eng, o)
    return acc


@contract("informer.shared.handle_deltas", "C14 C15 C16 C17", [SI + ":_SharedIndexInformer.handle_deltas", SI + ":_is_same_version"])
def handle_deltas(eng):
    df = mod("cache.delta_fifo")
    store = Store(eng)
    t, lst = deltas(eng, df)
    m, inf = shared(eng, store)
    j = Judge(eng, t, lst, store, sync=True)
    setf(inf, "_processor", Processor(j, [(m._UpdateNotification, "update", ("old_obj", "new_obj")),
                                          (m._AddNotification, "add", ("new_obj",)),
                                          (m._DeleteNotification, "delete", ("old_obj",))]))

    def watch(what):
        eng.check(f"C15| a {what} happens under the lock that excludes the registration of handlers",
                  z3.BoolVal(any(l is inf._block_deltas for l in eng.locks_held)))
    store.watch = watch
    eng.loop_specs.append(LoopSpec(name="each change in order", over=lst, inv=j.inv))
    x = z3.Const("x!rv", V)
    with patched(mod("api.meta"), accessor=accessor(eng)):
        out = run(inf.handle_deltas, lst)
    no_raise(out, "C14| processing changes raises nothing")
    eng.check("C15| the lock is released", z3.BoolVal(not eng.locks_held))


# ---------------------------------------------------------------- the processor: who hears of what
GHOST = {"_add": "a:ghost_added", "_run": "a:ghost_ran", "_pop": "a:ghost_popped",
         "_determine_next_resync": "a:ghost_next", "_set_resync_period": "a:ghost_period",
         "_stop_add": "a:ghost_stopped"}
DUE = z3.Function("resync_due", V, z3.RealSort(), z3.BoolSort())
REQ = z3.Function("requested_period", V, z3.RealSort())
i_, j_ = z3.Int("i!in"), z3.Int("j!in")


def listeners(eng, name="listeners"):
    """Any number of distinct listeners."""
    lst = seq(eng)
    a = eng.fresh(name, lst.el.sort())
    eng.assume(a == lst.el)
    eng.heap.write("el", lst._pv_ref, a)
    lst._pv_elem = "val"
    eng.assume(z3.ForAll([i_], z3.Implies(z3.And(0 <= i_, i_ < lst.hi), z3.And(
        V.is_opq(z3.Select(a, i_)))), patterns=[z3.Select(a, i_)]))
    eng.assume(z3.ForAll([i_, j_], z3.Implies(z3.And(0 <= i_, i_ < j_, j_ < lst.hi), z3.Select(a, i_) != z3.Select(a, j_)),
                         patterns=[z3.MultiPattern(z3.Select(a, i_), z3.Select(a, j_))]))
    return lst


class Log:
    """Counts the calls of each listener's methods (ghost state) and checks their arguments."""

    def __init__(self, eng, **check):
        self.eng, self.args = eng, check
        eng.hooks["getattr"] = self.getattr
        for n, g in GHOST.items():
            eng.assume(z3.ForAll([x_], z3.Select(eng.heap[g], x_) == V.int_(0), patterns=[z3.Select(eng.heap[g], x_)]))

    def getattr(self, v, name):
        eng = self.eng
        if name == "_should_resync":
            return lambda now: SymBool(DUE(v.expr, term(now)))
        if name == "_requested_resync_period":
            return SymReal(REQ(v.expr))
        if name == "_stop_add":
            return Flag(lambda: self.count(name, v.expr))
        if name not in GHOST:
            return NotImplemented

        def call(*args):
            if name in self.args:
                self.args[name](v.expr, *args)
            if name in ("_run", "_pop"):
                return Body(self, v.expr, name)
            self.count(name, v.expr)
            if name == "_add":
                return suspending("listener._add")
        return call

    def count(self, name, v):
        eng, g = self.eng, GHOST[name]
        eng.log_write(g, v)
        eng.heap.write(g, v, V.int_(V.ival(eng.heap.read(g, v)) + 1))

    def n(self, name, v):
        return z3.Select(self.eng.heap[GHOST[name]], v)

    def once(self, name, lst, upto, upto2=None):
        """The listeners before `upto` have been called once, the others not at all."""
        el = lst.el
        e = z3.Select(el, i_)
        return z3.ForAll([i_], z3.Implies(z3.And(0 <= i_, i_ < lst.hi), self.n(name, e) == V.int_(
            z3.If(i_ < upto, z3.IntVal(1), z3.IntVal(0)))), patterns=[e])


x_ = z3.Const("x!in", V)
WHERE = z3.Function("position", V, V, z3.IntSort())


def positions(eng, lst):
    """WHERE gives a member's position."""
    e = z3.Select(lst.el, i_)
    eng.assume(z3.ForAll([i_], z3.Implies(z3.And(0 <= i_, i_ < lst.hi), WHERE(lst._pv_ref, e) == i_), patterns=[e]))


def member(lst, v):
    w = WHERE(lst._pv_ref, v)
    return z3.And(0 <= w, w < lst.hi, z3.Select(lst.el, w) == v)


class Flag(Stub):
    """A listener's stop event."""

    def __init__(self, set_):
        self.set_ = set_

    def set(self):
        self.set_()


class Body(Stub):
    """A background task of a listener, not started yet."""
    kind = "listener task"

    def __init__(self, log, v, name):
        self.log, self.v, self.name = log, v, name


def processor(eng, **args):
    m = mod(SI)
    need(m, "_SharedProcessor")
    now = eng.real("now")
    clock = Clock(now)
    p = m._SharedProcessor(clock)
    instance(p, ("_clock", "_listeners_started", "_listeners_lock", "_listeners", "_syncing_listeners", "_tasks"))
    ls = listeners(eng)
    sy = listeners(eng, "syncing")
    for l in (ls, sy):
        positions(eng, l)
    setf(p, "_listeners", ls)
    setf(p, "_syncing_listeners", sy)
    log = Log(eng, **args)
    return m, p, ls, sy, log, now


class Clock(Stub):
    def __init__(self, now):
        self._now = now

    def now(self):
        return self._now


@contract("informer.processor.distribute", "C15 C16 C17", [SI + ":_SharedProcessor._distribute"])
def distribute(eng):
    what = eng.caller_val("notification", not_none=True)

    def added(v, n):
        eng.check("C15| listeners are given the notification that was distributed", eng.enc(n) == what.expr)
        eng.check("C15,C16,C17| only the listeners asked for get it", member(over, v))
        eng.check("C15| notifications are distributed under the lock", z3.BoolVal(
            any(l is p._listeners_lock for l in eng.locks_held)))
    m, p, ls, sy, log, _ = processor(eng, _add=added)
    sync = eng.choose(2) == 1
    over = sy if sync else ls

    def inv(ctx):
        return [("C15,C16,C17| those visited so far got it once", log.once("_add", over, ctx.i))]
    for l in (ls, sy):
        eng.loop_specs.append(LoopSpec(over=l, inv=inv, name="tell every listener"))
    out = run(p._distribute, what, sync)
    no_raise(out, "C15| distributing raises nothing")
    if sync:
        eng.check("C16| a resync reaches every listener taking part, once", log.once("_add", sy, sy.hi))
    else:
        eng.check("C15,C17| a change reaches every listener, once", log.once("_add", ls, ls.hi))
    eng.check("C15| the lock is released", z3.BoolVal(not eng.locks_held))
    eng.cover(f"distributed {sync}")


@contract("informer.processor.should_resync", "C16", [SI + ":_SharedProcessor._should_resync"])
def should_resync(eng):
    def nxt(v, now_):
        eng.check("C16| the next resync is computed from the time of the check", term(now_) == now.expr)
    m, p, ls, sy, log, now = processor(eng, _determine_next_resync=nxt)
    e = z3.Select(ls.el, i_)
    due = lambda x: DUE(x, now.expr)

    def view(ctx=None):
        s = p._syncing_listeners
        if ctx is not None:
            own = [v for v in (ctx.env(n) for n in ctx.loop.pre_locals) if isinstance(v, MList) and v is not ls and v is not sy]
            if len(own) > 1:
                raise Unsupported("several lists")
            s = own[0] if own else s
        if not isinstance(s, MList):
            raise Unsupported("the listeners taking part are not in a list")
        return s

    def sofar(n, ctx=None):
        s = ListV(view(ctx))

        def member(v, i):
            pos = WHERE(ls._pv_ref, v)
            return z3.And(0 <= pos, pos < n, z3.Select(ls.el, pos) == v, due(v))
        return [
            ("C16| exactly the due listeners take part", z3.And(s.forall(member), z3.ForAll([i_], z3.Implies(
                z3.And(0 <= i_, i_ < n, due(e)), s.has(e)), patterns=[e]))),
            ("C16| no listener takes part twice", s.distinct()),
            ("C16| the next resync is moved exactly for those", z3.ForAll([i_], z3.Implies(z3.And(0 <= i_, i_ < ls.hi), log.n(
                "_determine_next_resync", e) == V.int_(z3.If(z3.And(i_ < n, due(e)), z3.IntVal(1), z3.IntVal(0)))), patterns=[e])),
        ]

    def inv(ctx):
        s = view(ctx)
        return sofar(ctx.i, ctx) + [("C16| a resync is needed exactly when some listener takes part", follow(ctx, s.hi > s.lo))]
    eng.loop_specs.append(LoopSpec(over=ls, inv=inv, name="ask every listener"))
    out = run(p._should_resync)
    no_raise(out, "C16| asking for a resync raises nothing")
    for n, f in sofar(ls.hi):
        eng.check(n, f)
    s = view()
    r = out.value
    eng.check("C16| a resync is asked for exactly when some listener is due",
              (z3.BoolVal(r) if isinstance(r, bool) else zbool(r)) == (s.hi > s.lo))
    eng.cover("asked")



@contract("informer.processor.add_listener", "C15 C16", [SI + ":_SharedProcessor._add_listener",
                                                         SI + ":_SharedProcessor._add_listener_locked"])
def add_listener(eng):
    """A listener that is added hears of changes, not of a resync that is under way, and is started if the others are."""
    m, p, ls, sy, log, _ = processor(eng)
    x = eng.caller_val("listener", not_none=True)
    eng.assume(V.is_opq(x.expr))
    eng.assume(z3.Not(ListV(ls).has(x.expr)))
    started = eng.choose(2) == 1
    p._listeners_started = started
    L0, S0 = ListV(ls), ListV(sy)
    spawned = []
    eng.hooks["spawn"] = lambda t: spawned.append(t)
    out = run(p._add_listener, x)
    no_raise(out, "C15| adding a listener raises nothing")
    eng.check("C15| the listener hears of changes from now on, the others as before", L0.appended(x.expr, ListV(p._listeners)))
    S1 = ListV(p._syncing_listeners)
    if started:
        eng.check("C16| a listener that is added takes no part in a resync under way, the others as before", S0.same(S1))
    else:
        # no resync can be under way before the processor runs
        eng.check("C15,C16| the others take part in resyncs as before", z3.Or(S0.appended(x.expr, S1), S0.same(S1)))
    bodies = [t.prim for t in spawned]
    if started:
        ok = sorted(b.name for b in bodies if isinstance(b, Body)) == ["_pop", "_run"] and len(bodies) == 2
        eng.check("C15| a listener added to a running processor is started, once", z3.BoolVal(ok))
        for b in bodies:
            eng.check("C15| it is that listener that is started", b.v == x.expr)
    else:
        eng.check("C15| a listener added before the start is not started yet", z3.BoolVal(not bodies))
    eng.check("C15| the lock is released", z3.BoolVal(not eng.locks_held))
    eng.cover(f"added {started}")


@contract("informer.processor.run", "C15", [SI + ":_SharedProcessor._run"])
def processor_run(eng):
    """Starting starts every listener known by then, once; stopping tells every listener known then and waits for all the tasks."""
    m, p, ls, sy, log, _ = processor(eng)
    need(p, "_tasks")
    stop = mod(SI).asyncio.Event()
    end = eng.choose(2)            # told to stop, or cancelled while running
    at = []

    def spawn(t):
        if not isinstance(t.prim, Body):
            raise Unsupported("another task is started")
        eng.check("C15| only listeners are started", member(ls, t.prim.v))
        eng.check("C15| nothing is started once the processor stops", z3.BoolVal(not at))
        log.count(t.prim.name, t.prim.v)
    eng.hooks["spawn"] = spawn

    def inv(ctx):
        if at:
            return [("those visited so far are told to stop once", log.once("_stop_add", ls, ctx.i))]
        return [("C15| those visited so far are started once", z3.And(log.once("_run", ls, ctx.i), log.once("_pop", ls, ctx.i)))]
    eng.loop_specs.append(LoopSpec(over=ls, inv=inv, name="every listener"))

    def suspend(tag, prim):
        if tag != "event.wait":
            return
        eng.check("C15| every listener is started once", z3.And(log.once("_run", ls, ls.hi), log.once("_pop", ls, ls.hi)))
        eng.check("C15| listeners added from now on are started when they are added", z3.BoolVal(p._listeners_started is True))
        eng.check("C15| the lock is released while the processor runs", z3.BoolVal(not eng.locks_held))
        eng.cover("running")
        if end == 0:
            raise asyncio.CancelledError
        eng.havoc_container(ls)                     # others have been added
        eng.assume(ls.lo == 0)
        el = ls.el
        eng.assume(z3.ForAll([i_, j_], z3.Implies(z3.And(0 <= i_, i_ < j_, j_ < ls.hi), z3.Select(el, i_) != z3.Select(el, j_)),
                             patterns=[z3.MultiPattern(z3.Select(el, i_), z3.Select(el, j_))]))
        if not isinstance(p._tasks, MList):
            raise Unsupported("the tasks of a processor")
        eng.havoc_container(p._tasks)
        at.append("stop")
    eng.on_suspend = suspend

    def many(prim):
        eng.check("every listener is told to stop before its tasks are waited for", z3.And(
            z3.BoolVal(bool(at)), log.once("_stop_add", ls, ls.hi)))
        if len(prim.many) != 1 or prim.many[0] is not p._tasks or prim.tasks:
            raise Unsupported("the tasks a stopped processor waits for")
        at.append("joined")
        eng.cover("stopped")
        return MList([])
    eng.hooks["gather.many"] = many
    out = run(p._run, stop)
    eng.check("the lock is released at the end", z3.BoolVal(not eng.locks_held))
    if end == 0:
        eng.check("C15| the processor runs until it is told to stop", z3.BoolVal(out.cancelled()))
    else:
        no_raise(out, "stopping raises nothing")
        eng.check("the processor ends once its listeners have ended", z3.BoolVal(at == ["stop", "joined"]))


@contract("informer.processor.period_changed", "C16", [SI + ":_SharedProcessor._resync_check_period_changed",
                                                      SI + ":_determine_resync_period"])
def period_changed(eng):
    check = eng.real("check")
    eng.assume(check.expr >= 0)

    def got(v, period):
        eng.check("C16| a changed check period gives every listener the period its request now has",
                  term_real(period) == effective(REQ(v), check.expr))
    m, p, ls, sy, log, _ = processor(eng, _set_resync_period=got)
    eng.assume(z3.ForAll([x_], REQ(x_) >= 0, patterns=[REQ(x_)]))

    def inv(ctx):
        return [("C16| the listeners visited so far have their new period", log.once("_set_resync_period", ls, ctx.i))]
    eng.loop_specs.append(LoopSpec(over=ls, inv=inv, name="tell every listener"))
    out = run(p._resync_check_period_changed, check)
    no_raise(out, "C16| changing the check period raises nothing")
    eng.check("C16| every listener gets its new period", log.once("_set_resync_period", ls, ls.hi))
    eng.cover("changed")


def term_real(x):
    t = term(x)
    return z3.ToReal(t) if z3.is_int(t) else t


def effective(desired, check):
    return z3.If(z3.Or(desired == 0, check == 0), z3.RealVal(0), z3.If(desired < check, check, desired))


@contract("informer.listener.resync", "C16", [SI + ":_ProcessListener." + n for n in (
    "__init__", "_should_resync", "_determine_next_resync", "_set_resync_period")])
def listener_resync(eng):
    m = mod(SI)
    need(m, "_ProcessListener")
    req, per, t0, t1, t2 = (eng.real(n) for n in ("requested", "period", "t0", "t1", "t2"))
    eng.assume(z3.And(per.expr >= 0, t0.expr <= t1.expr, t1.expr <= t2.expr))
    l = m._ProcessListener(object(), req, per, t0)
    need(l, "_should_resync", "_determine_next_resync", "_set_resync_period", "_requested_resync_period")
    eng.check("C16| the requested period is kept", term(l._requested_resync_period) == req.expr)
    k = eng.choose(2)
    start = t0.expr
    if k == 1:
        out = run(l._determine_next_resync, t1)
        no_raise(out, "C16| moving the next resync raises nothing")
        start = t1.expr
    out = run(l._should_resync, t2)
    no_raise(out, "C16| asking a listener raises nothing")
    r = out.value
    r = z3.BoolVal(r) if isinstance(r, bool) else zbool(r)
    eng.check("C16| a listener is due exactly when it has a period and that period has passed",
              r == z3.And(per.expr > 0, t2.expr >= start + per.expr))
    new = eng.real("new_period")
    eng.assume(new.expr >= 0)
    run(l._set_resync_period, new)
    out = run(l._should_resync, t2)
    r = out.value
    r = z3.BoolVal(r) if isinstance(r, bool) else zbool(r)
    eng.check("C16| a listener whose period became 0 is never due", z3.Implies(new.expr == 0, z3.Not(r)))
    run(l._determine_next_resync, t2)
    t3 = eng.real("t3")
    eng.assume(t3.expr >= t2.expr)
    r = run(l._should_resync, t3).value
    r = z3.BoolVal(r) if isinstance(r, bool) else zbool(r)
    eng.check("C16| a changed period counts from the next resync on",
              r == z3.And(new.expr > 0, t3.expr >= t2.expr + new.expr))
    eng.cover("asked")


# ---------------------------------------------------------------- registration of handlers
@contract("informer.add_event_handler", "C15 C16", [SI + ":_SharedIndexInformer.add_event_handler"])
def add_event_handler(eng):
    m0 = mod(SI)
    need(m0, "_ProcessListener")
    store = Store(eng)
    items = listeners(eng, "stored")          # any number of distinct objects
    store.items = items
    positions(eng, items)
    m, inf = shared(eng, store)
    log = Log(eng)
    check, default = eng.real("check"), eng.real("default")
    eng.assume(z3.And(check.expr >= 0, default.expr >= 0))
    started = eng.choose(2) == 1
    stopped = started and eng.choose(2) == 1
    setf(inf, "_resync_check_period", check)
    setf(inf, "_default_event_handler_resync_period", default)
    setf(inf, "_started", started)
    setf(inf, "_stopped", stopped)
    made, added, changed = [], [], []
    Real = m._ProcessListener
    k = eng.choose(2)
    given = None
    if k:
        given = eng.real("resync_period")
        eng.assume(given.expr >= 0)
    want = given if k else default

    def under(lock, what):
        eng.check(f"C15| {what}", z3.BoolVal(any(l is lock for l in eng.locks_held)))

    def make(*a, **kw):
        l = Real(*a, **kw)
        need(l, "_add", "_should_resync", "_handler")
        setf(l, "_add", add)
        made.append(l)
        return l

    async def add(n):
        eng.check("C15| a handler added later hears of stored objects only after it was registered",
                  z3.BoolVal(len(added) == 1))
        under(inf._block_deltas, "a handler added later gets the stored objects while no change is processed")
        eng.check("C15| stored objects reach a new handler as additions", z3.BoolVal(isinstance(n, m._AddNotification)))
        eng.check("C15| only stored objects are passed on", member(items, eng.enc(n.new_obj)))
        log.count("_add", eng.enc(n.new_obj))
        eng.suspend("listener._add")

    class Proc(Stub):
        async def _add_listener(self, l):
            eng.check("C15| the listener made for the handler is registered", z3.BoolVal(len(made) == 1 and l is made[0]))
            under(inf._started_lock, "registration excludes the start of the informer")
            if started:
                under(inf._block_deltas, "a handler is registered with a running informer while no change is processed")
            added.append(l)
            eng.suspend("add_listener")

        def _resync_check_period_changed(self, period):
            changed.append(period)
    setf(inf, "_processor", Proc())

    def inv(ctx):
        return [("C15| the stored objects visited so far were passed on once", log.once("_add", items, ctx.i))]
    eng.loop_specs.append(LoopSpec(over=items, inv=inv, name="every stored object"))
    h = object()
    with patched(m, _ProcessListener=make):
        out = run(inf.add_event_handler, h, resync_period=given) if k else run(inf.add_event_handler, h)
    no_raise(out, "C15| adding a handler raises nothing")
    eng.check("C15| the locks are released", z3.BoolVal(not eng.locks_held))
    if stopped:
        eng.check("C15| a stopped informer takes no handler", z3.BoolVal(not made and not added))
        eng.cover("stopped")
        return
    eng.check("C15| the handler is registered once", z3.BoolVal(len(made) == 1 and len(added) == 1 and made[0]._handler is h))
    if len(made) != 1:
        eng.end_path()
    r = z3.If(want.expr == 0, z3.RealVal(0), z3.If(want.expr < 1, z3.RealVal(1), want.expr))
    lower = z3.And(r > 0, r < check.expr)
    new_check = check.expr if started else z3.If(lower, r, check.expr)
    if started:
        r = z3.If(lower, check.expr, r)
    eng.check("C16| the check period becomes the smallest requested one before the start and stays afterwards",
              term_real(inf._resync_check_period) == new_check)
    if changed:
        eng.check("C16| the other listeners learn of the new check period",
                  z3.And(z3.BoolVal(len(changed) == 1 and not started), r > 0, r <= check.expr, term_real(changed[0]) == r))
    else:
        eng.check("C16| the check period changes only with the other listeners told",
                  z3.Or(z3.BoolVal(started), z3.Not(lower)))
    now = eng.real("later")
    due = run(made[0]._should_resync, now)
    no_raise(due, "C16| asking the new listener raises nothing")
    d = z3.BoolVal(due.value) if isinstance(due.value, bool) else zbool(due.value)
    last = eng.ghost.get("now")
    if last is None:
        raise Unsupported("the registration does not ask the clock")
    eff = effective(r, new_check)
    eng.check("C16| the new listener's effective period is its requested one, raised to the minimum and to the check period",
              d == z3.And(eff > 0, now.expr >= last + eff))
    eng.check("C16| the requested period is kept for later changes", term_real(made[0]._requested_resync_period) == r)
    if started:
        eng.check("C15| every stored object is passed on to the new handler, once", log.once("_add", items, items.hi))
        eng.cover("started")
    eng.cover("registered")


# ---------------------------------------------------------------- a listener's two tasks
SEQ, CNT = "a:ghost_sequence", "a:ghost_count"


class GhostSeq:
    """A sequence that only grows and two positions in it (ghost state)."""

    def __init__(self, eng):
        self.eng = eng
        for k in ("taken", "given", "marked", "closed"):
            self.set(k, 0)

    def key(self, k):
        return V.opq(z3.IntVal({"taken": 900001, "given": 900002, "marked": 900003, "closed": 900004, "attempts": 900005,
                                "sleeps": 900006, "true": 900007}[k]))

    def get(self, k):
        return z3.simplify(V.ival(self.eng.heap.read(CNT, self.key(k))))

    def set(self, k, v):
        self.eng.log_write(CNT, self.key(k))
        self.eng.heap.write(CNT, self.key(k), V.int_(v if z3.is_expr(v) else z3.IntVal(v)))

    def at(self, i):
        return self.eng.heap.read(SEQ, V.int_(i))

    def append(self, v):
        n = self.get("taken")
        self.eng.log_write(SEQ, V.int_(n))
        self.eng.heap.write(SEQ, V.int_(n), v)
        self.set("taken", n + 1)


class FreeQueue(Stub):
    """A queue of which only the order of its entries is known: any get may yield a fresh entry, any put may succeed."""

    def __init__(self, eng, fresh=None, took=None, put=None, marked=None):
        self.eng, self.fresh, self.took, self.on_put, self.marked = eng, fresh, took, put, marked

    def _got(self):
        if self.fresh is None:
            raise Unsupported("taking from this queue")
        v = self.fresh()
        self.took(v)
        return v

    def get(self):
        from pydv.aio import FnPrim
        return FnPrim("queue.get", None, self._got, self)

    def get_nowait(self):
        if self.eng.choose(2):
            raise asyncio.QueueEmpty
        return self._got()

    def put(self, item):
        from pydv.aio import FnPrim
        if self.on_put is None:
            raise Unsupported("putting to this queue")
        return FnPrim("queue.put", None, lambda: self.on_put(item), self)

    def put_nowait(self, item):
        if self.eng.choose(2):
            raise asyncio.QueueFull
        self.on_put(item)

    def task_done(self):
        if self.marked:
            self.marked()

    def join(self):
        return suspending("queue.join", None, self)

    def empty(self):
        return self.eng.bool("empty")

    def full(self):
        return self.eng.bool("full")


def cancelled_coroutines(eng):
    """Background tasks of the function run when they are waited for; cancelling one interrupts it at some await."""
    def settle(t):
        import inspect
        if not inspect.iscoroutine(t.prim):
            return NotImplemented
        outer, eng.ghost["background"] = eng.ghost.get("background"), True
        try:
            return run_coro(t.prim)
        finally:
            eng.ghost["background"] = outer

    def cancel(t):
        import inspect
        if not inspect.iscoroutine(t.prim):
            t.settle_cancelled()
            return
        if eng.choose(2) == 0:
            t.settle_cancelled()            # had not begun
            return
        outer, back = eng.force_cancel, eng.ghost.get("background")
        eng.force_cancel = eng.ghost["background"] = True
        try:
            run_coro(t.prim)
        except asyncio.CancelledError:
            t.settle_cancelled()
        else:
            eng.end_path()                  # a pending task that is cancelled sees it at an await
        finally:
            eng.force_cancel, eng.ghost["background"] = outer, back
    eng.hooks["task"] = settle
    eng.hooks["task.cancel"] = cancel


def no_stragglers(eng, *keep):
    """Model limit: a task left running across iterations is not followed."""
    for t in eng.tasks:
        if t.state == "pending" and not t.cancel_requested and not any(t is k for k in keep) and \
                getattr(t.prim, "kind", None) != "event.wait":
            raise Unsupported("a background task outlives the iteration that started it")


def new_listener(eng, m, handler):
    l = m._ProcessListener(handler, 0, 0, 0)
    need(l, "_add_queue", "_next_queue", "_stop_add", "_stop_next", "_pending_notifications")
    return l


def may_be_set(eng, ev):
    """Somebody else may have set the event meanwhile."""
    f = eng.bool("event_set")
    old = ev._value
    ev._value = SymBool(z3.simplify(z3.Or(zbool(old), f.expr)))


@contract("informer.listener.pop", "C15", [SI + ":_ProcessListener._pop"])
def listener_pop(eng):
    """Every notification taken from a listener's first queue is passed to its second one, once, in order."""
    m = mod(SI)
    need(m, "_ProcessListener")
    l = new_listener(eng, m, object())
    if not isinstance(l._pending_notifications, MList):
        raise Unsupported("pending notifications are not in a sequence")
    g = GhostSeq(eng)

    def fresh():
        v = eng.caller_val("notification", not_none=True)
        eng.assume(V.is_opq(v.expr))
        return v

    def put(item):
        d = g.get("given")
        eng.check("C15| a notification is passed on only after it was taken", d < g.get("taken"))
        eng.check("C15| notifications are passed on in the order they were taken, each once", eng.enc(item) == g.at(d))
        g.set("given", d + 1)
        eng.cover("passed on")
    addq = FreeQueue(eng, fresh, lambda v: g.append(v.expr), None, lambda: g.set("marked", g.get("marked") + 1))
    nextq = FreeQueue(eng, None, None, put)
    setf(l, "_add_queue", addq)
    setf(l, "_next_queue", nextq)
    cancelled_coroutines(eng)

    def handler_bound(p):
        """Goes on only once the handler has come back."""
        return getattr(p, "obj", None) is nextq and p.kind in ("queue.put", "queue.join")

    def suspended(tag, prim):
        if not eng.ghost.get("background"):
            on = [t.prim for t in prim.tasks] if tag == "wait" else [prim]
            eng.check("C15| a listener that waits for its handler still takes notifications", z3.BoolVal(not any(
                map(handler_bound, on)) or not all(handler_bound(p) or getattr(p, "kind", None) == "event.wait" for p in on)))
        may_be_set(eng, l._stop_add)
    eng.on_suspend = suspended

    def inv(ctx):
        n, d = g.get("taken"), g.get("given")
        names = ctx.loop.frame.f_locals
        if "notification" not in names:
            raise Unsupported("the notification in hand is kept elsewhere")
        hand = ctx.env("notification")
        q = ctx.env("next_queue") if "next_queue" in names else nextq if hand is not None else None
        p = l._pending_notifications
        P = ListV(p)
        i = z3.Int("i!pp")
        out = [("C15| every notification taken is marked done", g.get("marked") == n),
               ("C15| counts", z3.And(0 <= d, d <= n))]
        if q is not None and q is not nextq:
            raise Unsupported(f"another queue {q!r}")
        if hand is None:
            out.append(("C15| nothing taken is forgotten", z3.And(d == n, P.len() == 0, z3.BoolVal(q is None))))
        else:
            h = eng.enc(hand)
            out.append(("C15| the notification in hand is the next one to pass on", z3.And(
                d < n, h != NONE, h == g.at(d), z3.BoolVal(q is nextq))))
            out.append(("C15| the others wait in order", z3.And(P.len() == n - d - 1, P.forall(
                lambda e, k: z3.And(V.is_opq(e), e == g.at(d + 1 + (k - P.lo)))))))
        return out
    eng.loop_specs.append(LoopSpec(name="take and pass on", kind="while", inv=inv))
    eng.on_loop = lambda loop, when: no_stragglers(eng) if when == "back" else None
    eng.cancel_enabled = eng.choose(2) == 1
    out = run(l._pop)
    if eng.cancelled:
        eng.check("C15| a cancelled listener ends", z3.BoolVal(out.cancelled()))
    else:
        no_raise(out, "C15| passing on notifications raises nothing")
        eng.check("C15| a listener ends only when told to", zbool(l._stop_add._value))
        eng.cover("ended")
    eng.check("C15| a listener that ends tells its handler's task", zbool(l._stop_next._value))
    if not eng.cancelled:
        eng.check("C15| a listener that ends leaves no task behind", z3.BoolVal(all(
            t.state != "pending" or t.cancel_requested for t in eng.tasks)))


class Backoff(Stub):
    """exponential_backoff as its contract (C22) describes it, for a condition that either raises or returns true."""

    def __init__(self, eng):
        self.eng = eng

    async def __call__(self, backoff, condition):
        r = await condition()
        if r is not True:
            raise Unsupported("a condition that asks for another attempt")


@contract("informer.listener.run", "C15", [SI + ":_ProcessListener._run"])
def listener_run(eng):
    """Every notification taken from a listener's second queue is handed to its handler once, whatever the handler raises."""
    m = mod(SI)
    need(m, "_ProcessListener", "_UpdateNotification", "_AddNotification", "_DeleteNotification")
    kinds = [(m._UpdateNotification, 2, "update"), (m._AddNotification, 1, "add"), (m._DeleteNotification, 1, "delete")]
    st = {"hand": None, "raised": 0}

    def fresh():
        cls, n, name = kinds[eng.choose(3)]
        objs = [eng.caller_val(f"object{k}", not_none=True) for k in range(n)]
        for o in objs:
            eng.assume(z3.Not(V.is_rec(o.expr)))
        st["next"] = (name, objs)
        return cls(*objs)

    def took(v):
        eng.check("C15| the notification taken before was handed to the handler", z3.BoolVal(st["hand"] is None))
        st["hand"] = st["next"]

    def heard(name, *objs):
        hand = st["hand"]
        eng.check("C15| the handler hears of each notification once", z3.BoolVal(hand is not None))
        if hand is None:
            eng.end_path()
        eng.check("C15| the matching handler method is called", z3.BoolVal(hand[0] == name))
        if hand[0] == name:
            eng.check("C15| with the objects of the notification", z3.And([
                eng.enc(a) == b.expr for a, b in zip(objs, hand[1])]))
        st["hand"] = None
        eng.cover(name)
        eng.suspend("handler")
        if eng.choose(2) == 1:
            raise failure(eng, "handler")

    class H(Stub):
        async def on_add(self, new):
            heard("add", new)

        async def on_update(self, old, new):
            heard("update", old, new)

        async def on_delete(self, obj):
            heard("delete", obj)
    l = new_listener(eng, m, H())
    setf(l, "_next_queue", FreeQueue(eng, fresh, took))
    cancelled_coroutines(eng)
    eng.on_suspend = lambda tag, prim: may_be_set(eng, l._stop_next)

    def stopped():
        return z3.simplify(zbool(l._stop_next._value))

    def inv(ctx):
        return [("C15| every notification taken was handed to the handler", z3.BoolVal(st["hand"] is None))]

    def on_loop(loop, when):
        if when == "back":
            no_stragglers(eng)
    eng.on_loop = on_loop
    eng.loop_specs.append(LoopSpec(name="hand on", kind="while", inv=inv))
    eng.cancel_enabled = eng.choose(2) == 1
    with patched(mod("util.wait"), exponential_backoff=Backoff(eng)):
        out = run(l._run)
    if eng.cancelled:
        eng.check("C15| a cancelled listener ends", z3.BoolVal(out.cancelled()))
        return
    no_raise(out, "C15| a raising handler does not end the listener")
    eng.check("C15| a listener's task ends only when told to", stopped())
    eng.cover("ended")


@contract("informer.listener.add", "C15", [SI + ":_ProcessListener._add"])
def listener_add(eng):
    m = mod(SI)
    need(m, "_ProcessListener")
    l = new_listener(eng, m, object())
    puts = []
    setf(l, "_add_queue", FreeQueue(eng, None, None, lambda v: puts.append(v)))
    x = object()
    out = run(l._add, x)
    no_raise(out, "C15| giving a listener a notification raises nothing")
    eng.check("C15| a notification is given to the listener once", z3.BoolVal(len(puts) == 1 and puts[0] is x))


# ---------------------------------------------------------------- the loop that feeds the handlers
@contract("informer.process_loop", "C14", ["cache.controller:_Controller._process_loop"])
def process_loop(eng):
    """Items are processed one after the other with the configured function until the queue is closed."""
    m, ff = mod("cache.controller"), mod("cache.fifo")
    need(m, "new", "Config")
    need(ff, "FIFOClosedError", "ProcessError")
    st = {"owed": None}
    g = GhostSeq(eng)
    closed = lambda: g.get("closed") == 1

    def fn(obj):
        raise Unsupported("processing outside pop")

    class Q(Stub):
        async def pop(self, process):
            eng.check("C14| items are processed by the configured function", z3.BoolVal(process is fn))
            eng.check("C14| an item to retry is back in the queue before the next one is taken", z3.BoolVal(st["owed"] is None))
            eng.check("C14| nothing is taken from a closed queue", z3.Not(closed()))
            eng.suspend("pop")
            k = eng.choose(3)
            if k == 0:
                g.set("closed", 1)
                raise ff.FIFOClosedError
            if k == 1:
                item = eng.caller_val("item")
                if retry:
                    st["owed"] = item
                raise ff.ProcessError(item)

        async def add_if_not_present(self, item):
            eng.check("C14| only an item whose processing failed is retried", z3.BoolVal(st["owed"] is item))
            st["owed"] = None
            eng.suspend("put back")
    retry = eng.choose(2) == 1
    q = Q()
    c = m.new(m.Config(queue=q, lister_watcher=object(), process=fn, object_type=object(), full_resync_period=0,
                       retry_on_error=retry))
    need(c, "_process_loop")
    eng.loop_specs.append(LoopSpec(name="process", kind="while", inv=lambda ctx: [
        ("C14| every failed item that is to be retried was put back", z3.BoolVal(st["owed"] is None)),
        ("C14| the loop knows whether the queue is closed", z3.And(
            z3.Or(closed(), g.get("closed") == 0), follow(ctx, closed()),
            z3.BoolVal(True) if any(isinstance(v, bool) for v in ctx.loop.pre_locals.values()) else z3.Not(closed())))]))
    out = run(c._process_loop)
    no_raise(out, "C14| failing items do not end the processing")
    eng.check("C14| processing ends only when the queue is closed", closed())
    eng.cover("ended")


@contract("informer.controller.run", "C14 C19", ["cache.controller:_Controller.run"])
def controller_run(eng):
    """A cancelled informer stops its reflector and closes its queue; nothing else ends it."""
    m, rf = mod("cache.controller"), mod("cache.reflector")
    need(m, "new", "Config")
    closed, made, loops = [], [], []

    class Q(Stub):
        async def close(self):
            closed.append(1)

    class R(Stub):
        def __init__(self, lw, ty, store, period):
            self.args = (lw, ty, store, period)
            self.should_resync = None
            self._clock = None
            made.append(self)

        def run(self):
            b = Stub()
            b.kind = "reflector"
            return b
    q, lw, ty, sr = Q(), object(), object(), object()
    c = m.new(m.Config(queue=q, lister_watcher=lw, process=object(), object_type=ty, full_resync_period=7,
                       retry_on_error=False, should_resync=sr))
    need(c, "_process_loop")

    async def loop():
        loops.append(1)
        t = [t for t in eng.tasks if getattr(t.prim, "kind", "") == "reflector"]
        eng.check("C19| the reflector runs while items are processed, once", z3.BoolVal(len(t) == 1 and not t[0].cancel_requested))
        r = made[0]
        eng.check("C19| it feeds the informer's queue from its source", z3.BoolVal(
            len(made) == 1 and r.args[0] is lw and r.args[1] is ty and r.args[2] is q and r.args[3] == 7))
        eng.check("C16,C19| with the informer's resync check", z3.BoolVal(r.should_resync is sr))
        eng.suspend("process loop")
    setf(c, "_process_loop", loop)
    eng.loop_specs.append(LoopSpec(name="process again", kind="while"))
    eng.hooks["task"] = lambda t: None
    eng.cancel_enabled = True
    with patched(rf, Reflector=R):
        out = run(c.run)
    if not made or not eng.tasks:
        return                     # cancelled before anything was started
    eng.check("C14| an informer ends only when it is cancelled", z3.BoolVal(eng.cancelled and out.cancelled()), str(out.exc))
    eng.check("C19| a cancelled informer stops its reflector", z3.BoolVal(all(t.cancel_requested for t in eng.tasks)))
    eng.check("C14| a cancelled informer closes its queue", z3.BoolVal(len(closed) >= 1))
    eng.cover("cancelled")


@contract("informer.shared.run", "C11 C14 C15 C16", [SI + ":_SharedIndexInformer.run", SI + ":_SharedIndexInformer.__init__",
                                                     SI + ":new_shared_index_informer", SI + ":new_shared_informer"])
def shared_run(eng):
    """A shared informer that runs: what its queue, its processing and its listeners are, and how they end."""
    store, lw = Stub(), Stub()
    m = mod(SI)
    need(m, "new_shared_index_informer", "new_shared_informer")
    ty, period, given = object(), eng.real("period"), object()
    eng.assume(period.expr >= 0)
    made = []

    def new_indexer(key, indexers):
        made.append((key, indexers))
        return store
    plain_ = eng.choose(2) == 1
    with patched(mod("cache.store"), new_indexer=new_indexer):
        out = run(m.new_shared_informer, lw, ty, period) if plain_ else run(m.new_shared_index_informer, lw, ty, period, given)
    no_raise(out, "C14| creating a shared informer raises nothing")
    inf = out.value
    need(inf, "_processor", "_started", "_stopped", "_started_lock", "_controller", "_resync_check_period", "handle_deltas", "run")
    eng.check("C14| a shared informer has one store, with the indexers given", z3.BoolVal(len(made) == 1 and (
        plain_ or made[0][1] is given)))
    if made[0][0] is not mod("cache.controller").deletion_handling_meta_namespace_key_func:
        raise Unsupported("another key function")
    inf._resync_check_period = check = eng.real("check_period")
    cfgs, runs = [], []
    stub = None

    class C(Stub):
        def __init__(self):
            self._clock = None

        async def run(self):
            runs.append(1)
            ts = [t for t in eng.tasks if t.name.endswith("._run") and t.args.get("self") is inf._processor]
            eng.check("C15| the listeners run while changes are processed, once", z3.BoolVal(
                len(ts) == 1 and ts[0].state == "pending" and not ts[0].cancel_requested))
            eng.check("C15,C16| handlers added from now on are started at once", z3.BoolVal(
                inf._started is True and inf._controller is stub and not inf._stopped))
            eng.check("C15| handlers can be added while an informer runs", z3.BoolVal(not eng.locks_held))
            evs = [v for t in ts for v in t.args.values() if isinstance(v, MEvent)]
            if len(evs) != 1:
                raise Unsupported("the processor is told to stop in another way")
            eng.check("C15| the listeners are not told to stop while changes are processed", z3.Not(zbool(evs[0]._value)))
            st["stop"] = evs[0]
            eng.cover("running")
            eng.suspend("controller")
            if eng.choose(2) == 1:
                st["error"] = ValueError("controller")
                raise st["error"]
    st = {}
    stub = C()
    eng.hooks["spawn"] = lambda t: None

    def ended(t):
        eng.check("C15| the listeners are told to stop before their end is awaited", zbool(st["stop"]._value) if "stop" in st
                  else z3.BoolVal(False))
        st["awaited"] = True
        return None
    eng.hooks["task"] = ended
    eng.cancel_enabled = eng.choose(2) == 1
    with patched(mod("cache.controller"), new=lambda c: (cfgs.append(c), stub)[1]):
        out = run(inf.run)
    if eng.cancelled and not st.get("stop"):
        return                                       # cancelled before anything was started
    if len(cfgs) != 1:
        eng.fail("C14| an informer runs one controller")
        return
    c = cfgs[0]
    need(c, "queue", "lister_watcher", "object_type", "full_resync_period", "retry_on_error", "should_resync", "process")
    df = mod("cache.delta_fifo")
    if type(c.queue) is not df.DeltaFIFO or not hasattr(c.queue, "_known_objects") or not hasattr(c.queue, "_key_func"):
        raise Unsupported("another kind of queue")
    eng.check("C11| deletions are computed against the informer's store", z3.BoolVal(c.queue._known_objects is store))
    if c.queue._key_func is not mod("cache.store").meta_namespace_key_func:
        raise Unsupported("another key function")
    eng.check("C14| the informer processes the changes of its queue itself", z3.BoolVal(
        getattr(c.process, "__self__", None) is inf and getattr(c.process, "__name__", "") == "handle_deltas"))
    eng.check("C14| it is fed by its source, with its type of objects", z3.BoolVal(c.lister_watcher is lw and c.object_type is ty))
    eng.check("C16| it checks for resyncs in its check period", term_real(c.full_resync_period) == check.expr)
    eng.check("C16| its resync check asks its listeners", z3.BoolVal(
        getattr(c.should_resync, "__self__", None) is inf._processor and c.should_resync.__name__ == "_should_resync"))
    eng.check("C14| a failed change is not queued again", z3.BoolVal(c.retry_on_error is False))
    eng.check("C14| an informer processes changes as long as it runs, once", z3.BoolVal(len(runs) == 1))
    if not eng.cancelled:
        eng.check("C14| what ends the processing is let through", z3.BoolVal(out.exc is st.get("error")))
        eng.check("C15| an informer that has ended takes no handlers", z3.BoolVal(inf._stopped is True))
        eng.check("C15| the listeners of an informer that has ended have ended", z3.BoolVal(st.get("awaited", False)))
        eng.check("C15| they were told to", zbool(st["stop"]._value))
        eng.check("C15| the lock is released", z3.BoolVal(not eng.locks_held))
        eng.cover("ended")
    else:
        eng.check("C14| a cancelled informer ends", z3.BoolVal(out.cancelled()))
        eng.cover("cancelled")


@contract("informer.shared.status", "C12 C08", [SI + ":_SharedIndexInformer." + f for f in (
    "has_synced", "last_sync_resource_version", "add_indexers", "get_indexer")])
def shared_status(eng):
    """What a shared informer says of itself, and adding indexers to it."""
    class Store_(Stub):
        async def add_indexers(self, x):
            added.append(x)
    added, store = [], Store_()
    m, inf = shared(eng, store)
    need(inf, "_controller", "has_synced", "last_sync_resource_version", "add_indexers", "get_indexer")
    started = inf._started = eng.choose(2) == 1
    synced = eng.bool("synced")

    class C(Stub):
        def has_synced(self):
            return synced

        def last_sync_resource_version(self):
            return "17"
    inf._controller = C() if started else None
    out = run(lambda: bool(inf.has_synced()))
    no_raise(out, "C12| has_synced raises nothing")
    eng.check("C12| an informer has synced when its queue has", (synced.expr if out.value else z3.Not(synced.expr))
              if started else z3.BoolVal(out.value is False))
    out = run(inf.last_sync_resource_version)
    eng.check("C12| the version an informer has seen is its reflector's", z3.BoolVal(out.value == ("17" if started else "")))
    eng.check("C08| an informer's indexer is its store", z3.BoolVal(run(inf.get_indexer).value is store))
    x = object()
    out = run(inf.add_indexers, x)
    if started:
        eng.check("C08| indexers are refused once the informer has started", z3.BoolVal(out.exc is not None and not added))
        eng.cover("refused")
    else:
        no_raise(out, "C08| indexers can be added before the start")
        eng.check("C08| the indexers are added to the informer's store", z3.BoolVal(len(added) == 1 and added[0] is x))
        eng.cover("added")
    eng.check("C08| the lock is released", z3.BoolVal(not eng.locks_held))


# ---------------------------------------------------------------- small parts
@contract("informer.handler_funcs", "C14", ["cache.controller:ResourceEventHandlerFuncs." + n for n in (
    "on_add", "on_update", "on_delete")])
def handler_funcs(eng):
    """A handler made of functions calls the matching one, if there is one, with the objects."""
    m = mod("cache.controller")
    need(m, "ResourceEventHandlerFuncs")
    told = []
    have = {n: eng.choose(2) == 1 for n in ("add", "update", "delete")}

    def func(name):
        async def f(*a):
            told.append((name, a))
            eng.suspend("handler")
        return f if have[name] else None
    h = m.ResourceEventHandlerFuncs(**{n + "_func": func(n) for n in have})
    which = ("add", "update", "delete")[eng.choose(3)]
    args = [eng.caller_val("object") for _ in range(2 if which == "update" else 1)]
    out = run(getattr(h, "on_" + which), *args)
    no_raise(out, "C14| a missing handler function raises nothing")
    ok = len(told) == have[which] and all(n == which and len(a) == len(args) for n, a in told)
    eng.check("C14| exactly the matching handler function is called", z3.BoolVal(ok))
    if ok and told:
        eng.check("C14| the handler function gets the objects", z3.And([eng.enc(a) == b.expr for a, b in zip(told[0][1], args)]))
        eng.cover("told")


@contract("informer.controller.synced", "C12", ["cache.controller:_Controller.has_synced"])
def controller_synced(eng):
    """A controller has synced exactly when its queue has."""
    m = mod("cache.controller")
    need(m, "new", "Config")
    b = eng.bool("queue_synced")

    class Q(Stub):
        def has_synced(self):
            return b
    c = m.new(m.Config(queue=Q(), lister_watcher=object(), process=None, object_type=object(), full_resync_period=0,
                       retry_on_error=False))
    out = run(c.has_synced)
    no_raise(out, "C12| asking whether a controller has synced raises nothing")
    v = out.value
    eng.check("C12| a controller has synced exactly when its queue has",
              (z3.BoolVal(v) if isinstance(v, bool) else zbool(v)) == b.expr)
