"""Contracts of watch/mux.py (C20)."""
import asyncio
import inspect

import z3

from contracts.informer import FreeQueue, GhostSeq, may_be_set
from pydv.aio import FnPrim, MQueue, run_coro, suspending
from pydv.containers import MDict, pyint
from pydv.core import NONE, TRUTHY, SymBool, SymInt, Unsupported, V, zbool
from pydv.rt import KeysSource, ListSource
from pydv.spec import DictV, LoopSpec, Stub, contract, instance, mod, need, no_raise, patched, run, setf, term, view

MX = "watch.mux"
HANDLED, CALLS = "a:ghost_handled", "a:ghost_stopped"
KEY = z3.Function("watcher_id", V, V)
k_, x_, j_ = z3.Const("k!mx", V), z3.Const("x!mx", V), z3.Int("j!mx")


def broadcaster(eng, incoming=None, drop=None):
    """A broadcaster in an arbitrary state: any number of watchers, any configuration."""
    m = mod(MX)
    need(m, "Broadcaster", "_BroadcasterWatcher", "FullChannelBehavior")
    eng.hooks["spawn"] = lambda t: st.append(t)
    st = []
    length = eng.int("queue_length")
    eng.assume(length.expr >= 0)
    if drop is None:
        drop = eng.choose(2) == 1
    b = m.Broadcaster(length, m.FullChannelBehavior.DROP_IF_CHANNEL_FULL if drop
                      else m.FullChannelBehavior.WAIT_IF_CHANNEL_FULL)
    eng.hooks["spawn"] = lambda t: None
    instance(b, ("_lock", "_watchers", "_next_watcher", "_distributing", "_incoming", "_watch_queue_length",
                 "_full_channel_behavior"))
    if len(st) != 1 or not inspect.iscoroutine(st[0].prim):
        raise Unsupported("a broadcaster starts something else than its loop")
    st[0].prim.close()
    eng.tasks.clear()
    if not isinstance(b._watchers, MDict):
        raise Unsupported("watchers are not in a dictionary")
    b._watchers._pv_key = "val"
    b._watchers._pv_elem = "val"
    if incoming is not None:
        b._incoming = incoming
    arbitrary(eng, b, True)
    return m, b, length, drop


def watchers_inv(eng, b):
    """Watchers are known under ids given out before."""
    d = DictV(b._watchers)
    n = term(b._next_watcher)
    v = z3.Select(d.v, k_)
    return z3.And(n >= 0, z3.ForAll([k_], z3.Implies(d.has(k_), z3.And(
        V.is_int_(k_), V.ival(k_) >= 0, V.ival(k_) < n)), patterns=[d.has(k_)]))


def arbitrary(eng, b, first=False):
    w = b._watchers
    if not first:
        setf(b, "_watchers", w := MDict())
        w._pv_key = w._pv_elem = "val"
    eng.havoc_container(w)
    if first:
        setf(b, "_next_watcher", eng.int("next_watcher"))
    else:
        old = term(b._next_watcher)
        setf(b, "_next_watcher", eng.int("next_watcher"))
        eng.assume(term(b._next_watcher) >= old)
    a = eng.fresh("watchers", w.vals.sort())
    eng.assume(a == w.vals)
    h = eng.fresh("ids", w.has.sort())
    eng.assume(h == w.has)
    eng.heap.write("val", w._pv_ref, a)
    eng.heap.write("has", w._pv_ref, h)
    eng.assume(watchers_inv(eng, b))
    eng.assume(z3.ForAll([k_], z3.Implies(z3.Select(h, k_), z3.And(
        V.is_opq(z3.Select(a, k_)), TRUTHY(z3.Select(a, k_)), KEY(z3.Select(a, k_)) == k_)), patterns=[z3.Select(a, k_)]))


def locked(eng, b):
    return any(l is b._lock for l in eng.locks_held)


class Count:
    """Ghost counters per watcher, all zero at first."""

    def __init__(self, eng, *names):
        self.eng = eng
        for g in names:
            eng.assume(z3.ForAll([x_], z3.Select(eng.heap[g], x_) == V.int_(0), patterns=[z3.Select(eng.heap[g], x_)]))

    def inc(self, g, v):
        self.eng.log_write(g, v)
        self.eng.heap.write(g, v, V.int_(V.ival(self.eng.heap.read(g, v)) + 1))

    def upto(self, g, src, i):
        """The watchers before position i have been counted once, the others not at all."""
        n = src.n()
        v = watcher_at(src, j_)
        pat = v if not isinstance(src, KeysSource) else src.key(j_)
        return z3.ForAll([j_], z3.Implies(z3.And(0 <= j_, j_ < n), z3.Select(self.eng.heap[g], v) == V.int_(
            z3.If(j_ < i, z3.IntVal(1), z3.IntVal(0)))), patterns=[pat])

    def all(self, g, d):
        v = z3.Select(d.v, k_)
        return z3.ForAll([k_], z3.Implies(d.has(k_), z3.Select(self.eng.heap[g], v) == V.int_(1)), patterns=[d.has(k_)])


def watcher_at(src, j):
    if isinstance(src, KeysSource):
        return z3.Select(src.owner.vals, src.key(j))
    if isinstance(src, ListSource):
        return src.elem_v(j)
    raise Unsupported("watchers visited in another form")


# ---------------------------------------------------------------- giving one event to every watcher
@contract("mux.distribute", "C20", [MX + ":Broadcaster._distribute", MX + ":_BroadcasterWatcher._put"])
def distribute(eng):
    """One event: every watcher gets it once, unless it has stopped or (when dropping) its buffer is full."""
    st = {"cur": None, "attempts": 0, "given": False, "stopped": False, "full": False}
    m, b, _, drop = broadcaster(eng)
    event = eng.caller_val("event", not_none=True)
    eng.assume(V.is_opq(event.expr))
    count = Count(eng, HANDLED)
    d = DictV(b._watchers)

    def touch(v):
        if st["cur"] is None:
            st["cur"] = v
        elif not eng.valid(st["cur"] == v):
            raise Unsupported("several watchers at once")

    def attempt(v, item):
        touch(v)
        eng.check("C20| watchers get the event that was acted on", eng.enc(item) == event.expr)
        eng.check("C20| a watcher is offered an event once", z3.BoolVal(st["attempts"] == 0))
        eng.check("C20| an event is given out under the lock", z3.BoolVal(locked(eng, b)))
        st["attempts"] += 1

    class Q(Stub):
        def __init__(self, v):
            self.v = v
            self.maxsize = eng.int("maxsize")
            eng.assume(self.maxsize.expr >= 0)

        def put(self, item):
            if drop:
                eng.check("C20| dropping never waits for a watcher", z3.BoolVal(False))
            return FnPrim("queue.put", None, lambda: self._got(item), self)

        def _got(self, item):
            attempt(self.v, item)
            st["given"] = True

        def put_nowait(self, item):
            attempt(self.v, item)
            if eng.choose(2) == 1:
                st["full"] = True
                raise asyncio.QueueFull
            st["given"] = True

        def join(self):
            def eff():
                st["joined"] = True
            return suspending("queue.join", eff, self)

    class Ev(Stub):
        def __init__(self, v):
            self.v = v

        def is_set(self):
            touch(self.v)
            r = eng.choose(2) == 1
            if r:
                st["stopped"] = True
            return r

        def wait(self):
            def eff():
                touch(self.v)
                st["stopped"] = True
                return True
            return FnPrim("event.wait", None, eff, self)

    def getattr_(v, name):
        if name == "_stopped":
            return Ev(v.expr)
        if name == "_result":
            return Q(v.expr)
        if name == "_put":
            need(m._BroadcasterWatcher, "_put")

            def put(item):
                # mux.watcher.put: the item is put into the watcher's buffer once, possibly after waiting
                return FnPrim("watcher.put", None, lambda: Q(v.expr)._got(item), v)
            return put
        return NotImplemented
    eng.hooks["getattr"] = getattr_

    def on_loop(loop, when):
        if when == "head":
            st.update(cur=None, attempts=0, given=False, stopped=False, full=False)
        elif when == "back":
            if st["cur"] is None:
                return
            if drop:
                eng.check("C20| an event is withheld only from a stopped or full watcher", z3.BoolVal(
                    st["given"] or st["stopped"] or st["full"]))
            else:
                eng.check("C20| an event is withheld only from a stopped watcher", z3.BoolVal(st["given"] or st["stopped"]))
            for t in eng.tasks:
                if t.state == "pending" and not t.cancel_requested and getattr(t.prim, "kind", "") == "watcher.put":
                    eng.check("C20| an event is not given to a watcher later", z3.BoolVal(False))
            count.inc(HANDLED, st["cur"])
    eng.on_loop = on_loop
    eng.on_suspend = lambda tag, prim: None

    def inv(ctx):
        return [("C20| the watchers visited so far were offered it", count.upto(HANDLED, ctx.src, ctx.i))]
    eng.loop_specs.append(LoopSpec(name="every watcher", kind="for", inv=inv))
    out = run(b._distribute, event)
    no_raise(out, "C20| giving out an event raises nothing")
    eng.check("C20| every watcher was offered the event", count.all(HANDLED, d))
    eng.check("C20| the watchers stay as they are", d.same(DictV(b._watchers)))
    eng.check("C20| the lock is released", z3.BoolVal(not eng.locks_held))
    eng.cover("dropping" if drop else "waiting")


@contract("mux.watcher.put", "C20", [MX + ":_BroadcasterWatcher._put"])
def watcher_put(eng):
    """An item is put into the watcher's buffer once; without a buffer it is taken before put returns."""
    m = mod(MX)
    need(m, "_BroadcasterWatcher")
    item = eng.caller_val("event", not_none=True)
    st = {"put": 0, "joined": False}

    class Q(Stub):
        def __init__(self):
            self.maxsize = eng.int("maxsize")
            eng.assume(self.maxsize.expr >= 0)

        def put(self, x):
            eng.check("C20| the item given is put", eng.enc(x) == item.expr)

            def eff():
                st["put"] += 1
            return FnPrim("queue.put", None, eff, self)

        def join(self):
            def eff():
                eng.check("C20| it is put before it is waited for", z3.BoolVal(st["put"] == 1))
                st["joined"] = True
            return suspending("queue.join", eff, self)
    q = Q()
    eng.hooks["spawn"] = lambda t: None
    w = m._BroadcasterWatcher(q, 0, object())
    out = run(w._put, item)
    no_raise(out, "C20| putting raises nothing")
    eng.check("C20| an item is put once", z3.BoolVal(st["put"] == 1))
    eng.check("C20| without a buffer, put returns when the item was taken", z3.Implies(
        q.maxsize.expr == 0, z3.BoolVal(st["joined"])))
    eng.cover("put")


# ---------------------------------------------------------------- registering and leaving
def serve(eng, b, st, run_it):
    """What the loop does with an entry put by block: see mux.loop."""
    entry = st["entry"]
    try:
        run_it(entry["object"])
    except (KeyError, TypeError) as e:
        raise Unsupported(f"entries for the loop in another form: {e}")


@contract("mux.watch", "C20", [MX + ":Broadcaster.watch", MX + ":Broadcaster.watch_with_prefix", MX + ":Broadcaster._block_queue",
                               MX + ":_BroadcasterWatcher.__init__"])
def watch(eng):
    """A watch call returns a watcher that was registered, under an id of its own, in turn with the events."""
    st = {"entry": None, "entries": 0, "served": False}

    def put(item):
        st["entry"] = item
        st["entries"] += 1
    m, b, length, _ = broadcaster(eng, FreeQueue(eng, None, None, put), drop=False)
    prefix = eng.choose(2) == 1
    events = []
    if prefix:
        for i in range(eng.choose(3)):
            e = eng.caller_val("prefix", not_none=True)
            eng.assume(V.is_opq(e.expr))
            events.append(e)
    busy = {"in": False, "pre": None}

    def on_suspend(tag, prim):
        if busy["in"]:
            if not locked(eng, b):
                arbitrary(eng, b)
            remember()
            return
        if tag == "event.wait" and st["entry"] is not None and not st["served"]:
            # the loop reaches the entry
            arbitrary(eng, b)
            remember()
            st["served"] = busy["in"] = True
            f = st["entry"].get("object") if hasattr(st["entry"], "get") else None
            if not callable(f):
                raise Unsupported("entries for the loop in another form")
            c = f()
            if inspect.iscoroutine(c):
                run_coro(c)
            busy["in"] = False
            judge()
        arbitrary(eng, b)

    def remember():
        busy["pre"] = DictV(b._watchers), term(b._next_watcher)

    def judge():
        """Exactly one watcher was added, under a new id."""
        d0, n0 = busy["pre"]
        d, n = DictV(b._watchers), term(b._next_watcher)
        new = V.int_(n0)
        eng.check("C20| a new watcher has an id of its own", n == n0 + 1)
        eng.check("C20| a watch adds one watcher", d.m == z3.Store(d0.m, new, z3.BoolVal(True)))
        eng.check("C20| and leaves the others alone", d0.same_but(new, d))
        eng.check("C20| the lock is released", z3.BoolVal(not eng.locks_held))
        st["new"] = d.get(new)
        st["id"] = new
    eng.on_suspend = on_suspend
    made = []

    def spawn(t):
        made.append(t)
    eng.hooks["spawn"] = spawn
    eng.cancel_enabled = False
    if prefix:
        from pydv.containers import MList
        out = run(b.watch_with_prefix, MList(events))
    else:
        out = run(b.watch)
    no_raise(out, "C20| watching raises nothing")
    eng.check("C20| a watch passes through the loop once", z3.BoolVal(st["entries"] == 1 and st["served"]))
    w = out.value
    if not isinstance(w, m._BroadcasterWatcher):
        eng.check("C20| a watch returns its watcher", z3.BoolVal(False))
        eng.end_path()
    eng.check("C20| a watch returns the watcher it added", eng.enc(w) == st["new"])
    need(w, "_id", "_m", "_result", "_stopped")
    eng.check("C20| the watcher knows its id and broadcaster", z3.And(eng.enc(w._id) == st["id"], z3.BoolVal(w._m is b)))
    eng.check("C20| a new watcher has not stopped", z3.Not(zb(w._stopped._value)))
    q = w._result
    if not isinstance(q, MQueue):
        raise Unsupported("the buffer is not a queue")
    items = view(q._items)
    eng.check("C20| a new watcher's buffer holds its prefix, in order", z3.And(
        [items.len() == len(events)] + [items.at(i) == e.expr for i, e in enumerate(events)]))
    if prefix:
        eng.check("C20| its buffer has room for the prefix and as much as configured", z3.And(
            term(q.maxsize) >= len(events), term(q.maxsize) >= length.expr))
    else:
        eng.check("C20| its buffer is as large as configured", term(q.maxsize) == length.expr)
    eng.cover(f"watching {prefix} {len(events)}")


def zb(x):
    return z3.BoolVal(x) if isinstance(x, bool) else zbool(x)


@contract("mux.stop_watching", "C20", [MX + ":Broadcaster._stop_watching"])
def stop_watching(eng):
    m, b, _, _ = broadcaster(eng, drop=False)
    d = {}

    def on_suspend(tag, prim):
        if not locked(eng, b):
            arbitrary(eng, b)
        d["0"] = DictV(b._watchers)
    eng.on_suspend = on_suspend
    d["0"] = DictV(b._watchers)
    stopped = []
    eng.hooks["getattr"] = stopping(eng, b, lambda v: stopped.append(v))
    id_ = eng.int("id")
    out = run(b._stop_watching, id_)
    no_raise(out, "C20| stopping raises nothing, also twice")
    d0, d1, k = d["0"], DictV(b._watchers), V.int_(id_.expr)
    eng.check("C20| the watcher is gone", d1.m == z3.Store(d0.m, k, z3.BoolVal(False)))
    eng.check("C20| the others stay", d0.same_but(k, d1))
    eng.check("C20| no other watcher is stopped", z3.And([z3.And(d0.has(k), v == d0.get(k)) for v in stopped]))
    eng.check("C20| its iteration ends", z3.Implies(d0.has(k), z3.BoolVal(len(stopped) > 0)))
    eng.check("C20| the lock is released", z3.BoolVal(not eng.locks_held))
    eng.cover("stopped")


def stopping(eng, b, log):
    class Ev(Stub):
        def __init__(self, v):
            self.v = v

        def set(self):
            eng.check("C20| watchers are ended under the lock", z3.BoolVal(locked(eng, b)))
            log(self.v)

        def is_set(self):
            return eng.bool("is_stopped")

    def getattr_(v, name):
        return Ev(v.expr) if name == "_stopped" else NotImplemented
    return getattr_


@contract("mux.close_all", "C20", [MX + ":Broadcaster._close_all"])
def close_all(eng):
    """Shutdown: every watcher is ended, none is left."""
    m, b, _, _ = broadcaster(eng, drop=False)
    d = {}
    count = Count(eng, HANDLED)

    def on_suspend(tag, prim):
        if not locked(eng, b):
            arbitrary(eng, b)
        d["0"] = DictV(b._watchers)
    eng.on_suspend = on_suspend
    d["0"] = DictV(b._watchers)
    eng.hooks["getattr"] = stopping(eng, b, lambda v: count.inc(HANDLED, v))
    eng.loop_specs.append(LoopSpec(name="end every watcher", kind="for", inv=lambda ctx: [
        ("C20| the watchers visited so far were ended", count.upto(HANDLED, ctx.src, ctx.i))]))
    out = run(b._close_all)
    no_raise(out, "C20| closing raises nothing")
    eng.check("C20| every watcher was ended", count.all(HANDLED, d["0"]))
    d1 = DictV(b._watchers)
    eng.check("C20| no watcher is left", z3.ForAll([k_], z3.Not(d1.has(k_)), patterns=[d1.has(k_)]))
    eng.check("C20| the lock is released", z3.BoolVal(not eng.locks_held))
    eng.cover("closed")


@contract("mux.watcher.stop", "C20", [MX + ":_BroadcasterWatcher.stop", MX + ":_BroadcasterWatcher.__aexit__"])
def watcher_stop(eng):
    """Stopping ends the watcher before anything else and takes it off the broadcaster; again it does nothing."""
    m = mod(MX)
    need(m, "_BroadcasterWatcher")
    told = []

    class M(Stub):
        async def _stop_watching(self, id_):
            eng.check("C20| a stopping watcher is ended before it waits for the broadcaster", zb(w._stopped._value))
            told.append(id_)
            eng.suspend("stop watching")
    eng.hooks["spawn"] = lambda t: None
    id_ = eng.int("id")
    w = m._BroadcasterWatcher(FreeQueue(eng), id_, M())
    need(w, "_stopped")
    already = eng.choose(2) == 1
    if already:
        w._stopped._value = True
    how = eng.choose(2)

    async def twice():
        if how == 0:
            await w.stop()
            await w.stop()
        else:
            async with w as x:
                eng.check("C20| entering a watcher gives the watcher", z3.BoolVal(x is w))
            await w.stop()
    out = run(twice)
    no_raise(out, "C20| stopping raises nothing, also twice")
    eng.check("C20| a stopped watcher is ended", zb(w._stopped._value))
    if not already:
        eng.check("C20| a stopped watcher is taken off its broadcaster", z3.BoolVal(len(told) >= 1))
    for t in told:
        eng.check("C20| it is that watcher that is taken off", term(t) == id_.expr)
    eng.cover("stopped")


# ---------------------------------------------------------------- the loop
@contract("mux.loop", "C20", [MX + ":Broadcaster._loop", MX + ":Broadcaster.action", MX + ":Broadcaster._block_queue"])
def loop(eng):
    """Entries are dealt with in the order they were put: events given out, registrations run, once each; the end closes all."""
    st = {"due": None, "log": [], "end": False, "closed": False}
    holder = {"put": None}

    def captured(item):
        holder["put"] = item
        raise Captured
    m, b, _, _ = broadcaster(eng, FreeQueue(eng, None, None, captured), drop=False)
    need(b, "_distribute", "_close_all")

    class Captured(Exception):
        pass

    def entry(f, *args):
        holder["put"] = None
        out = run(f, *args)
        if not isinstance(out.exc, Captured):
            raise Unsupported("entries reach the loop in another way")
        return holder["put"]

    def judge():
        due, log = st["due"], st["log"]
        st["due"], st["log"] = None, []
        if due is None:
            eng.check("C20| nothing is done without an entry", z3.BoolVal(not log))
        else:
            eng.check("C20| each entry is dealt with once, before the next", z3.BoolVal(len(log) == 1 and log[0] == due))
            eng.cover(due)

    def fresh():
        judge()
        eng.check("C20| nothing is taken after the end", z3.BoolVal(not st["end"]))
        kind = eng.choose(3)
        b._incoming = FreeQueue(eng, None, None, captured)
        if kind == 0:
            r = entry(b.shutdown)
            st["end"] = True
        elif kind == 1:
            ty, o = eng.caller_val("type", not_none=True), eng.caller_val("object")
            for x in (ty, o):
                eng.assume(V.is_opq(x.expr))
            st["event"] = ty, o
            r = entry(b.action, ty, o)
            st["due"] = "event"
        else:
            async def f():
                st["log"].append("function")
                eng.suspend("registration")
            r = entry(b._block_queue, f)
            st["due"] = "function"
        b._incoming = q
        return r
    q = FreeQueue(eng, fresh, lambda v: None)
    b._incoming = q

    async def dist(event):
        ty, o = st.get("event") or (None, None)
        if ty is None:
            raise Unsupported("an event without one")
        ok = isinstance(event, MDict)
        if not ok:
            raise Unsupported("events in another form")
        eng.check("C20| the event given out is the one acted on", z3.And(
            eng.enc(event["type"]) == ty.expr, eng.enc(event["object"]) == o.expr))
        st["log"].append("event")
        eng.suspend("distribute")

    async def close():
        eng.check("C20| watchers are ended only at the end", z3.BoolVal(st["end"] and not st["closed"]))
        eng.check("C20| shutdown returns only after watchers were ended", z3.Not(zb(b._distributing._value)))
        st["closed"] = True
        eng.suspend("close all")
    setf(b, "_distribute", dist)
    setf(b, "_close_all", close)
    def nothing_held():
        if st["due"] is not None or st["end"]:
            raise Unsupported("an entry is carried over to the next round of the loop")
        return True
    eng.loop_specs.append(LoopSpec(name="entry after entry", kind="while", inv=lambda ctx: nothing_held() and [
        ("C20| shutdown has not happened", z3.And(z3.BoolVal(not st["end"] and not st["closed"]), z3.Not(zb(b._distributing._value))))]))

    def on_loop(loop, when):
        if when == "back":
            judge()
    eng.on_loop = on_loop
    out = run(b._loop)
    no_raise(out, "C20| the loop raises nothing")
    judge()
    eng.check("C20| the loop ends only at the end, with every watcher ended", z3.BoolVal(st["end"] and st["closed"]))
    eng.check("C20| and tells shutdown", zb(b._distributing._value))
    eng.cover("ended")


@contract("mux.entries", "C20", [MX + ":Broadcaster.action", MX + ":Broadcaster.shutdown"])
def entries(eng):
    """An action puts one entry; shutdown puts one and returns when the loop has ended."""
    puts = []
    m, b, _, _ = broadcaster(eng, FreeQueue(eng, None, None, lambda x: puts.append(x)), drop=False)
    seen = {}

    def on_suspend(tag, prim):
        may_be_set(eng, b._distributing)
    eng.on_suspend = on_suspend
    if eng.choose(2) == 0:
        out = run(b.action, eng.caller_val("type"), eng.caller_val("object"))
    else:
        out = run(b.shutdown)
        eng.check("C20| shutdown returns when everything was delivered", zb(b._distributing._value))
    no_raise(out, "C20| acting raises nothing")
    eng.check("C20| an action is put once", z3.BoolVal(len(puts) == 1))
    eng.cover("put")


# ---------------------------------------------------------------- the watcher's side
@contract("mux.next", "C20", [MX + ":_BroadcasterWatcher.__anext__", MX + ":_BroadcasterWatcher.__aiter__"])
def next_(eng):
    """A watcher yields the events of its buffer, each once and in order, and ends when it is stopped and nothing is left.

    Cancelling a call (a consumer that stops waiting) loses nothing.  Assumed of asyncio: a task waiting for an event
    of the buffer runs once it is there, before whoever waits for that task or for what happened later."""
    m = mod(MX)
    need(m, "_BroadcasterWatcher")
    g = GhostSeq(eng)          # "given": put into the buffer so far; "taken": taken out of it; "marked": reported done
    for k in ("given", "taken"):
        n = eng.int(k)
        g.set(k, n.expr)
    eng.assume(z3.And(0 <= g.get("taken"), g.get("taken") <= g.get("given")))
    g.set("marked", g.get("taken"))

    class Q(Stub):
        def __init__(self):
            self.maxsize = eng.int("maxsize")
            eng.assume(self.maxsize.expr >= 0)

        def _take(self):
            v = g.at(g.get("taken"))
            eng.assume(z3.And(V.is_opq(v)))
            g.set("taken", g.get("taken") + 1)
            return eng.dec(v, "val")

        def get(self):
            return FnPrim("queue.get", lambda: g.get("taken") < g.get("given"), self._take, self)

        def get_nowait(self):
            if not eng.fork(g.get("taken") < g.get("given")):
                raise asyncio.QueueEmpty
            return self._take()

        def empty(self):
            return SymBool(z3.simplify(g.get("taken") >= g.get("given")))

        def qsize(self):
            return pyint(g.get("given") - g.get("taken"))

        def task_done(self):
            g.set("marked", g.get("marked") + 1)
    q = Q()
    eng.hooks["spawn"] = lambda t: None
    w = m._BroadcasterWatcher(q, 0, object())
    need(w, "_stopped", "_result")
    # the call may be one of many: whatever an earlier call left behind is what cancelling one leaves behind
    eng.hooks["wait.first"] = lambda t: getattr(t.prim, "kind", "") == "queue.get"
    if eng.choose(2) == 1:
        w._stopped._value = True

    def on_suspend(tag, prim):
        # the broadcaster puts events until it ends the watcher
        n = eng.int("given")
        eng.assume(n.expr >= g.get("given"))
        eng.assume(z3.Implies(zb(w._stopped._value), n.expr == g.get("given")))
        g.set("given", n.expr)
        may_be_set(eng, w._stopped)
        # whatever an earlier call left waiting for an event is served first
        for t in eng.tasks:
            if t.state == "pending" and getattr(t.prim, "kind", "") == "queue.get" and not any(
                    t is u for u in getattr(prim, "tasks", ())):
                if t.cancel_requested:
                    t.settle_cancelled()
                elif eng.fork(t.ready()):
                    t.settle()
    eng.on_suspend = on_suspend
    eng.loop_specs.append(LoopSpec(name="until there is an event", kind="while", inv=lambda ctx: [
        ("C20| an event is taken by the call that returns it", z3.And(g.get("taken") == first, g.get("marked") == first)),
        ("positions", z3.And(g.get("taken") <= g.get("given")))]))
    first = g.get("taken")
    eng.check("C20| a watcher iterates over itself", z3.BoolVal(w.__aiter__() is w))
    eng.cancel_enabled = eng.choose(2) == 1
    out = run(w.__anext__)
    if out.cancelled():
        eng.check("C20| only a cancelled call ends as cancelled", z3.BoolVal(eng.cancelled))
        eng.cancel_enabled = False
        out = run(w.__anext__)
        eng.cover("again")
    if isinstance(out.exc, StopAsyncIteration):
        eng.check("C20| iteration ends only when the watcher was stopped", zb(w._stopped._value))
        eng.check("C20| and every event delivered before was handed out", z3.And(
            g.get("taken") == first, g.get("given") == first))
        eng.cover("ended")
        return
    no_raise(out, "C20| the next event comes without an exception")
    eng.check("C20| the next event is the oldest one not handed out yet", z3.And(
        eng.enc(out.value) == g.at(first), g.get("taken") == first + 1))
    eng.check("C20| without a buffer, the broadcaster learns that the event was taken", z3.Implies(
        q.maxsize.expr == 0, g.get("marked") == g.get("taken")))
    eng.cover("event")
