"""Contracts of workqueue/delaying_queue.py (C04; shut_down also C03) and workqueue/rate_limiting_queue.py (C05)."""
import asyncio

import z3

from contracts.informer import may_be_set
from contracts.waits import real
from pydv.aio import FnPrim, MCount, MQueue
from pydv.containers import IV, MDict, MList
from pydv.core import NONE, SymBool, SymInt, SymReal, SymVal, Unsupported, V, zbool
from pydv.spec import (LoopSpec, Stub, contract, instance, mod, need, no_raise, patched, run, setf, term, view)

DQ = "workqueue.delaying_queue"
INH, KP, KC, KO = "a:ghost_inheap", "a:ghost_heap_priority", "a:ghost_heap_count", "a:ghost_heap_owner"
YES = V.int_(IV(1))
e_, k_ = z3.Const("e!pq", V), z3.Const("k!pq", V)


def base(a):
    """The array before its last updates, for patterns."""
    while z3.is_app(a) and a.decl().kind() == z3.Z3_OP_STORE:
        a = a.arg(0)
    return a


# ---------------------------------------------------------------- the waiting items
class Entry(MList):
    """A [priority, count, data] of the heap."""

    def _index(self, i):
        from pydv.core import E
        if isinstance(i, int) and -3 <= i < 3:
            if not E().valid(z3.And(self.lo == 0, self.hi == 3)):
                raise Unsupported("an entry of another form")
            return IV(i % 3)
        raise Unsupported("an entry of another form")

    def _at(self, zi):
        from pydv.core import E
        x, e = z3.simplify(zi), z3.Select(self.el, z3.simplify(zi))
        return E().dec(e, {0: "real", 1: "int", 2: "val"}[x.as_long()])

    def __iter__(self):
        return iter([self[0], self[1], self[2]])


class Heap(Stub):
    """A list kept as a heap (assumed of heapq): the first is a least entry, by the keys they were pushed with."""

    def __init__(self, eng):
        self.eng = eng

    def read(self, a, r):
        return self.eng.heap.read(a, r)

    def write(self, a, r, v):
        self.eng.log_write(a, r)
        self.eng.heap.write(a, r, v)

    def inside(self, r):
        return self.read(INH, r) == YES

    def before(self, r, s):
        p, q = V.rval(self.read(KP, r)), V.rval(self.read(KP, s))
        return z3.Or(p < q, z3.And(p == q, V.ival(self.read(KC, r)) <= V.ival(self.read(KC, s))))

    def all(self, fact):
        return z3.ForAll([e_], z3.Implies(self.inside(e_), fact(e_)), patterns=[z3.Select(base(self.eng.heap[INH]), e_)])

    def __bool__(self):
        if self.eng.choose(2) == 0:
            self.eng.assume(self.inside(self.eng.fresh("entry", V)))
            return True
        self.eng.assume(self.all(lambda r: z3.BoolVal(False)))
        return False

    def least(self):
        eng = self.eng
        if not eng.feasible(self.all(lambda r: z3.BoolVal(False))) or eng.choose(2) == 0:
            r = eng.fresh("least", V)
            eng.assume(self.inside(r))
            eng.assume(self.all(lambda s: self.before(r, s)))
            return r
        eng.assume(self.all(lambda r: z3.BoolVal(False)))
        raise IndexError("list index out of range")

    def handle(self, r):
        return self.eng.dec(r, ("list", Entry, None))

    def __getitem__(self, i):
        if type(i) is not int or i != 0:
            raise Unsupported("an entry of the heap other than the first")
        return self.handle(self.least())

    def push(self, lst, x):
        if lst is not self or not isinstance(x, MList):
            raise Unsupported("pushed")
        r = x._pv_ref
        self.eng.check("C04| an entry of the heap has a priority, a count and an item", z3.And(x.lo == 0, x.hi == 3))
        self.write(INH, r, YES)
        self.write(KP, r, z3.Select(x.el, 0))
        self.write(KC, r, z3.Select(x.el, 1))
        self.write(KO, z3.Select(x.el, 1), r)

    def pop(self, lst):
        if lst is not self:
            raise Unsupported("popped")
        r = self.least()
        self.write(INH, r, NONE)
        return self.handle(r)


class Waiting:
    """The items of a priority queue and when they are due."""

    def __init__(self, eng):
        self.eng = eng
        m = mod(DQ)
        need(m, "_WaitForPriorityQueue")
        cls = m._WaitForPriorityQueue
        out = run(cls)
        no_raise(out, "C04| a priority queue can be made")
        self.q = q = instance(out.value, {"_pq", "_entry_finder", "_counter", "_len"})
        need(cls, "_REMOVED")
        self.removed = eng.enc(cls._REMOVED)
        if not isinstance(q._pq, MList) or not isinstance(q._entry_finder, MDict) or not isinstance(q._counter, MCount):
            raise Unsupported("another kind of priority queue")
        eng.check("C04| a new priority queue is empty", z3.And(q._pq.zlen() == 0, q._entry_finder.zsize == 0, term(q._len) == 0))
        self.heap = Heap(eng)
        setf(q, "_pq", self.heap)
        eng.hooks["heappush"], eng.hooks["heappop"] = self.heap.push, self.heap.pop
        d = self.d = q._entry_finder
        d._pv_key, d._pv_elem = "val", ("list", Entry, None)
        eng.havoc_container(d)
        q._counter.n = eng.int("counter")
        self.n0 = q._counter.n.expr
        q._len = eng.int("len")
        for a in (INH, KP, KC, KO):
            eng.heap[a] = eng.fresh(a, eng.heap[a].sort())
        for n, f in self.inv():
            eng.assume(f)
        self.before = self.snap()

    def snap(self):
        d = view(self.d)
        return d, self.eng.heap["el"]

    def at(self, S, k):
        """When item k is due."""
        d, el = S
        return V.rval(z3.Select(z3.Select(el, d.get(k)), IV(0)))

    def inv(self):
        eng, h, q = self.eng, self.heap, self.q
        d = view(self.d)

        def el(r):
            return eng.heap.read("el", r)

        def data(r):
            return z3.Select(el(r), IV(2))
        return [
            ("C04| the entries of the heap keep their form and their keys", h.all(lambda r: z3.And(
                V.is_ref(r), V.gen(r) < eng.next_gen, eng.heap.read("lo", r) == 0, eng.heap.read("hi", r) == 3,
                V.is_real_(z3.Select(el(r), 0)), V.is_int_(z3.Select(el(r), 1)),
                z3.Select(el(r), 0) == h.read(KP, r), z3.Select(el(r), 1) == h.read(KC, r)))),
            ("C04| an entry of the heap is removed, or its item's own", h.all(lambda r: z3.Or(
                data(r) == self.removed, z3.And(d.has(data(r)), d.get(data(r)) == r)))),
            ("C04| every waiting item has its entry in the heap", d.items(lambda k, r: z3.And(
                h.inside(r), data(r) == k, k != self.removed))),
            ("C04| no two entries have the same count, and the next one is new", z3.And(
                h.all(lambda r: V.ival(h.read(KC, r)) < term(q._counter.n)),
                h.all(lambda r: h.read(KO, h.read(KC, r)) == r))),
            ("C04| the number of waiting items is right", term(q._len) == d.size),
        ]

    def finish(self):
        for n, f in self.inv():
            self.eng.check(n, f)
        return self.snap()

    def same_but(self, S, T, k):
        """T has the items of S, due at the same times, except for k."""
        a, b = S[0], T[0]
        return z3.ForAll([k_], z3.Implies(k_ != k, z3.And(a.has(k_) == b.has(k_), z3.Implies(
            a.has(k_), self.at(S, k_) == self.at(T, k_)))), patterns=[z3.Select(base(b.m), k_), z3.Select(base(a.m), k_)])

    def spec(self, name):
        """Loops that throw removed entries away leave the waiting items as they are."""
        S = self.before
        return LoopSpec(name=name, kind="while", inv=lambda ctx: self.inv() + [
            ("C04| throwing removed entries away changes no waiting item", self.same_but(S, self.snap(), self.removed))])


PQ = DQ + ":_WaitForPriorityQueue"


@contract("delaying.pq.insert", "C04", [PQ + ".insert", PQ + "._remove", PQ + ".__init__"])
def insert(eng):
    """Inserting an item: it is due at the earlier of the two times."""
    W = Waiting(eng)
    x, p = eng.caller_val("item"), eng.real("time")
    eng.assume(x.expr != W.removed)
    out = run(W.q.insert, x, p)
    no_raise(out, "C04| inserting raises nothing")
    S, T = W.before, W.finish()
    k = x.expr
    eng.check("C04| an inserted item waits", T[0].has(k))
    eng.check("C04| an item is due at the earliest of the times it was inserted with", W.at(T, k) == z3.If(
        z3.And(S[0].has(k), W.at(S, k) <= p.expr), W.at(S, k), p.expr))
    eng.check("C04| inserting leaves the other items alone", W.same_but(S, T, k))
    eng.cover("inserted")


@contract("delaying.pq.pop", "C04", [PQ + ".pop"])
def pop(eng):
    """Popping gives an item that is due no later than any other."""
    W = Waiting(eng)
    k0 = eng.val("some").expr
    some = eng.choose(2) == 0
    S = W.before
    eng.assume(S[0].has(k0) if some else S[0].items(lambda k, r: z3.BoolVal(False)))
    eng.assume((S[0].size > 0) == z3.BoolVal(some))       # a dict's size is the number of its keys
    eng.loop_specs.append(W.spec("pop"))
    out = run(W.q.pop)
    T = W.finish()
    if not some:
        eng.check("C04| there is nothing to pop from an empty queue", z3.BoolVal(isinstance(out.exc, KeyError)))
        eng.cover("empty")
        return
    no_raise(out, "C04| popping a waiting item raises nothing")
    k = eng.enc(out.value)
    eng.check("C04| a popped item was waiting and waits no longer", z3.And(S[0].has(k), z3.Not(T[0].has(k))))
    eng.check("C04| a popped item is due no later than any other", W.at(S, k) <= W.at(S, k0))
    eng.check("C04| popping leaves the other items alone", W.same_but(S, T, k))
    eng.cover("popped")


@contract("delaying.pq.peek", "C04", [PQ + ".peek_priority", PQ + ".__len__"])
def peek(eng):
    W = Waiting(eng)
    k0 = eng.val("some").expr
    some = eng.choose(2) == 0
    S = W.before
    eng.assume(S[0].has(k0) if some else S[0].items(lambda k, r: z3.BoolVal(False)))
    eng.assume((S[0].size > 0) == z3.BoolVal(some))       # a dict's size is the number of its keys
    eng.loop_specs.append(W.spec("peek"))
    n = run(lambda: bool(W.q.__len__()))
    no_raise(n, "C04| the number of waiting items can be had")
    out = run(W.q.peek_priority)
    T = W.finish()
    eng.check("C04| looking changes nothing", W.same_but(S, T, W.removed))
    eng.check("C04| the queue is empty exactly if it says so", zbool(n.value) == z3.BoolVal(some) if not isinstance(
        n.value, bool) else z3.BoolVal(n.value == some))
    if not some:
        eng.check("C04| nothing is due in an empty queue", z3.BoolVal(isinstance(out.exc, KeyError)))
        eng.cover("empty")
        return
    no_raise(out, "C04| looking at the first time raises nothing")
    p = term(out.value)
    eng.check("C04| the first time is no later than any other", p <= W.at(S, k0))
    k1 = eng.fresh("key", V)
    eng.check("C04| the first time is some item's", z3.Not(z3.ForAll([k_], z3.Not(z3.And(S[0].has(k_), W.at(S, k_) == p)),
                                                                       patterns=[z3.Select(S[0].m, k_)])))
    eng.cover("looked")


# ---------------------------------------------------------------- the queue
from contracts.workqueue import FIELDS  # noqa: E402

TQ = DQ + ":_DelayingType"
CLOCK, ADDS, HAS, DUE = "a:ghost_clock", "a:ghost_adds", "a:ghost_waits", "a:ghost_due"
LAST, FIRST, SEEN, SIZE = (V.opq(z3.IntVal(k)) for k in (910001, 910002, 910003, 910004))


class Ghost:
    """Facts kept in heap arrays, so that loops forget them unless their invariants say otherwise."""

    def __init__(self, eng):
        self.eng = eng

    def get(self, a, k):
        return self.eng.heap.read(a, k)

    def set(self, a, k, v):
        self.eng.log_write(a, k)
        self.eng.heap.write(a, k, v)


class Clock(Stub):
    """A clock that does not go back; remembers the last reading, and the first one since the loop woke up."""

    def __init__(self, eng):
        self.eng, self.g = eng, Ghost(eng)
        self.ticks = Ticks(self, None)
        self.timers, self.tickers = {}, []
        self.g.set(CLOCK, LAST, V.real_(eng.real("before").expr))
        self.g.set(CLOCK, FIRST, V.real_(z3.RealVal(0)))
        self.g.set(CLOCK, SEEN, NONE)

    @property
    def last(self):
        return V.rval(self.g.get(CLOCK, LAST))

    @property
    def first(self):
        return V.rval(self.g.get(CLOCK, FIRST))

    @property
    def seen(self):
        """The clock was read since the loop woke up."""
        return self.g.get(CLOCK, SEEN) == YES

    def now(self):
        t = self.eng.real("now")
        self.eng.assume(t.expr >= self.last)
        self.g.set(CLOCK, FIRST, z3.If(self.seen, self.g.get(CLOCK, FIRST), V.real_(t.expr)))
        self.g.set(CLOCK, SEEN, YES)
        self.g.set(CLOCK, LAST, V.real_(t.expr))
        return t

    def since(self, t):
        return self.now() - t

    def woken(self):
        self.g.set(CLOCK, SEEN, NONE)

    def new_ticker(self, d):
        t = Ticker(self)
        self.tickers.append(t)
        return t

    def new_timer(self, d):
        t = self.eng.caller_val("timer", not_none=True)
        self.eng.assume(z3.And(V.is_opq(t.expr), self.eng.truthy(t.expr) if hasattr(self.eng, "truthy") else True))
        self.timers[t.expr.get_id()] = [t, d, True]
        return t

    def getattr(self, v, name):
        if name == "c":
            return lambda: Ticks(self, v)
        if name == "stop":
            return lambda: self.stop(v)
        raise Unsupported(f"{name} of a timer")

    def stop(self, v):
        for i in self.timers.values():
            if self.eng.feasible(i[0].expr == v.expr):
                i[2] = False
        return self.eng.bool("stopped")


class Ticker(Stub):
    def __init__(self, clock):
        self.clock, self.stops = clock, 0

    def c(self):
        return self.clock.ticks

    def stop(self):
        self.stops += 1


class Ticks(Stub):
    """The queue of a timer or a ticker."""

    def __init__(self, clock, timer):
        self.clock, self.timer = clock, timer

    def get(self):
        return FnPrim("tick", None, lambda: self.clock.eng.val("tick"), self)


class AddQueue(Stub):
    """The queue of delayed adds: any number of them, any items, any times."""

    def __init__(self, eng, took=None, put=None):
        self.eng, self.took, self.on_put, self.g = eng, took, put, Ghost(eng)
        self.unknown()

    def _take(self):
        self.g.set(ADDS, SIZE, V.int_(self.n - 1))
        m = mod(DQ)
        need(m, "_WaitFor")
        x, r = self.eng.caller_val("item"), self.eng.real("ready_at")
        self.eng.assume(z3.Not(V.is_rec(x.expr)))
        if self.took is None:
            raise Unsupported("taking from the queue of delayed adds")
        self.took(x, r)
        out = run(lambda: m._WaitFor(data=x, ready_at=r))
        if out.exc is not None:
            raise Unsupported("a delayed add of another form")
        return out.value

    @property
    def n(self):
        return V.ival(self.g.get(ADDS, SIZE))

    def unknown(self):
        """Anybody may have put any number of entries."""
        n = self.eng.int("size")
        self.eng.assume(n.expr >= 0)
        self.g.set(ADDS, SIZE, V.int_(n.expr))

    def get(self):
        return FnPrim("queue.get", lambda: self.n > 0, self._take, self, always=True)

    def empty(self):
        return SymBool(self.n == 0)

    def get_nowait(self):
        if not self.eng.fork(self.n > 0):
            raise asyncio.QueueEmpty
        return self._take()

    def qsize(self):
        return SymInt(self.n)

    def full(self):
        return self.eng.bool("full")

    def _put(self, x):
        if self.on_put is None:
            raise Unsupported("putting into the queue of delayed adds")
        self.on_put(x)

    def put(self, x):
        return FnPrim("queue.put", None, lambda: self._put(x), (self, x))

    def put_nowait(self, x):
        if self.eng.choose(2) == 1:
            raise asyncio.QueueFull
        self._put(x)


class Q:
    """A delaying queue whose clock, adds and queue of delayed adds are the contract's."""

    def __init__(self, eng):
        self.eng = eng
        m = self.m = mod(DQ)
        need(m, "_DelayingType")
        self.clock = Clock(eng)
        self.spawned = []
        eng.hooks["spawn"] = self.spawned.append
        out = run(m._DelayingType, self.clock)
        no_raise(out, "C04| a delaying queue can be made")
        q = self.q = instance(out.value, set(FIELDS) | {"_heartbeat", "_stop_event", "_waiting_for_add_queue"})
        self.at_first = z3.And(zbool(q._stop_event._value) == z3.BoolVal(False), z3.BoolVal(q._clock is self.clock),
                               z3.BoolVal(not q._shutting_down))
        del eng.hooks["spawn"]
        self.adds = []
        q.__dict__["add"] = self.add
        self.down = False
        eng.on_suspend = self.suspended

    def add(self, x):
        return FnPrim("add", None, lambda: self.added(x), (x,), always=True)

    def added(self, x):
        self.adds.append(x)

    def suspended(self, tag, prim):
        """Somebody else may shut the queue down meanwhile (the stop event is set first)."""
        may_be_set(self.eng, self.q._stop_event)
        f = self.eng.bool("down")
        self.eng.assume(z3.Implies(f.expr, zbool(self.q._stop_event._value)))
        self.eng.assume(z3.Implies(zbool(self.q._shutting_down), f.expr))
        self.q._shutting_down = f


class Items(Stub):
    """The priority queue, as its contracts (delaying.pq.*) describe it."""

    def __init__(self, eng, Q):
        self.eng, self.g, self.Q = eng, Ghost(eng), Q
        eng.heap[HAS] = z3.K(V, NONE)
        self.hand = None

    def has(self, k):
        return self.g.get(HAS, k) == YES

    def due(self, k):
        return V.rval(self.g.get(DUE, k))

    def all(self, fact):
        return z3.ForAll([k_], z3.Implies(self.has(k_), fact(k_)), patterns=[z3.Select(base(self.eng.heap[HAS]), k_)])

    def none(self):
        return self.all(lambda k: z3.BoolVal(False))

    def __len__(self):
        n = self.eng.int("waiting")
        self.eng.assume(n.expr >= 0)
        w = self.eng.fresh("waiting_item", V)
        self.eng.assume(z3.Or(z3.And(n.expr > 0, self.has(w)), z3.And(n.expr == 0, self.none())))
        return n

    def __bool__(self):
        from pydv.core import E
        return E().fork(self.__len__().expr > 0)

    def insert(self, data, priority):
        eng = self.eng
        k, p = eng.enc(data), term(priority)
        if self.hand is not None:
            x, r, _ = self.hand
            eng.check("C04| a delayed add waits for its own item and time", z3.And(k == x, p == r))
            self.hand = None
        else:
            eng.fail("C04| only what was taken from the queue of delayed adds waits")
        v = z3.If(z3.And(self.has(k), self.due(k) <= p), self.due(k), p)
        self.g.set(DUE, k, V.real_(v))
        self.g.set(HAS, k, YES)
        eng.cover("waits")

    def least(self):
        eng = self.eng
        if eng.choose(2) == 1:
            eng.assume(self.none())
            raise KeyError
        k = eng.fresh("least", V)
        eng.assume(z3.And(self.has(k), self.all(lambda j: self.due(k) <= self.due(j)), z3.Not(V.is_rec(k))))
        return k

    def peek_priority(self):
        return SymReal(self.due(self.least()))

    def pop(self):
        k = self.least()
        if self.hand is not None:
            raise Unsupported("several items in hand")
        self.hand = (k, self.due(k), "popped")
        self.g.set(HAS, k, NONE)
        return SymVal(k)

    # -- what the loop does with it
    def took(self, x, r):
        if self.hand is not None:
            raise Unsupported("several items in hand")
        self.hand = (x.expr, r.expr, "taken")

    def added(self, x):
        eng, k = self.eng, self.eng.enc(x)
        if self.hand is None:
            eng.fail("C04| only items whose time has come are added, each once")
            return
        x, r, how = self.hand
        eng.check("C04| the item added is the one whose time has come", k == x)
        eng.check("C04| no item is added before its time", r <= self.Q.clock.last)
        eng.check("C04| items are added in the order of their times", self.all(lambda j: r <= self.due(j)))
        eng.check("C04| no item is added while it still waits", z3.Not(self.has(k)))
        self.hand = None
        eng.cover("added")

    def waiting(self, prim):
        """The loop is about to wait for what is next."""
        eng, c = self.eng, self.Q.clock
        eng.check("C04| no item is forgotten", z3.BoolVal(self.hand is None))
        eng.check("C04| the loop looks at the clock before it waits", c.seen)
        eng.check("C04| an item is added once the loop has seen the clock reach its time",
                  self.all(lambda k: self.due(k) > c.first))
        if prim.when == asyncio.ALL_COMPLETED:
            raise Unsupported("waiting for several things to happen")
        waits = [t for t in prim.tasks]
        prims = [t.prim for t in waits if isinstance(t.prim, FnPrim)]
        gets = [t for t in eng.tasks if isinstance(t.prim, FnPrim) and isinstance(t.prim.obj, AddQueue) and t.state == "pending"
                and not t.cancel_requested]
        eng.check("C04| the loop waits for further delayed adds", z3.BoolVal(any(t in waits for t in gets)))
        eng.check("C04| no delayed add is taken by anyone else", z3.BoolVal(all(any(t is u for u in waits) for t in gets)
                                                                             and len(gets) <= 1))
        fine = self.none()
        for p in prims:
            if p.kind == "tick" and p.obj.timer is not None:
                i = c.timers.get(p.obj.timer.expr.get_id())
                if i is None:
                    raise Unsupported("waiting for a timer made earlier")
                if i[2]:
                    d = term(i[1])
                    fine = z3.Or(fine, self.all(lambda k: d <= self.due(k) - c.first))
        eng.check("C04| the loop wakes up when the next item is due", fine)
        c.woken()
        eng.cover("waits for what is next")


@contract("delaying.loop", "C04", [TQ + "._waiting_loop"])
def loop(eng):
    """The loop that takes delayed adds up and adds their items when they are due."""
    Z = Q(eng)
    q, c = Z.q, Z.clock
    W = Items(eng, Z)
    need(q, "_waiting_loop")
    Z.added = W.added
    eng.hooks["getattr"] = c.getattr
    addq = AddQueue(eng, W.took)
    setf(q, "_waiting_for_add_queue", addq)

    def suspended(tag, prim):
        Q.suspended(Z, tag, prim)
        addq.unknown()
        if tag == "wait":
            W.waiting(prim)
        elif tag != "add":
            ts = getattr(prim, "tasks", [prim])
            if not all(getattr(t, "cancel_requested", False) for t in ts):
                raise Unsupported(f"waiting in another way: {tag}")
    eng.on_suspend = suspended

    def inv(ctx):
        out = [("C04| no item is forgotten", z3.BoolVal(W.hand is None)), ("the size of a queue", addq.n >= 0),
               ("the first reading since the last wake-up is not after the last", z3.Implies(c.seen, c.first <= c.last)),
               ("a queue that is shut down is stopped", z3.Implies(zbool(q._shutting_down), zbool(q._stop_event._value)))]
        def known(v):
            return z3.Implies(c.seen, z3.And(c.first <= v.expr, v.expr <= c.last))
        if not hasattr(ctx.loop, "_known"):
            ctx.loop._known = [n for n, v in ctx.loop.pre_locals.items() if isinstance(v, SymReal) and eng.valid(known(v))]
        keep = [known(v) for v in (ctx.env(n) for n in ctx.loop._known) if isinstance(v, SymReal)]
        if not hasattr(ctx.loop, "_seen"):
            ctx.loop._seen = eng.valid(c.seen)
        out.append(("the clock was read since the last wake-up", c.seen if ctx.loop._seen else z3.BoolVal(True)))
        out.append(("the times known were read since the last wake-up", z3.And(keep) if keep else z3.BoolVal(True)))
        return out
    eng.loop_specs.append(LoopSpec(name="the loop", kind="while", inv=inv))
    with patched(Z.m, _WaitForPriorityQueue=lambda: W):
        out = run(q._waiting_loop)
    no_raise(out, "C04| the loop raises nothing")
    eng.check("C04| the loop ends only when the queue is shut down", z3.Or(zbool(q._stop_event._value), zbool(q._shutting_down)))
    eng.cover("ended")


@contract("delaying.init", "C04 C03", [TQ + ".__init__", DQ + ":new"])
def init(eng):
    """A delaying queue starts its loop, once, when it is made."""
    Z = Q(eng)
    q = Z.q
    eng.check("C03,C04| a new queue is not shut down", Z.at_first)
    eng.check("C04| a new queue starts its loop, once", z3.BoolVal(
        len(Z.spawned) == 1 and Z.spawned[0].args.get("self") is q and Z.spawned[0].name.endswith("._waiting_loop")))
    w = q._waiting_for_add_queue
    if not isinstance(w, MQueue):
        raise Unsupported("another kind of queue")
    eng.check("C04| no delayed add waits at first", w._items.zlen() == 0)
    eng.check("C03,C04| nothing is pending at first", z3.And(q._queue.zlen() == 0, q._dirty.zsize == 0, q._processing.zsize == 0))
    out = run(Z.m.new)
    no_raise(out, "C04| a delaying queue can be made")
    eng.check("C04| new makes a delaying queue with the real clock", z3.BoolVal(
        type(out.value) is Z.m._DelayingType and type(out.value._clock).__name__ == "RealClock"))
    eng.cover("made")


@contract("delaying.add_after", "C04 C03", [TQ + ".add_after"])
def add_after(eng):
    """A delayed add is passed to the loop with its time; without a delay it is done at once."""
    Z = Q(eng)
    q, c = Z.q, Z.clock
    puts = []
    setf(q, "_waiting_for_add_queue", AddQueue(eng, None, puts.append))
    x, d = eng.caller_val("item"), eng.real("delay")
    eng.assume(z3.Not(V.is_rec(x.expr)))
    q._stop_event._value = eng.bool("stopped")
    q._shutting_down = eng.bool("down")
    down = zbool(q._shutting_down)
    eng.assume(z3.Implies(down, zbool(q._stop_event._value)))
    t0 = c.last
    out = run(q.add_after, x, d)
    no_raise(out, "C04| a delayed add raises nothing")
    stopped = zbool(q._stop_event._value)
    eng.check("C03,C04| an item is added at most once", z3.BoolVal(len(puts) + len(Z.adds) <= 1))
    eng.check("C03| after shutdown nothing is added later", z3.Implies(down, z3.BoolVal(not puts)))
    now = z3.And(z3.BoolVal(len(Z.adds) == 1), d.expr <= 0)
    if Z.adds:
        eng.check("C04| the item is added", eng.enc(Z.adds[0]) == x.expr)
    if puts:
        w = puts[0]
        if not isinstance(w, Z.m._WaitFor):
            raise Unsupported("a delayed add of another form")
        eng.check("C04| the item is the one that waits", eng.enc(w.data) == x.expr)
        eng.check("C04| an item waits for at least its delay from the call on", real(w.ready_at) >= t0 + d.expr)
        eng.check("C04| an item waits for no longer than its delay", real(w.ready_at) <= c.last + d.expr)
        eng.check("C04| an item without delay does not wait", d.expr > 0)
        eng.cover("waits")
    eng.check("C04| an item without delay is added at once, with a delay once it is due", z3.Or(
        down, stopped, z3.If(d.expr <= 0, z3.BoolVal(len(Z.adds) == 1), z3.BoolVal(len(puts) == 1))))
    eng.check("C04| an item with a delay is not added at once", z3.Or(z3.BoolVal(not Z.adds), d.expr <= 0))
    left = [t for t in eng.tasks if t is not Z.spawned[0] and t.state == "pending" and not t.cancel_requested]
    eng.check("C04| a delayed add leaves no task behind", z3.BoolVal(not left))
    if not puts and not Z.adds:
        eng.cover("ignored")


@contract("delaying.shut_down", "C03", [TQ + ".shut_down"])
def shut_down(eng):
    """Shutting a delaying queue down stops its loop and shuts the queue down, once."""
    Z = Q(eng)
    q = Z.q
    q._stop_event._value = eng.bool("stopped")
    stopped = zbool(q._stop_event._value)
    calls = []

    def base(self):
        calls.append(self)
        eng.check("C03| the loop is told to stop before the queue is shut down", zbool(q._stop_event._value))

        def effect():
            q._shutting_down = True
        return FnPrim("shut_down", None, effect, self)
    T = mod("workqueue.queue").Type
    need(T, "shut_down")
    with patched(T, shut_down=base):
        out = run(q.shut_down)
    no_raise(out, "C03| shutting down raises nothing")
    eng.check("C03| shutting down tells the loop to stop", zbool(q._stop_event._value))
    eng.check("C03| shutting down shuts the queue down unless that was done before", z3.Or(
        stopped, z3.BoolVal(len(calls) >= 1 and all(c is q for c in calls))))
    eng.cover("shut down")


RL = "workqueue.rate_limiting_queue"
RQ = RL + ":_RateLimitingType"


class Limiter(Stub):
    def __init__(self, eng):
        self.eng, self.calls = eng, []

    def when(self, item):
        d = self.eng.real("delay")
        self.calls.append(("when", item, d))
        return d

    def forget(self, item):
        self.calls.append(("forget", item, None))

    def num_requeues(self, item):
        n = self.eng.int("requeues")
        self.calls.append(("num_requeues", item, n))
        return n


@contract("ratelimiting.queue", "C04 C05", [RQ + "." + f for f in ("__init__", "add_rate_limited", "forget", "num_requeues")])
def rate_limited(eng):
    """A rate-limited add is a delayed add with the limiter's delay; the rest is passed to the limiter."""
    m = mod(RL)
    need(m, "_RateLimitingType")
    eng.hooks["spawn"] = lambda t: None
    lim, c = Limiter(eng), Clock(eng)
    out = run(m._RateLimitingType, lim, c)
    no_raise(out, "C05| a rate-limited queue can be made")
    q = instance(out.value, set(FIELDS) | {"_heartbeat", "_stop_event", "_waiting_for_add_queue", "_rate_limiter"})
    eng.check("C04,C05| a rate-limited queue has the clock and the limiter given", z3.BoolVal(
        q._clock is c and q._rate_limiter is lim))
    later = []

    def add_after(item, duration):
        return FnPrim("add_after", None, lambda: later.append((item, duration)), q, always=True)
    q.__dict__["add_after"] = add_after
    x = eng.caller_val("item")
    k = eng.choose(3)
    if k == 0:
        out = run(q.add_rate_limited, x)
        no_raise(out, "C05| a rate-limited add raises nothing")
        one = len(lim.calls) == 1 and lim.calls[0][0] == "when"
        eng.check("C05| a rate-limited add asks the limiter once", z3.BoolVal(one))
        eng.check("C04,C05| a rate-limited add is one delayed add", z3.BoolVal(len(later) == 1))
        if one and len(later) == 1:
            eng.check("C04,C05| a rate-limited add is a delayed add with the limiter's delay", z3.And(
                eng.enc(lim.calls[0][1]) == x.expr, eng.enc(later[0][0]) == x.expr, real(later[0][1]) == lim.calls[0][2].expr))
        eng.cover("added")
        return
    f, what = [("forget", "forgetting"), ("num_requeues", "counting")][k - 1]
    out = run(getattr(q, f), x)
    no_raise(out, f"C05| {what} raises nothing")
    one = len(lim.calls) == 1 and lim.calls[0][0] == f
    eng.check(f"C05| {what} is left to the limiter", z3.And(z3.BoolVal(one and not later), eng.enc(lim.calls[0][1]) == x.expr if one else z3.BoolVal(False)))
    if k == 2 and one:
        eng.check("C05| the number of requeues is the limiter's", real(out.value) == z3.ToReal(lim.calls[0][2].expr))
    eng.cover(what)


@contract("ratelimiting.new", "C05 C06", [RL + ":new", RQ + ".__init__"])
def new(eng):
    """Without a limiter a rate-limited queue has the default one."""
    m = mod(RL)
    need(m, "new", "_RateLimitingType")
    eng.hooks["spawn"] = lambda t: None
    lim, default = Limiter(eng), Limiter(eng)
    given = eng.choose(2) == 0
    with patched(mod("workqueue.default_rate_limiters"), default_controller_rate_limiter=lambda: default):
        out = run(m.new, lim) if given else run(m.new)
    no_raise(out, "C05| a rate-limited queue can be made")
    q = out.value
    eng.check("C05,C06| a rate-limited queue has the limiter given, or the default one", z3.BoolVal(
        type(q) is m._RateLimitingType and q._rate_limiter is (lim if given else default)
        and type(q._clock).__name__ == "RealClock"))
    eng.cover("given" if given else "default")
