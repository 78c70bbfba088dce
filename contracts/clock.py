"""Contracts of util/clock.py and util/_time.py (C21)."""
import asyncio
import inspect

import z3

from pydv.aio import MQueue, run_coro, suspending
from pydv.containers import MList, sym_class
from pydv.core import NONE, SymBool, SymReal, Unsupported, V, zbool
from pydv.spec import ListV, LoopSpec, Stub, follow, contract, instance, mod, need, no_raise, patched, run, setf, term

CL, TM = "util.clock", "util._time"
FULL, PUTS, LAST, WHERE = "a:ghost_full", "a:ghost_puts", "a:ghost_last", "a:ghost_where"
T, S, SK, Q = "a:_target_time", "a:_step_interval", "a:_skip_if_blocked", "a:_dest_queue"
IDX = z3.Function("place_of_waiter", V, z3.IntSort())
OWNER = z3.Function("waiter_of_queue", V, V)
REACH = z3.Function("a_number_of_steps_after", z3.RealSort(), z3.RealSort(), z3.RealSort(), z3.BoolSort())
j_, p_, w_ = z3.Int("j!ck"), z3.Int("p!ck"), z3.Const("w!ck", V)
a_, s_, b_ = z3.Real("a!ck"), z3.Real("s!ck"), z3.Real("b!ck")


def real(x):
    e = term(x)
    return z3.ToReal(e) if e.sort() == z3.IntSort() else e


def bit(v):
    return z3.Or(v == V.int_(0), v == V.int_(1))


class Q_(Stub):
    """The queue of a timer or ticker: one place."""

    def __init__(self, eng, v):
        self.eng, self.v, self.maxsize = eng, v, 1

    def is_full(self):
        return self.eng.heap.read(FULL, self.v) == V.int_(1)

    def full(self):
        return SymBool(z3.simplify(self.is_full()))

    def empty(self):
        return SymBool(z3.simplify(z3.Not(self.is_full())))

    def qsize(self):
        return 1 if self.eng.fork(self.is_full()) else 0

    def _put(self, item):
        eng, v = self.eng, self.v
        for g, x in ((FULL, V.int_(1)), (PUTS, V.int_(V.ival(eng.heap.read(PUTS, v)) + 1)), (LAST, eng.enc(item))):
            eng.log_write(g, v)
            eng.heap.write(g, v, x)

    def put_nowait(self, item):
        if self.eng.fork(self.is_full()):
            raise asyncio.QueueFull
        self._put(item)

    async def put(self, item):
        self.eng.check("C21| setting the time waits for nobody", z3.Not(self.is_full()))
        self._put(item)


class Clock:
    """A fake clock in an arbitrary state: any number of timers and tickers."""

    def __init__(self, eng):
        self.eng = eng
        m = self.m = mod(CL)
        self.yes, self.no, self.gen = eng.enc(True), eng.enc(False), eng.next_gen
        need(m, "FakeClock", "_FakeClockWaiter", "_FakeTimer", "_FakeTicker")
        self.cls = sym_class(m._FakeClockWaiter, {"_target_time": "real", "_step_interval": "real",
                                                  "_skip_if_blocked": "bool", "_dest_queue": "val"})
        c = self.c = m.FakeClock(eng.real("start"))
        instance(c, ("_lock", "_time", "_waiters"))
        if not isinstance(c._waiters, MList):
            raise Unsupported("waiters are not in a list")
        eng.check("C21| a new clock has nothing pending", ListV(c._waiters).len() == 0)
        eng.hooks["getattr"] = lambda v, n: getattr(Q_(eng, v.expr), n)
        eng.assume(z3.ForAll([a_, s_], REACH(a_, s_, a_), patterns=[REACH(a_, s_, a_)]))
        eng.assume(z3.ForAll([a_, s_, b_], z3.Implies(REACH(a_, s_, b_), REACH(a_, s_, b_ + s_)), patterns=[REACH(a_, s_, b_)]))
        self.arbitrary(True)
        eng.on_suspend = lambda tag, prim: self.arbitrary()

    def arbitrary(self, first=False):
        eng, c = self.eng, self.c
        ws = MList() if not first else c._waiters
        ws._pv_elem = self.cls._pv_symshape
        if not first:
            setf(c, "_waiters", ws)
        eng.havoc_container(ws)
        setf(c, "_time", eng.real("time"))
        el = eng.fresh("waiters", ws.el.sort())
        eng.assume(el == ws.el)
        eng.heap.write("el", ws._pv_ref, el)
        for g in (FULL, PUTS, T, S, SK, Q):
            self.eng.heap[g] = eng.fresh(g, eng.heap[g].sort())
        eng.assume(z3.ForAll([w_], z3.Select(eng.heap[PUTS], w_) == V.int_(0), patterns=[z3.Select(eng.heap[PUTS], w_)]))
        for f in self.inv():
            eng.assume(f[1])
        self.pre = self.snap()

    def snap(self):
        h = self.eng.heap
        ws = ListV(self.c._waiters)
        return Snap(ws.lo, ws.hi, ws.el, h[T], h[S], h[SK], h[Q], h[FULL], h[PUTS], h[LAST], term(self.c._time), self.yes)

    def inv(self):
        """Pending waiters are distinct and so are their queues; a timer's queue is empty until it fires;
        tickers have a positive interval."""
        s = self.snap()
        e = z3.Select(s.el, j_)
        return [("waiters", z3.ForAll([j_], z3.Implies(z3.And(s.lo <= j_, j_ < s.hi), z3.And(
            V.is_ref(e), V.gen(e) < self.gen, IDX(e) == j_, V.is_opq(s.q(e)), OWNER(s.q(e)) == e,
            V.is_real_(z3.Select(s.T, e)), V.is_real_(z3.Select(s.S, e)),
            z3.Or(z3.Select(s.SK, e) == self.yes, z3.Select(s.SK, e) == self.no), bit(z3.Select(s.full, s.q(e))),
            z3.If(s.skip(e), s.s(e) > 0, z3.And(s.s(e) == 0, z3.Not(s.isfull(e)))))), patterns=[e]))]


class Snap:
    def __init__(self, lo, hi, el, T, S, SK, Q, full, puts, last, now, yes):
        self.lo, self.hi, self.el, self.T, self.S, self.SK, self.Q, self.full, self.puts, self.last, self.now, self.yes = (
            lo, hi, el, T, S, SK, Q, full, puts, last, now, yes)

    def q(self, w):
        return z3.Select(self.Q, w)

    def t(self, w):
        return V.rval(z3.Select(self.T, w))

    def s(self, w):
        return V.rval(z3.Select(self.S, w))

    def skip(self, w):
        return z3.Select(self.SK, w) == self.yes

    def isfull(self, w):
        return z3.Select(self.full, self.q(w)) == V.int_(1)

    def put(self, w):
        return V.ival(z3.Select(self.puts, self.q(w)))

    def at(self, j):
        return z3.Select(self.el, j)

    def member(self, w):
        return z3.And(self.lo <= IDX(w), IDX(w) < self.hi, self.at(IDX(w)) == w)


def treated(X, Y, t, w):
    """Setting the time to t has been done for waiter w, X being the state before and Y the one after."""
    due = X.t(w) <= t
    fires = z3.And(due, z3.Or(z3.Not(X.skip(w)), z3.Not(X.isfull(w))))
    q = X.q(w)
    return [
        ("a timer or ticker fires once when due, with the new time, unless its last tick is still there", z3.And(
            Y.put(w) == z3.If(fires, z3.IntVal(1), z3.IntVal(0)),
            z3.Implies(fires, z3.Select(Y.last, q) == V.real_(t)),
            Y.isfull(w) == z3.Or(X.isfull(w), fires))),
        ("the next tick is the first multiple of the interval after the new time", z3.If(
            z3.And(due, X.skip(w)), z3.And(REACH(X.t(w), X.s(w), Y.t(w)), Y.t(w) > t, Y.t(w) - X.s(w) <= t),
            z3.Or(due, Y.t(w) == X.t(w)))),
    ]


def same_kind(X, Y, w):
    return z3.And(Y.q(w) == X.q(w), z3.Select(Y.S, w) == z3.Select(X.S, w), z3.Select(Y.SK, w) == z3.Select(X.SK, w))


def kept(X, t, w):
    return z3.Or(X.t(w) > t, X.skip(w))


def the_list(ctx, c):
    """The list of waiters being built."""
    out = []
    for n in list(ctx.loop.frame.f_locals):
        v = ctx.env(n)
        if isinstance(v, MList) and v is not c._waiters and not any(v is u for u in out):
            out.append(v)
    if len(out) != 1:
        raise Unsupported("the pending waiters are kept in another form")
    out[0]._pv_elem = c._waiters._pv_elem
    return out[0]


def sublist(X, n, el_lo, upto, keep, where):
    """The list (n from el_lo) has exactly the waiters before position `upto` for which keep holds, each once, in order."""
    lo, hi, el = el_lo
    e = z3.Select(el, p_)
    x = X.at(j_)
    pos = z3.Select(where, x)
    return z3.And(
        z3.ForAll([p_], z3.Implies(z3.And(lo <= p_, p_ < hi), z3.And(
            X.lo <= IDX(e), IDX(e) < upto, X.at(IDX(e)) == e, keep(e))), patterns=[e]),
        ordered(lo, hi, el),
        z3.ForAll([j_], z3.Implies(z3.And(X.lo <= j_, j_ < upto, keep(x)), z3.And(
            V.is_int_(pos), lo <= V.ival(pos), V.ival(pos) < hi, z3.Select(el, V.ival(pos)) == x)), patterns=[x]))


def ordered(lo, hi, el):
    q_ = z3.Int("q!ck")
    return z3.ForAll([p_, q_], z3.Implies(z3.And(lo <= p_, p_ < q_, q_ < hi),
                                          IDX(z3.Select(el, p_)) < IDX(z3.Select(el, q_))),
                     patterns=[z3.MultiPattern(z3.Select(el, p_), z3.Select(el, q_))])


@contract("clock.set_time", "C21", [CL + ":FakeClock.set_time", CL + ":FakeClock.step", CL + ":FakeClock._set_time_locked",
                                    CL + ":FakePassiveClock.now", CL + ":FakePassiveClock.since"])
def set_time(eng):
    """Each pending timer and ticker that is due fires; timers leave, tickers move on, the others stay as they are."""
    C = Clock(eng)
    c = C.c
    by_step = eng.choose(2) == 1
    d = eng.real("d")
    st = {"cur": None}

    def target():
        return C.pre.now + d.expr if by_step else d.expr

    def on_suspend(tag, prim):
        C.arbitrary()
    eng.on_suspend = on_suspend

    def waiters_inv(ctx):
        X, Y = C.pre, C.snap()
        t = target()
        L = the_list(ctx, c)
        i = X.lo + ctx.i
        x = X.at(j_)
        fs = treated(X, Y, t, x)
        inr = z3.And(X.lo <= j_, j_ < X.hi)
        out = [("C21| " + n, z3.ForAll([j_], z3.Implies(z3.And(inr, j_ < i), f), patterns=[x])) for n, f in fs]
        out.append(("the rest has not been treated yet", z3.ForAll([j_], z3.Implies(z3.And(inr, j_ >= i), z3.And(
            Y.put(x) == 0, Y.isfull(x) == X.isfull(x), z3.Select(Y.T, x) == z3.Select(X.T, x))), patterns=[x])))
        out.append(("kinds stay", z3.ForAll([j_], z3.Implies(inr, z3.And(
            same_kind(X, Y, x), V.is_real_(z3.Select(Y.T, x)), bit(z3.Select(Y.full, X.q(x))))), patterns=[x])))
        out.append(("C21| a timer leaves when it fires, everything else stays pending", sublist(
            X, None, (L.lo, L.hi, L.el), i, lambda w: kept(X, t, w), eng.heap[WHERE])))
        out.append(("C21| the time is the one set", term(c._time) == t))
        return out

    def ticks_inv(ctx):
        # the waiter at hand moves on step by step
        X, Y = C.pre, C.snap()
        w = st["cur"]
        if w is None:
            raise Unsupported("a loop outside the one over the waiters")
        t = target()
        k = z3.Const("k!tk", V)
        moved = []
        for n in list(ctx.loop.frame.f_locals):
            v, was = ctx.env(n), ctx.pre_env(n)
            if isinstance(v, SymReal) and isinstance(was, SymReal) and eng.valid(was.expr == X.t(w)):
                moved.append(z3.And(REACH(X.t(w), X.s(w), v.expr), z3.Or(v.expr == X.t(w), v.expr - X.s(w) <= t)))
        return [("C21| a ticker moves by its interval, too", z3.And(moved))] * bool(moved) + [("C21| a ticker moves by its interval", z3.And(V.is_real_(z3.Select(Y.T, w)), REACH(X.t(w), X.s(w), Y.t(w)),
                                                              z3.Or(Y.t(w) == X.t(w), Y.t(w) - X.s(w) <= t))),
                ("only the one at hand", z3.ForAll([k], z3.Implies(k != w, z3.Select(Y.T, k) == z3.Select(before["T"], k)),
                                                   patterns=[z3.Select(Y.T, k)]))]
    before = {}

    def on_loop(loop, when):
        if loop.kind == "while":
            if when == "entry":
                before["T"] = eng.heap[T]
            return
        if when == "back" and st["cur"] is not None:
            # where it went, if it was kept
            L = lists["L"]
            eng.log_write(WHERE, st["cur"])
            eng.heap.write(WHERE, st["cur"], V.int_(z3.simplify(L.hi - 1)))
    lists = {}

    def for_inv(ctx):
        lists["L"] = the_list(ctx, c)
        out = waiters_inv(ctx)
        st["cur"] = z3.simplify(C.pre.at(C.pre.lo + ctx.i))
        return out
    eng.on_loop = on_loop
    eng.loop_specs.append(LoopSpec(name="every waiter", kind="for", inv=for_inv))
    eng.loop_specs.append(LoopSpec(name="tick after tick", kind="while", inv=ticks_inv))
    out = run(c.step, d) if by_step else run(c.set_time, d)
    no_raise(out, "C21| setting the time raises nothing")
    X, Y = C.pre, C.snap()
    t = target()
    x = X.at(j_)
    inr = z3.And(X.lo <= j_, j_ < X.hi)
    for n, f in treated(X, Y, t, x):
        eng.check("C21| " + n, z3.ForAll([j_], z3.Implies(inr, f), patterns=[x]))
    eng.check("C21| a timer leaves when it fires, everything else stays pending", sublist(
        X, None, (Y.lo, Y.hi, Y.el), X.hi, lambda w: kept(X, t, w), eng.heap[WHERE]))
    eng.check("C21| now is the time last set", real(c.now()) == t)
    u = eng.real("u")
    eng.check("C21| since is the time passed since then", real(c.since(u)) == t - u.expr)
    eng.check("C21| the lock is released", z3.BoolVal(not eng.locks_held))
    eng.cover("set")


@contract("clock.new", "C21", [CL + ":FakeClock.new_timer", CL + ":FakeClock.new_ticker", CL + ":FakeClock.has_waiters",
                               CL + ":_FakeClockWaiter.__init__", CL + ":_FakeTimer.__init__", CL + ":_FakeTimer.c",
                               CL + ":_FakeTicker.__init__", CL + ":_FakeTicker.c", CL + ":FakePassiveClock.__init__"])
def new(eng):
    """A new timer or ticker is pending for now + d, with a queue of its own; the others stay as they are."""
    C = Clock(eng)
    c, m = C.c, C.m
    d = eng.real("d")
    ticker = eng.choose(2) == 1
    if ticker:
        eng.assume(d.expr > 0)
    made = []
    orig = m._FakeClockWaiter

    def make(*a, **kw):
        w = orig(*a, **kw)
        made.append(w)
        return w
    X = C.pre
    c._waiters._pv_elem = "val"
    with patched(m, _FakeClockWaiter=make):
        out = run(c.new_ticker if ticker else c.new_timer, d)
    no_raise(out, "C21| a timer or ticker can be made")
    if len(made) != 1:
        raise Unsupported("waiters are made in another way")
    w, r = made[0], out.value
    need(w, "_target_time", "_step_interval", "_skip_if_blocked", "_dest_queue")
    Y = C.snap()
    eng.check("C21| it is pending, and so is everything that was", z3.And(
        Y.hi - Y.lo == X.hi - X.lo + 1, z3.Select(Y.el, Y.hi - 1) == eng.enc(w), z3.ForAll([j_], z3.Implies(
            z3.And(0 <= j_, j_ < X.hi - X.lo), z3.Select(Y.el, Y.lo + j_) == X.at(X.lo + j_)))))
    eng.check("C21| it is due d after now", real(w._target_time) == X.now + d.expr)
    q = w._dest_queue
    if not isinstance(q, MQueue):
        raise Unsupported("the queue of a timer is not a queue")
    eng.check("C21| its queue is empty and has one place", z3.And(term(q.maxsize) == 1, ListV(q._items).len() == 0))
    eng.check("C21| that queue is the one it gives out", z3.BoolVal(r.c() is q))
    if ticker:
        eng.check("C21| a ticker ticks every d, without waiting", z3.And(real(w._step_interval) == d.expr, zb(w._skip_if_blocked)))
    else:
        eng.check("C21| a timer fires once", z3.And(real(w._step_interval) == 0, z3.Not(zb(w._skip_if_blocked))))
    eng.check("C21| the time stays", term(c._time) == X.now)
    eng.check("C21| has_waiters tells that something is pending", zb(run(c.has_waiters).value))
    eng.cover(f"new {ticker}")


def zb(x):
    return z3.BoolVal(bool(x)) if isinstance(x, bool) else zbool(x)


def a_timer(eng, C):
    """Any timer of the clock: pending or not."""
    m = C.m
    v = eng.fresh("timer", V)
    X = C.pre
    pending = eng.choose(2) == 1
    eng.assume(z3.And(V.is_ref(v), V.gen(v) < C.gen, V.is_opq(X.q(v)), OWNER(X.q(v)) == v, z3.Not(X.skip(v)),
                      z3.BoolVal(pending) == X.member(v)))
    w = C.cls._pv_make(v)
    eng.handles[v.get_id()] = w
    eng._keep.append(v)
    out = run(lambda: m._FakeTimer(fake_clock=C.c, waiter=w))
    if out.exc is not None:
        raise Unsupported("timers are made in another way")
    t = out.value
    instance(t, ("_fake_clock", "_waiter"))
    eng.check("C21| a timer's channel is its own queue", eng.enc(t.c()) == X.q(v))
    return t, v, pending


@contract("clock.timer.stop", "C21", [CL + ":_FakeTimer.stop"])
def stop(eng):
    """Stopping takes the timer off the pending ones and tells whether it was there; everything else stays."""
    C = Clock(eng)
    c = C.c
    X = C.pre
    t, v, pending = a_timer(eng, C)
    lists = {}

    def inv(ctx):
        L = lists["L"] = the_list(ctx, c)
        i = X.lo + ctx.i
        lists["cur"] = z3.simplify(X.at(i))
        seen = z3.And(X.lo <= IDX(v), IDX(v) < i, X.at(IDX(v)) == v)
        return [("C21| a stopped timer is not pending any more, everything else is", sublist(
            X, None, (L.lo, L.hi, L.el), i, lambda w: w != v, eng.heap[WHERE])),
            ("C21| stop tells whether the timer was pending", follow(ctx, seen)), ("nothing else", same(X, C.snap()))]

    def on_loop(loop, when):
        if when == "back":
            eng.log_write(WHERE, lists["cur"])
            eng.heap.write(WHERE, lists["cur"], V.int_(z3.simplify(lists["L"].hi - 1)))
    eng.on_loop = on_loop
    eng.loop_specs.append(LoopSpec(name="every waiter", kind="for", inv=inv))
    out = run(t.stop)
    no_raise(out, "C21| stop raises nothing")
    Y = C.snap()
    eng.check("C21| a stopped timer is not pending any more, everything else is", sublist(
        X, None, (Y.lo, Y.hi, Y.el), X.hi, lambda w: w != v, eng.heap[WHERE]))
    eng.check("C21| stop tells whether the timer was pending", zb(out.value) == z3.BoolVal(pending))
    eng.check("C21| stop changes no waiter", same(X, Y))
    eng.cover(f"stopped {pending}")


def same(X, Y):
    return z3.And(X.now == Y.now, z3.ForAll([w_], z3.And(z3.Select(X.T, w_) == z3.Select(Y.T, w_), same_kind(X, Y, w_)),
                                            patterns=[z3.Select(Y.T, w_)]),
                  X.puts == Y.puts, X.full == Y.full)


@contract("clock.timer.reset", "C21", [CL + ":_FakeTimer.reset"])
def reset(eng):
    """Resetting a pending timer moves its target; nothing else changes; a timer that is not pending stays so."""
    C = Clock(eng)
    c = C.c
    X = C.pre
    t, v, pending = a_timer(eng, C)
    d = eng.real("d")

    def only(Y, target):
        return z3.And(Y.now == X.now, Y.puts == X.puts, Y.full == X.full, Y.S == X.S, Y.SK == X.SK, Y.Q == X.Q,
                      z3.Select(Y.T, v) == target, Y.el == X.el, Y.lo == X.lo, Y.hi == X.hi,
                      z3.ForAll([w_], z3.Implies(w_ != v, z3.Select(Y.T, w_) == z3.Select(X.T, w_)), patterns=[z3.Select(Y.T, w_)]))

    def inv(ctx):
        i = X.lo + ctx.i
        seen = z3.And(X.lo <= IDX(v), IDX(v) < i, X.at(IDX(v)) == v)
        return [("C21| only the timer that is reset changes", z3.And(z3.Not(seen), only(C.snap(), z3.Select(X.T, v))))]
    eng.loop_specs.append(LoopSpec(name="every waiter", kind="for", inv=inv))
    out = run(t.reset, d)
    no_raise(out, "C21| reset raises nothing")
    Y = C.snap()
    eng.check("C21| reset tells whether the timer was pending", zb(out.value) == z3.BoolVal(pending))
    eng.check("C21| reset moves the target of a pending timer, of no other", only(Y, V.real_(X.now + d.expr) if pending
                                                                                 else z3.Select(X.T, v)))
    eng.cover(f"reset {pending}")


# ---------------------------------------------------------------- the real clock
@contract("clock.real", "C21", [CL + ":RealClock.now", CL + ":RealClock.since", CL + ":RealClock.new_timer",
                                CL + ":RealClock.new_ticker", CL + ":_RealTimer.c", CL + ":_RealTimer.stop",
                                CL + ":_RealTicker.c", CL + ":_RealTicker.stop", TM + ":Timer.__init__", TM + ":Timer.stop",
                                TM + ":Ticker.__init__", TM + ":Ticker.stop"])
def real_clock(eng):
    """A real timer sleeps its duration and puts one value, a real ticker does so again and again; none once stopped."""
    m = mod(CL)
    need(m, "RealClock")
    c = m.RealClock()
    tasks = []
    eng.hooks["spawn"] = lambda t: tasks.append(t)
    d = eng.real("d")
    ticker = eng.choose(2) == 1
    out = run(c.new_ticker if ticker else c.new_timer, d)
    no_raise(out, "C21| a timer or ticker can be made")
    r = out.value
    if len(tasks) != 1 or not inspect.iscoroutine(tasks[0].prim):
        raise Unsupported("a timer runs in another way")
    q = r.c()
    if not isinstance(q, MQueue):
        raise Unsupported("the channel of a timer is not a queue")
    eng.check("C21| its queue is empty and has one place", z3.And(term(q.maxsize) == 1, ListV(q._items).len() == 0))
    if eng.choose(2) == 1:
        run(r.stop)
        eng.check("C21| a stopped timer or ticker is ended", z3.BoolVal(tasks[0].cancel_requested))
        eng.check("C21| stopping puts nothing", ListV(q._items).len() == 0)
        eng.cover("stopped")
        tasks[0].prim.close()
        return
    slept, puts = [], []

    def sleeps(x):
        eng.check("C21| nothing is put before the duration has passed", z3.BoolVal(not puts or ticker))
        slept.append(real(x))

    def put(qq, item):
        if qq is q:
            eng.check("C21| a value comes after its duration, once", z3.BoolVal(len(slept) == 1 and not puts))
            puts.append(item)
    eng.hooks["slept"] = sleeps
    eng.hooks["queue.put"] = put

    def consume(tag, prim):
        # whoever reads the channel may have emptied it; nobody else puts
        if ticker or puts:
            eng.havoc_container(q._items)
            n = ListV(q._items).len()
            eng.assume(z3.And(0 <= n, n <= 1))
    eng.on_suspend = consume

    def judge():
        eng.check("C21| the duration waited is the one asked for", z3.BoolVal(False) if len(slept) != 1 else slept[0] == d.expr)

    def on_loop(loop, when):
        if when == "head":
            slept.clear()
            puts.clear()
        elif when == "back":
            judge()
            eng.check("C21| a tick is given unless the last one is still there", z3.And(
                ListV(q._items).len() == 1))
            slept.clear()
            puts.clear()
    eng.on_loop = on_loop
    eng.loop_specs.append(LoopSpec(name="tick after tick", kind="while", inv=lambda ctx: [
        ("one place", z3.And(ListV(q._items).len() >= 0, ListV(q._items).len() <= 1))]))
    out = run(tasks[0].prim)
    no_raise(out, "C21| a timer's task raises nothing")
    eng.check("C21| a ticker goes on", z3.BoolVal(not ticker))
    judge()
    eng.check("C21| a timer gives one value", z3.BoolVal(len(puts) == 1))
    eng.cover("fired")


@contract("clock.real.now", "C21", [CL + ":RealClock.now", CL + ":RealClock.since"])
def real_now(eng):
    m = mod(CL)
    need(m, "RealClock")
    c = m.RealClock()
    times = []

    def clock():
        t = eng.real("now")
        times.append(t.expr)
        return t
    eng.hooks["now"] = clock
    out = run(c.now)
    no_raise(out, "C21| now raises nothing")
    eng.check("C21| now is the time", z3.And(z3.BoolVal(len(times) == 1), real(out.value) == (times[-1] if times else 0)))
    u = eng.real("u")
    out = run(c.since, u)
    no_raise(out, "C21| since raises nothing")
    eng.check("C21| since is the time passed", z3.And(z3.BoolVal(len(times) == 2), real(out.value) == times[-1] - u.expr))
    eng.cover("now")


@contract("clock.passive.set_time", "C21", [CL + ":FakePassiveClock.set_time", CL + ":FakePassiveClock.now",
                                            CL + ":FakePassiveClock.since", CL + ":FakePassiveClock.__init__"])
def passive(eng):
    m = mod(CL)
    need(m, "FakePassiveClock")
    t0, t, ts = eng.real("t0"), eng.real("t"), eng.real("ts")
    c = m.FakePassiveClock(t0)
    want = t0
    if eng.choose(2) == 1:
        out = run(c.set_time, t)
        no_raise(out, "C21| setting a passive clock raises nothing")
        want = t
    out = run(c.now)
    no_raise(out, "C21| reading a passive clock raises nothing")
    eng.check("C21| a passive clock shows the time it was set to", term(out.value) == want.expr)
    out = run(c.since, ts)
    no_raise(out, "C21| reading a passive clock raises nothing")
    eng.check("C21| since is the time passed", term(out.value) == want.expr - ts.expr)
