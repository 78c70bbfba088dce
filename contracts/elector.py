"""Contracts of leaderelection/leaderelection.py (C23, C24)."""
import inspect

import z3

from contracts.informer import GhostSeq
from pydv.aio import FnPrim, run_coro
from pydv.containers import MDict
from pydv.core import E, NONE, SymInt, SymReal, SymVal, Unsupported, V, zbool
from pydv.spec import LoopSpec, Stub, contract, failure, instance, mod, need, no_raise, patched, run, setf, term

LE = "leaderelection.leaderelection"
R, I = z3.RealSort(), z3.IntSort()
# a raw record and what it says (written by electors, or nothing)
KIND = z3.Function("record_kind", V, I)          # 0: no record, 1: given up, 2: held
HOLDER, TRANS = z3.Function("record_holder", V, V), z3.Function("record_transitions", V, I)
ACQ, REN, DUR = (z3.Function("record_" + n, V, R) for n in ("acquired", "renewed", "duration"))
GHOST = "a:ghost_elector"
FIELDS = {"_config", "_clock", "_observed_record", "_observed_raw_record", "_observed_time", "_reported_leader"}


def real(x):
    if isinstance(x, SymVal):
        return V.rval(x.expr)
    e = term(x)
    return z3.ToReal(e) if e.sort() == I else e


class Ghost:
    """Values of the contract in the heap (forgotten at loop heads like everything else that changes)."""

    def __init__(self, eng):
        object.__setattr__(self, "eng", eng)
        object.__setattr__(self, "ids", {})

    def ref(self, k):
        return V.opq(z3.IntVal(910000 + self.ids.setdefault(k, len(self.ids))))

    def __getattr__(self, k):
        return z3.simplify(self.eng.heap.read(GHOST, self.ref(k)))

    def __setattr__(self, k, v):
        self.eng.log_write(GHOST, self.ref(k))
        self.eng.heap.write(GHOST, self.ref(k), v if z3.is_expr(v) and v.sort() == V else self.eng.enc(v))


def record(eng, raw, kinds=(0, 1, 2)):
    """The record a raw text stands for, one path per kind."""
    for k in kinds:
        if k == kinds[-1]:
            eng.assume(KIND(raw) == k)
        elif not eng.fork(KIND(raw) == k):
            continue
        d = MDict()
        eng.assume(z3.And(TRANS(raw) >= 0, DUR(raw) >= 0))
        if k >= 1:
            if k == 1 and eng.choose(2) == 1:
                d["holderIdentity"] = ""
            d["leaderTransitions"] = SymInt(TRANS(raw))
        if k == 2:
            h = SymVal(HOLDER(raw))
            eng.assume(z3.And(HOLDER(raw) != NONE, HOLDER(raw) != eng.enc(""), zb(eng, h)))
            d["holderIdentity"] = h
            d["acquireTime"], d["renewTime"] = SymReal(ACQ(raw)), SymReal(REN(raw))
            d["leaseDurationSeconds"] = SymReal(DUR(raw))
        return d
    raise AssertionError


def zb(eng, v):
    from pydv.core import TRUTHY
    return TRUTHY(v.expr)


def who(eng, me, d):
    """The holder a record (a dictionary) names, as a term; NONE if it names nobody."""
    e = eng.enc("holderIdentity")
    if not eng.valid(z3.Select(d.has, e)):
        if eng.valid(z3.Not(z3.Select(d.has, e))):
            return NONE
        raise Unsupported("a record that may or may not name a holder")
    h = z3.simplify(z3.Select(d.vals, e))
    return z3.If(h == eng.enc(""), NONE, h)


def says(eng, d, key):
    e = eng.enc(key)
    if eng.valid(z3.Select(d.has, e)):
        return d[key]
    if eng.valid(z3.Not(z3.Select(d.has, e))):
        return None
    raise Unsupported(f"a record that may or may not have {key}")


def as_record(d):
    if not isinstance(d, MDict):
        raise Unsupported(f"a record is a {type(d).__name__}")
    return d


def refuse(eng, what):
    """The call fails, perhaps: with an answer of the API server, of any status, or in another way."""
    k = eng.choose(3)
    if k == 1:
        from pydv import kube
        raise kube.module("kubernetes_asyncio.client.exceptions").ApiException(status=eng.int("status"))
    if k == 2:
        raise OSError(what)


class Lock(Stub):
    """The lock: every operation may fail, at any moment the record may be anybody's."""

    def __init__(self, eng, me, lease):
        self.eng, self.me, self.lease = eng, me, lease
        self.g = Ghost(eng)
        self.read = None             # the raw record of the last successful get of this attempt
        self.absent = False          # or there was none
        self.ops = []                # writes of this attempt: (what, record, succeeded)
        self.start = None

    def identity(self):
        return self.me

    def describe(self):
        return "lock"

    def fails(self, what):
        self.eng.suspend("lock." + what)
        refuse(self.eng, what)

    async def get(self):
        eng, g = self.eng, self.g
        self.fails("get")
        if eng.choose(2) == 1:
            self.absent, self.rec = True, None
            return None, None
        raw = eng.val("raw")
        eng.assume(raw.expr != NONE)
        self.rec = record(eng, raw.expr)
        self.read = raw.expr
        t = eng_now(eng)
        if eng.fork(raw.expr != g.seen_raw):
            g.seen_raw, g.seen_at = raw.expr, V.real_(t.expr)
        self.copy = MDict(self.rec)
        return self.rec, raw

    async def create(self, rec):
        self.judge("create", as_record(rec))
        self.fails("create")
        self.ops[-1][2] = True

    async def update(self, rec):
        self.judge("update", as_record(rec))
        self.fails("update")
        self.ops[-1][2] = True

    def judge(self, what, rec):
        eng, g = self.eng, self.g
        eng.check("C23| an attempt writes once", z3.BoolVal(not self.ops))
        self.ops.append([what, MDict(rec), False])
        now = eng_now(eng).expr
        eng.check("C23| what is written names this elector as the holder", who(eng, self.me, rec) == self.me.expr)
        n, acq, ren = (says(eng, rec, k) for k in ("leaderTransitions", "acquireTime", "renewTime"))
        if n is None or acq is None or ren is None:
            eng.check("C23| a record written has its transitions and times", z3.BoolVal(False))
            return
        n, acq, ren = real(n), real(acq), real(ren)
        if self.start is not None:
            eng.check("C23| the renew time is the time of the attempt", z3.And(ren >= self.start, ren <= now))
        if what == "create":
            eng.check("C23| a lock is created only when there is none", z3.BoolVal(self.absent))
            eng.check("C23| a new record has no transitions and is acquired now", z3.And(n == 0, acq == ren))
            return
        if self.read is None:
            eng.check("C23| a lock is updated only after it was read", z3.BoolVal(False))
            return
        raw = self.read
        held = KIND(raw) == 2
        mine = z3.And(held, HOLDER(raw) == self.me.expr)
        eng.check("C23| the lock of another holder is taken only a lease duration after its record was seen to change", z3.Implies(
            z3.And(held, z3.Not(mine)), z3.And(g.seen_raw == raw, now >= V.rval(g.seen_at) + self.lease)))
        before = z3.If(KIND(raw) == 0, z3.IntVal(0), TRANS(raw))
        eng.check("C23| the transitions grow by one exactly when the holder changes", n == z3.ToReal(z3.If(mine, before, before + 1)))
        eng.check("C23| the acquire time is kept exactly as long as the holder stays", acq == z3.If(mine, ACQ(raw), ren))
        eng.cover("renew" if eng.valid(mine) else "take over")


def eng_now(eng):
    from pydv.aio import _now
    return _now()


def make(eng, lock=None, **conf):
    m = mod(LE)
    need(m, "LeaderElector", "LeaderElectionConfig", "LeaderCallbacks")
    me = eng.val("identity")
    eng.assume(z3.And(me.expr != NONE, me.expr != eng.enc(""), zb(eng, me)))
    lease, deadline, retry = eng.real("lease"), eng.real("deadline"), eng.real("retry")
    eng.assume(z3.And(retry.expr > 0, deadline.expr > retry.expr * z3.RealVal("1.2"), lease.expr > deadline.expr))
    L = lock(eng, me, lease.expr)

    async def nothing(*a):
        raise Unsupported("callback")
    cb = conf.pop("callbacks", lambda L: (nothing, nothing, nothing))
    cb = m.LeaderCallbacks(*cb(L))
    c = m.LeaderElectionConfig(lock=L, callbacks=cb, name="x", lease_duration=lease, renew_deadline=deadline,
                               retry_period=retry, **conf)
    out = run(m.LeaderElector, c)
    no_raise(out, "C23,C24| an elector with a sensible configuration can be made")
    e = instance(out.value, FIELDS)
    return m, e, L, me, (lease.expr, deadline.expr, retry.expr)


def link(eng, e, L, me):
    """Consistency of what an elector has observed, with what it was told."""
    g = L.g
    rec = as_record(e._observed_record)
    raw = eng.enc(e._observed_raw_record)
    h = who(eng, me, rec)
    t = real(e._observed_time)
    return rec, h, z3.If(raw == NONE, z3.Or(h == NONE, h == me.expr), z3.And(
        raw == g.seen_raw, t >= V.rval(g.seen_at), h == z3.If(KIND(raw) == 2, HOLDER(raw), NONE)))


def any_state(eng, e, L, me):
    """What the elector may have observed before this attempt."""
    g = L.g
    g.seen_raw, g.seen_at = eng.val("seen").expr, V.real_(eng.real("seen_at").expr)
    k = eng.choose(3)
    setf(e, "_observed_time", eng.real("observed_at"))
    if k == 0:
        setf(e, "_observed_raw_record", None)
        setf(e, "_observed_record", MDict())
    elif k == 1:
        raw = eng.val("own")
        setf(e, "_observed_raw_record", None)
        d = record(eng, raw.expr, (1, 2))
        eng.assume(z3.Implies(KIND(raw.expr) == 2, HOLDER(raw.expr) == me.expr))
        setf(e, "_observed_record", d)
    else:
        raw = eng.val("observed")
        eng.assume(raw.expr != NONE)
        setf(e, "_observed_raw_record", raw)
        setf(e, "_observed_record", record(eng, raw.expr))
    eng.assume(link(eng, e, L, me)[2])


@contract("elector.attempt", "C23 C24", [LE + ":LeaderElector._try_acquire_or_renew", LE + ":LeaderElector.is_leader",
                                     LE + ":LeaderElector.__init__"])
def attempt(eng):
    """One attempt, from any state: it may write what it has a right to, and says whether it wrote."""
    m, e, L, me, (lease, deadline, retry) = make(eng, Lock)
    need(e, "_try_acquire_or_renew", "is_leader")
    any_state(eng, e, L, me)
    L.start = eng_now(eng).expr
    eng.assume(V.rval(L.g.seen_at) <= L.start)            # the elector's clock does not go back
    eng.cancel_enabled = True
    before = who(eng, me, e._observed_record)
    out = run(e._try_acquire_or_renew)
    eng.cancel_enabled = False
    no_raise(out, "C23,C24| an attempt raises nothing")
    rec, h, ok = link(eng, e, L, me)
    eng.check("C23| what was observed stays consistent with what was read", ok)
    wrote = bool(L.ops) and L.ops[-1][2]
    if not out.cancelled():
        yes = out.value
        if not isinstance(yes, bool):
            raise Unsupported("the result of an attempt")
        eng.check("C23,C24| an attempt succeeds only if it has written the lock", z3.BoolVal(not yes or wrote))
        eng.check("C23,C24| an attempt that has written the lock succeeds", z3.BoolVal(yes or not wrote))
        eng.cover(f"result {yes}")
    # who is seen as the leader
    if wrote:
        want = me.expr
    elif L.read is None:
        want = before
    else:
        want = z3.If(KIND(L.read) == 2, HOLDER(L.read), NONE)
    if not out.cancelled():
        eng.check("C23| the holder observed is that of the record last read or written", h == want)
        o = run(e.is_leader)
        no_raise(o, "C23| is_leader raises nothing")
        eng.check("C23| is_leader tells whether that holder is this elector", zbool(o.value) == (h == me.expr))
    if out.cancelled():
        eng.cover("cancelled")


class Release(Lock):
    def judge(self, what, rec):
        eng = self.eng
        eng.check("C24| only a leader gives the lease up", self.led)
        eng.check("C24| the lease is given up once, by an update", z3.BoolVal(what == "update" and not self.ops))
        eng.check("C24| giving up names no holder", who(eng, self.me, rec) == NONE)
        n = says(eng, rec, "leaderTransitions")
        eng.check("C23| giving up keeps the transitions", z3.BoolVal(False) if n is None else real(n) == z3.ToReal(self.had))
        self.ops.append([what, MDict(rec), False])


@contract("elector.release", "C23 C24", [LE + ":LeaderElector._release"])
def release(eng):
    """Giving the lease up: only what is held, within the renew deadline."""
    m, e, L, me, (lease, deadline, retry) = make(eng, Release)
    need(e, "_release", "is_leader")
    any_state(eng, e, L, me)
    L.led = who(eng, me, e._observed_record) == me.expr
    n = says(eng, e._observed_record, "leaderTransitions")
    L.had = term(n) if n is not None else z3.IntVal(0)
    limits = []
    eng.hooks["wait_for"] = lambda aw, t: limits.append(t)
    eng.cancel_enabled = True
    out = run(e._release)
    eng.cancel_enabled = False
    no_raise(out, "C24| giving up raises nothing")
    rec, h, ok = link(eng, e, L, me)
    eng.check("C23| what was observed stays consistent with what was read, or is given up", z3.Or(ok, h == NONE))
    if out.cancelled():
        eng.cover("cancelled")
        return
    wrote = bool(L.ops)
    if L.ops and L.ops[0][2]:
        eng.check("C24| who gave the lease up does not lead", h != me.expr)
        eng.cover("given up")
    for t in limits:
        eng.check("C24| giving up takes no longer than the renew deadline", real(t) <= deadline)
    eng.check("C24| giving up is limited in time", z3.BoolVal(bool(limits) or not wrote))
    eng.check("C24| a leader that gives up tries to write it", z3.Implies(L.led, z3.BoolVal(wrote or bool(limits))))


# ---------------------------------------------------------------- the whole life
class Seen(Stub):
    """The record the elector has observed: whatever holder the attempts leave in it."""

    def __init__(self, run):
        self.run = run

    def get(self, k, default=None):
        if k != "holderIdentity":
            raise Unsupported(f"reads {k} of the observed record")
        return SymVal(self.run.g.holder)

    def __getitem__(self, k):
        if k == "leaderTransitions":
            return SymInt(V.ival(self.run.g.transitions))
        return self.get(k)


class Life(Stub):
    """What an elector's run does, seen from its lock and its callbacks."""

    def __init__(self, eng, me, lease):
        self.eng, self.me = eng, me
        self.g = Ghost(eng)
        self.g.holder, self.g.reported, self.g.transitions = (eng.val("holder").expr, eng.val("reported").expr,
                                                              V.int_(eng.int("transitions").expr))
        self.acquired = False        # an attempt has succeeded
        self.work = None             # the task of on_started_leading
        self.stopped = 0
        self.window = False          # within a time limit for renewing, without a success so far
        self.over = False            # that time is over
        self.wrote = 0
        self.running = None          # a task that is run now
        self.failed = False

    def state(self):
        return (self.acquired, self.work is None, self.stopped, self.window, self.over, self.wrote)

    def ended(self):
        return self.over or self.stopped or self.work is not None and self.work.cancel_requested

    # lock
    def identity(self):
        return self.me

    def describe(self):
        return "lock"

    async def get(self):
        raise Unsupported("the lock is read outside of an attempt")

    async def create(self, rec):
        raise Unsupported("the lock is created outside of an attempt")

    async def update(self, rec):
        eng = self.eng
        eng.check("C24| a write that is not an attempt gives the lease up", who(eng, self.me, as_record(rec)) == NONE)
        eng.check("C24| the lease is given up only if wanted, by a leader", z3.And(
            z3.BoolVal(self.release), self.g.holder == self.me.expr))
        eng.check("C24| the lease is given up only at the end, once", z3.BoolVal(not self.wrote and not self.stopped))
        eng.check("C24| the leader's work is cancelled before the lease is given up", z3.BoolVal(
            self.work is None or self.work.cancel_requested))
        self.wrote += 1
        eng.suspend("lock.update")
        refuse(eng, "update")

    # attempts, as proved above
    async def attempt(self):
        eng, g = self.eng, self.g
        eng.check("C24| nothing is attempted after leading has ended", z3.BoolVal(not self.ended()))
        if self.acquired:
            eng.check("C24| leading starts when the lease is acquired", z3.BoolVal(self.work is not None))
            eng.check("C24| each time to renew is limited and ends with the first success", z3.BoolVal(self.window))
        eng.suspend("attempt")
        g.holder = eng.val("holder").expr
        g.transitions = V.int_(eng.int("transitions").expr)
        if eng.choose(2) == 1:
            eng.assume(g.holder == self.me.expr)
            self.acquired, self.window = True, False
            return True
        return False

    def limit(self, aw, t):
        self.eng.check("C24| renewing and giving up are limited by the renew deadline", real(t) <= self.deadline)
        if self.work is None or self.ended():
            return
        self.eng.check("C24| time to renew is given again only after a success", z3.BoolVal(not self.window))
        self.window = True

    def expired(self, aw, t):
        if self.work is not None and not self.ended():
            self.eng.check("C24| an attempt that succeeded in time is a success", z3.BoolVal(self.window))
            self.over = True

    def waits(self):
        """It waits for the next attempt."""
        if not self.window and self.tells:
            self.eng.check("C24| a change of the holder is reported", self.g.reported == self.g.holder)

    def slept(self, d):
        self.waits()
        if self.work is not None and not self.ended():
            self.eng.check("C24| a leader renews", real(d) <= self.deadline)

    # callbacks
    async def started(self):
        raise Unsupported("runs in the background")

    async def stop(self):
        eng = self.eng
        eng.check("C24| the end of leading is reported once", z3.BoolVal(self.stopped == 0))
        eng.check("C24| leading has ended when that is reported", z3.BoolVal(self.work is None or self.work.cancel_requested))
        if not eng.cancelled:
            eng.check("C24| an elector does not stop by itself without having led", z3.BoolVal(self.acquired))
            eng.check("C24| a change of the holder is reported", self.g.reported == self.g.holder if self.tells else z3.BoolVal(True))
            eng.check("C24| a leader stops only when its renewals failed", z3.BoolVal(self.over))
        self.stopped += 1
        eng.suspend("on_stopped_leading")
        if eng.choose(2) == 1:
            self.failed = True
            raise failure(eng, "on_stopped_leading")

    async def leader(self, who):
        raise Unsupported("runs in the background")

    def spawn(self, t):
        eng, g = self.eng, self.g
        if t.name.endswith("Life.started"):
            eng.check("C24| leading starts once, after the lease was acquired", z3.BoolVal(self.acquired and self.work is None))
            eng.check("C24| leading does not start after its end", z3.BoolVal(not self.stopped))
            self.work = t
        elif t.name.endswith("Life.leader"):
            w = eng.enc(t.args["who"])
            eng.check("C24| the new leader reported is the holder observed", w == g.holder)
            eng.check("C24| a leader is reported once", w != g.reported)
            g.reported = w

    def task(self, t):
        """Background work that somebody waits for."""
        import asyncio
        if not inspect.iscoroutine(t.prim):
            return NotImplemented
        if t is self.work or t.name.endswith("Life.leader"):
            if self.eng.choose(2) == 1:
                t.exc = failure(self.eng, "callback")
            return None
        outer, self.running = self.running, t
        was, self.eng.cancel_enabled = self.eng.cancel_enabled, False
        try:
            return run_coro(t.prim)
        except asyncio.CancelledError:
            t.state = "cancelled"
        except Exception as e:
            t.exc = e
        finally:
            self.running = outer
            self.eng.cancel_enabled = was

    def cut(self, prim):
        """run is cancelled while it waits for a task: that one is cancelled at some moment of its own."""
        import asyncio
        eng = self.eng
        ts = [t for t in (prim.tasks if hasattr(prim, "tasks") else [prim]) if t.state == "pending" and t is not self.work and
              inspect.iscoroutine(t.prim)]
        if not ts or eng.choose(2) == 0:
            return
        for t in ts:
            outer, eng.force_cancel = eng.force_cancel, True
            try:
                t.value = self.task(t)
            finally:
                eng.force_cancel = outer
            if t.state == "pending":
                t.state = "done"
        eng.cancelled = True
        raise asyncio.CancelledError

    def on_suspend(self, tag, prim):
        import asyncio
        if self.over and self.work is not None:
            self.eng.check("C24| the leader's work is cancelled when the renew deadline has passed", z3.BoolVal(
                self.work.cancel_requested))
        if self.running is not None and self.running.cancel_requested:
            raise asyncio.CancelledError
        if self.eng.cancel_enabled and tag in ("gather", "task"):
            self.cut(prim)

    def timer(self):
        life = self

        class Chan(Stub):
            def get(self):
                life.waits()
                return FnPrim("timer.get", None, None, self, always=True)

        class Timer(Stub):
            def __init__(self, d):
                self.c = Chan()

            def stop(self):
                pass
        return Timer


@contract("elector.run", "C24", [LE + ":LeaderElector.run", LE + ":LeaderElector._acquire", LE + ":LeaderElector._renew",
                                 LE + ":LeaderElector._release", LE + ":LeaderElector._maybe_report_transition",
                                 "util.wait:jitter_loop", "util.wait:poll_immediate_infinite"])
def life(eng):
    """run, from its start to any of its ends."""
    release, L_tells = eng.choose(2) == 1, eng.choose(2) == 1
    m, e, L, me, (lease, deadline, retry) = make(eng, Life, callbacks=lambda L: (L.started, L.stop, L.leader if L_tells else None),
                                                 release_on_cancel=release)
    L.deadline, L.release, L.tells = deadline, release, L_tells
    need(e, "_try_acquire_or_renew", "is_leader", "run")
    need(m, "wait")
    setf(e, "_observed_record", Seen(L))              # in any state, also that of an earlier run
    setf(e, "_reported_leader", SymVal(L.g.reported))
    object.__setattr__(e, "_try_acquire_or_renew", L.attempt)
    eng.hooks.update(wait_for=L.limit, spawn=L.spawn, task=L.task, slept=L.slept)
    eng.hooks["wait_for.timeout"] = L.expired
    eng.on_suspend = L.on_suspend
    entered = {}

    def on_loop(loop, when):
        if when == "entry":
            entered[id(loop)] = L.state()
    eng.on_loop = on_loop
    eng.loop_specs.append(LoopSpec(name="again and again", kind="while", inv=lambda ctx: [
        ("the phase stays", z3.BoolVal(L.state() == entered.get(id(ctx.loop)))),
        ("what was reported is kept", eng.enc(e._reported_leader) == L.g.reported if L.tells else z3.BoolVal(True)),
        ("the holder was reported", z3.BoolVal(True) if L.window or not L.tells or not entered.get(id(ctx.loop), (False,))[0]
         else L.g.reported == L.g.holder)]))
    eng.cancel_enabled = True
    with patched(m.wait._time, Timer=L.timer()):
        out = run(e.run)
    eng.cancel_enabled = False
    eng.check("C24| the end is reported once", z3.BoolVal(L.stopped == 1))
    eng.check("C24| the leader's work is cancelled at the end", z3.BoolVal(L.work is None or L.work.cancel_requested))
    if release and L.acquired:
        eng.check("C24| a leader that stops gives the lease up", z3.Implies(L.g.holder == me.expr, z3.BoolVal(L.wrote == 1)))
        eng.cover("gave up" if L.wrote else "had lost it")
    if not eng.cancelled and not L.failed:
        no_raise(out, "C24| run raises nothing")
        eng.cover("ended")
    if eng.cancelled:
        eng.cover(f"cancelled {L.acquired} {L.work is None}")


# ---------------------------------------------------------------- the lock in a config map
RL = "leaderelection.resourcelock"
KEY = "control-plane.alpha.kubernetes.io/leader"


class Client(Stub):
    """The API server: any answer and any failure; the config map it gives is a new object each time."""

    def __init__(self, eng, kube):
        self.eng, self.kube = eng, kube
        self.calls = []
        self.given = None            # what the last successful call returned
        self.refused = None

    def a_map(self, what):
        eng, md = self.eng, self.kube["models"]
        k = eng.choose(3) if what == "read" else 2          # what was written has its annotation
        ann = None
        if k:
            ann = MDict()
            ann["other"] = eng.val("annotation")
            if k == 2:
                self.raw = eng.val("raw")
                eng.assume(z3.And(self.raw.expr != NONE, z3.Or(zb(eng, self.raw), self.raw.expr == eng.enc(""))))    # a text
                ann[KEY] = self.raw
        cm = md.V1ConfigMap(metadata=md.V1ObjectMeta(name=self.name, namespace=self.namespace, annotations=ann,
                                                     resource_version=eng.val("version")), data=eng.val("data"))
        self.kind = k
        self.given = (cm, cm.metadata.resource_version, cm.data)
        return cm

    def answer(self, what, *args):
        eng = self.eng
        self.calls.append((what, args))
        eng.suspend(what)
        if eng.choose(2) == 1:
            st = eng.int("status")
            self.refused = self.kube["exceptions"].ApiException(status=st)
            self.status = st.expr
            raise self.refused
        return self.a_map(what)

    async def read_namespaced_config_map(self, name, namespace):
        return self.answer("read", name, namespace)

    async def create_namespaced_config_map(self, namespace, body):
        return self.answer("create", namespace, body)

    async def replace_namespaced_config_map(self, name, namespace, body):
        return self.answer("replace", name, namespace, body)


@contract("elector.config_map_lock", "C23", [RL + ":ConfigMapLock.get", RL + ":ConfigMapLock.create", RL + ":ConfigMapLock.update",
                                             RL + ":ConfigMapLock.identity", RL + ":ConfigMapLock.describe"])
def config_map_lock(eng):
    """Reading, creating and updating the record of a lock, from the state any earlier call left."""
    from pydv import kube
    m = mod(RL)
    need(m, "ConfigMapLock", "ResourceLockConfig")
    models, exc = kube.module("kubernetes_asyncio.client.models"), kube.module("kubernetes_asyncio.client.exceptions")
    name, ns, me = eng.val("name"), eng.val("namespace"), eng.val("identity")
    C = Client(eng, dict(models=models, exceptions=exc))
    C.name, C.namespace = name, ns
    said, texts = [], []

    def loads(s):
        said.append(eng.enc(s))
        d = MDict()
        d["said"] = SymVal(SAYS(eng.enc(s)))
        return d

    def dumps(rec):
        t = eng.val("text")
        eng.assume(t.expr != NONE)
        texts.append((rec, t))
        return t
    eng.hooks["json.loads"], eng.hooks["json.dumps"] = loads, dumps
    out = run(lambda: m.ConfigMapLock(config_map_meta=models.V1ObjectMeta(name=name, namespace=ns), client=C,
                                      lock_config=m.ResourceLockConfig(me)))
    no_raise(out, "C23| a lock can be made")
    lk = instance(out.value, {"config_map_meta", "client", "lock_config", "_cm"})
    eng.check("C23| the lock's identity is the one given", eng.enc(lk.identity()) == me.expr)
    # an earlier call
    known = None
    first = eng.choose(4)
    rec0 = eng.val("record0")
    if first:
        out = run((lk.get, lambda: lk.create(rec0), lambda: lk.update(rec0))[first - 1])
        known = C.given
    C.calls.clear()
    C.given = C.refused = None
    texts.clear()
    said.clear()
    op = eng.choose(3)
    rec = eng.val("record")
    cm = known and known[0]
    ann = None
    if cm is not None and cm.metadata.annotations is not None:
        ann = dict_copy(cm.metadata.annotations)
    out = run((lk.get, lambda: lk.create(rec), lambda: lk.update(rec))[op])
    if op == 2 and not C.calls and known is None:
        eng.check("C23| updating a lock that was never read or written fails", z3.BoolVal(out.exc is not None))
        eng.cover("nothing to update")
        return
    eng.check("C23| each operation is one call", z3.BoolVal(len(C.calls) == 1))
    what, args = C.calls[0]
    eng.check("C23| the call is the one asked for", z3.BoolVal(what == ("read", "create", "replace")[op]))
    if op == 0:
        eng.check("C23| the config map of the lock is read", z3.And(eng.enc(args[0]) == name.expr, eng.enc(args[1]) == ns.expr))
        if C.refused is not None:
            gone = C.status == 404
            eng.check("C23| a failed read is reported, but not that there is none", z3.If(
                gone, z3.BoolVal(out.exc is None), z3.BoolVal(out.exc is C.refused)))
            if out.exc is None:
                eng.check("C23| no config map is no record", z3.BoolVal(tuple(out.value) == (None, None)))
                eng.cover("no config map")
            return
        no_raise(out, "C23| reading raises nothing")
        r, raw = out.value
        if C.kind == 2:
            eng.check("C23| the raw record is the annotation", eng.enc(raw) == C.raw.expr)
            if said:
                eng.check("C23| the record is what the annotation says", z3.And(
                    said[-1] == C.raw.expr, eng.enc(as_record(r)["said"]) == SAYS(C.raw.expr)))
                eng.cover("read")
            else:
                eng.check("C23| only an empty annotation is no record", z3.Not(zb(eng, C.raw)))
                eng.check("C23| an empty record", as_record(r).zlen() == 0)
        else:
            eng.check("C23| without an annotation the record is empty", as_record(r).zlen() == 0)
            eng.check("C23| and its raw form says so", z3.BoolVal(raw == ""))
            eng.cover("no annotation")
        return
    body = args[-1]
    if C.refused is not None:
        eng.check("C23| a failed write is reported", z3.BoolVal(out.exc is C.refused))
    else:
        no_raise(out, "C23| writing raises nothing")
    md = body.metadata
    eng.check("C23| the config map of the lock is written", z3.And(
        [eng.enc(a) == n.expr for a, n in zip(args[:-1], (name, ns) if op == 2 else (ns,))] +
        [eng.enc(md.name) == name.expr, eng.enc(md.namespace) == ns.expr]))
    eng.check("C23| the record is written as its text", z3.BoolVal(len(texts) == 1 and texts[0][0] is rec))
    now = md.annotations
    if not isinstance(now, MDict):
        raise Unsupported("annotations")
    eng.check("C23| the record is written to the annotation", z3.And(
        z3.Select(now.has, eng.enc(KEY)), z3.Select(now.vals, eng.enc(KEY)) == texts[0][1].expr))
    if op == 2:
        if known is None:
            raise Unsupported("updates a config map the contract does not know")
        eng.check("C23| a write is made against the version last read or written", z3.And(
            eng.enc(md.resource_version) == eng.enc(known[1]), eng.enc(body.data) == eng.enc(known[2])))
        if ann is not None:
            k = eng.enc("other")
            eng.check("C23| other annotations stay", z3.Implies(z3.Select(ann.has, k), z3.And(
                z3.Select(now.has, k), z3.Select(now.vals, k) == z3.Select(ann.vals, k))))
        eng.cover("updated")
    else:
        eng.cover("created")


SAYS = z3.Function("json_says", V, V)


def dict_copy(d):
    return MDict(d)
