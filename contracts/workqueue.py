"""Contracts of workqueue/queue.py (C01, C02, C03)."""
import z3

from pydv.containers import IV, MDeque, MSet
from pydv.core import V
from pydv.spec import (ListV, LoopSpec, Monitor, contract, instance, mod, need, no_raise, one_step, run, term)

FIELDS = ("_clock", "_dirty", "_processing", "_cond", "_unfinished_work_update_period", "_queue", "_shutting_down")


def inv(S, slack=0):
    q, d, p = S.queue, S.dirty, S.processing
    return [
        ("C01| a pending item is not being processed", q.forall(lambda e, i: z3.Not(p.has(e)))),
        ("C01| an item is pending at most once", q.distinct()),
        ("C01,C02| a pending item is marked as added", q.forall(lambda e, i: d.has(e))),
        ("C02,C03| an added item that is not being processed is pending",
         d.forall(lambda k: z3.Or(p.has(k), q.has(k)))),
        ("C02| no consumer waits unnotified while more items are pending than consumers were notified",
         z3.And(S.waiting >= 0, S.woken >= 0, z3.Implies(S.waiting > 0, q.len() <= S.woken + slack))),
        ("C03| no consumer waits unnotified after shutdown", z3.Implies(S.down, S.waiting == 0)),
    ]


def rely(S, T):
    return [z3.Implies(S.down, T.down)]


def guar(S, T):
    return [("C03| a shut down queue stays shut down", z3.Implies(S.down, T.down))]


def queue(eng, cls=None):
    m = mod("workqueue.queue")
    need(m, "Type")
    q = m.Type(None)
    instance(q, FIELDS)
    cond = q._cond
    fields = {
        "queue": ("c", lambda: q._queue), "dirty": ("c", lambda: q._dirty),
        "processing": ("c", lambda: q._processing),
        "down": ("py", q, "_shutting_down", lambda: eng.bool("down")),
        "waiting": ("py", cond, "_waiting", lambda: eng.int("waiting")),
        "woken": ("py", cond, "_woken", lambda: eng.int("woken")),
    }
    q._queue._pv_elem = q._dirty._pv_elem = q._processing._pv_elem = "val"
    M = Monitor(eng, fields, inv, rely, guar)
    return q, M


def same(S, T):
    return z3.And(S.queue.same(T.queue), S.dirty.same(T.dirty), S.processing.same(T.processing))


@contract("workqueue.Type.__init__", "C01 C02 C03", ["workqueue.queue:Type.__init__"])
def init(eng):
    q, M = queue(eng)
    S = M.snap()
    for n, f in inv(S):
        eng.check(n + " (initially)", f)
    eng.check("C03| a new queue is not shut down", z3.Not(S.down))
    eng.check("C01| a new queue is empty", S.queue.len() == 0)


@contract("workqueue.Type.add", "C01 C02 C03", ["workqueue.queue:Type.add"])
def add(eng):
    q, M = queue(eng)
    x = eng.caller_val("item")
    S0 = M.start()
    out = run(q.add, x)
    no_raise(out, "C02| add raises nothing")
    M.finish()
    e = x.expr

    def step(S, T):
        idle = z3.And(z3.Not(S.down), z3.Not(S.dirty.has(e)), z3.Not(S.processing.has(e)))
        return z3.And(
            S.processing.same(T.processing),
            z3.If(z3.Or(S.down, S.dirty.has(e)), z3.And(S.queue.same(T.queue), S.dirty.same(T.dirty)),
                  z3.And(S.dirty.added(e, T.dirty),
                         z3.If(S.processing.has(e), S.queue.same(T.queue), S.queue.appended(e, T.queue)))))
    segs = M.segments
    k = z3.Const("k!o", V)
    # the last segment is the one that acts; before it nothing changes
    S, T = segs[-1]
    for a, b in segs[:-1]:
        eng.check("C01,C02,C03| add acts in one step", same(a, b))
    eng.check("C02| an item accepted by add is marked as added", z3.Implies(z3.Not(S.down), T.dirty.has(e)))
    eng.check("C02| add forgets no other item", S.dirty.forall(lambda k: T.dirty.has(k)))
    eng.check("C01| add appends at most the item, at the end of the queue",
              z3.Or(S.queue.same(T.queue), S.queue.appended(e, T.queue)))
    eng.check("C01| add leaves the items under processing alone", S.processing.same(T.processing))
    eng.check("C03| add after shutdown changes nothing", z3.Implies(S.down, same(S, T)))
    eng.check("C01| an item already waiting or marked for re-delivery is not queued again",
              z3.Implies(S.dirty.has(e), S.queue.same(T.queue)))
    eng.cover("add to idle queue")


@contract("workqueue.Type.get", "C01 C02 C03", ["workqueue.queue:Type.get"])
def get(eng):
    q, M = queue(eng)
    M.start()
    M.guar = lambda S, T: guar(S, T) + ([] if M.last else [
        ("C01,C02,C03| get takes nothing before it returns", same(S, T))])
    M.last = False
    # a woken consumer has used up its wake-up, so there may be one more pending item than wake-ups
    eng.loop_specs.append(LoopSpec(name="wait for an item", kind="while", monitor=True,
                                   inv=lambda ctx: inv(M.snap(), 1)))
    out = run(q.get)
    no_raise(out, "C01,C02,C03| get raises nothing")
    M.last = True
    M.finish()
    S, T = M.segments[-1]
    r = out.value
    if not isinstance(r, tuple) or len(r) != 2:
        eng.fail("C01,C03| get returns an item and the shutdown flag")
        return
    item, down = eng.enc(r[0]), term(r[1])
    eng.check("C03| get reports shutdown only on a shut down queue without pending items",
              z3.Implies(down, z3.And(T.down, S.queue.len() == 0, item == eng.enc(None), same(S, T))))
    nd = z3.Not(down)
    eng.check("C01| the item returned was first in the queue", z3.Implies(nd, S.queue.popped(item, T.queue)))
    eng.check("C01| the item returned was not being processed and now is",
              z3.Implies(nd, z3.And(z3.Not(S.processing.has(item)), S.processing.added(item, T.processing))))
    eng.check("C02| get forgets no other item", z3.Implies(nd, S.dirty.forall(
        lambda k: z3.Or(k == item, T.dirty.has(k)))))
    eng.check("C01| the item returned is no longer marked as added", z3.Implies(nd, z3.Not(T.dirty.has(item))))
    eng.cover("get returns")


@contract("workqueue.Type.done", "C01 C02 C03", ["workqueue.queue:Type.done"])
def done(eng):
    q, M = queue(eng)
    x = eng.caller_val("item")
    e = x.expr
    M.start()
    M.after = lambda tag, prim, T, S: eng.assume(S.processing.has(e))   # only its consumer calls done
    eng.assume(M.seg.processing.has(e))
    out = run(q.done, x)
    no_raise(out, "C01,C02| done raises nothing for an item under processing")
    M.finish()
    S, T = M.segments[-1]
    for a, b in M.segments[:-1]:
        eng.check("C01,C02,C03| done acts in one step", same(a, b))
    eng.check("C01| done ends the processing of exactly this item", S.processing.removed(e, T.processing))
    eng.check("C01,C02| done queues the item again, at the end, if it was added meanwhile",
              z3.If(S.dirty.has(e), S.queue.appended(e, T.queue), S.queue.same(T.queue)))
    eng.check("C02,C03| done forgets no item", S.dirty.same(T.dirty))
    eng.cover("done returns")


@contract("workqueue.Type.shut_down", "C01 C02 C03", ["workqueue.queue:Type.shut_down"])
def shut_down(eng):
    q, M = queue(eng)
    M.start()
    out = run(q.shut_down)
    no_raise(out, "C03| shut_down raises nothing")
    M.finish()
    for a, b in M.segments:
        eng.check("C02,C03| shut_down takes nothing from the queue and adds nothing", same(a, b))
    eng.check("C03| the queue is shut down", M.segments[-1][1].down)
    eng.cover("shut_down returns")


@contract("workqueue.Type.read", "C01 C03", ["workqueue.queue:Type.__len__", "workqueue.queue:Type.shutting_down"])
def read(eng):
    """The length is the number of pending items; shutting_down tells whether the queue was shut down."""
    q, M = queue(eng)
    S = M.start()
    out = run(lambda: q.__len__())
    no_raise(out, "C01| len raises nothing")
    eng.check("C01| the length of a queue is the number of pending items", term(out.value) == S.queue.len())
    out = run(q.shutting_down)
    no_raise(out, "C03| shutting_down raises nothing")
    v = out.value
    eng.check("C03| shutting_down is true exactly after shut_down",
              (z3.BoolVal(v) if isinstance(v, bool) else v.expr) == S.down)
    T = M.finish()
    eng.check("C01,C03| reading changes nothing", z3.And(same(S, T), S.down == T.down))
