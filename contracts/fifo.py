"""Contracts of cache/fifo.py (C09, C12, C13)."""
import z3

from contracts.store import KEY, KEYFAIL, KeyFuncError, listing
from pydv.containers import MDict, MList
from pydv.core import NONE, Unsupported, V
from pydv.spec import DictV, LoopSpec, Monitor, contract, failure, instance, mod, need, no_raise, run, term

FIELDS = ("_lock", "_cond", "_items", "_queue", "_populated", "_initial_population_count", "_key_func", "_closed")
FO = z3.Function("first_with_key", V, z3.IntSort())
k_ = z3.Const("k!ff", V)


def inv(S, slack=0):
    return [
        ("C09| every pending key is in the queue", S.items.forall(lambda k: S.queue.has(k))),
        ("C13| no consumer waits unnotified while more is queued than consumers were notified",
         z3.And(S.waiting >= 0, S.woken >= 0, z3.Implies(S.waiting > 0, S.queue.len() <= S.woken + slack))),
        ("C12| the count of the first population is never negative", S.count >= 0),
        ("C12| there is a first population only once something was put in", z3.Implies(z3.Not(S.populated), S.count == 0)),
    ]


def rely(S, T):
    return [z3.Implies(S.closed, T.closed), z3.Implies(S.populated, T.populated),
            z3.Implies(S.closed, T.waiting <= S.waiting)]


def guar(S, T):
    return [("C13| a closed queue stays closed", z3.Implies(S.closed, T.closed)),
            ("C12| a populated queue stays populated", z3.Implies(S.populated, T.populated)),
            ("C13| nobody starts to wait on a closed queue", z3.Implies(S.closed, T.waiting <= S.waiting))]


def same(S, T):
    return z3.And(S.queue.same(T.queue), S.items.same(T.items), S.count == T.count)


def keys(eng, kf):
    def call(fn, *args):
        if not fn.expr.eq(kf.expr) or len(args) != 1:
            return NotImplemented
        o = eng.enc(args[0])
        if eng.fork(KEYFAIL(o)):
            raise KeyFuncError
        return eng.dec(KEY(o))
    eng.hooks["call"] = call


def build(eng, fields=True):
    m = mod("cache.fifo")
    need(m, "FIFO", "FIFOClosedError", "RequeueError", "ProcessError")
    eng.ordered = True
    kf = eng.caller_val("key_func", not_none=True)
    keys(eng, kf)
    f = m.FIFO(kf)
    instance(f, FIELDS)
    f._queue._pv_elem = f._items._pv_elem = "val"
    lk = f._cond._lk
    if f._lock is not lk:
        raise Unsupported("the condition uses another lock")
    fields = {
        "queue": ("c", lambda: f._queue), "items": ("c", lambda: f._items),
        "populated": ("py", f, "_populated", lambda: eng.bool("populated")),
        "count": ("py", f, "_initial_population_count", lambda: eng.int("count")),
        "closed": ("py", f, "_closed", lambda: eng.bool("closed")),
        "waiting": ("py", f._cond, "_waiting", lambda: eng.int("waiting")),
        "woken": ("py", f._cond, "_woken", lambda: eng.int("woken")),
    }
    M = Monitor(eng, fields, inv, rely, guar, locks={n: lk for n in ("queue", "items", "populated", "count")})
    return m, f, M


def one(M, tag):
    """Nothing happens before the last segment."""
    for a, b in M.segments[:-1]:
        M.eng.check(f"{tag}| the operation acts in one step", same(a, b))
    return M.segments[-1]


def key_error(eng, out, o, M):
    st = mod("cache.store")
    eng.check("C09| only a failing key function makes it fail", z3.And(
        z3.BoolVal(isinstance(out.exc, st.StoreKeyError)), KEYFAIL(o)), str(out.exc))
    for S, T in M.segments:
        eng.check("C09| a failing key function changes nothing", same(S, T))
    eng.cover("key function fails")


@contract("fifo.FIFO.__init__", "C09 C12 C13", ["cache.fifo:FIFO.__init__"])
def init(eng):
    m, f, M = build(eng)
    S = M.snap()
    for n, x in inv(S):
        eng.check(n + " (initially)", x)
    eng.check("C12| a new queue is not populated, empty and open", z3.And(
        z3.Not(S.populated), z3.Not(S.closed), S.queue.len() == 0, S.items.size == 0))
    eng.check("C12| a new queue has not synced", z3.Not(term(run(f.has_synced).value)))


@contract("fifo.FIFO.add", "C09 C12 C13", ["cache.fifo:FIFO.add", "cache.fifo:FIFO.update"])
def add(eng):
    m, f, M = build(eng)
    op = ("add", "update")[eng.choose(2)]
    x = eng.caller_val("obj", not_none=True)
    M.start()
    out = run(getattr(f, op), x)
    M.finish()
    if not out.ok:
        key_error(eng, out, x.expr, M)
        return
    S, T = one(M, "C09")
    k = KEY(x.expr)
    eng.check("C09| the key function did not fail", z3.Not(KEYFAIL(x.expr)))
    eng.check(f"C09| {op} leaves the key's latest object pending", z3.And(T.items.has(k), T.items.get(k) == x.expr))
    eng.check(f"C09| {op} leaves every other key alone", S.items.same_but(k, T.items))
    eng.check(f"C09| {op} keeps the place of a pending key and puts others at the end", z3.If(
        S.items.has(k), S.queue.same(T.queue), S.queue.appended(k, T.queue)))
    eng.check(f"C12| {op} leaves the count of the first population and populates the queue",
              z3.And(T.populated, T.count == S.count))
    eng.cover("added")


@contract("fifo.FIFO.delete", "C09 C12 C13", ["cache.fifo:FIFO.delete"])
def delete(eng):
    m, f, M = build(eng)
    x = eng.caller_val("obj", not_none=True)
    M.start()
    out = run(f.delete, x)
    M.finish()
    if not out.ok:
        key_error(eng, out, x.expr, M)
        return
    S, T = one(M, "C09")
    k = KEY(x.expr)
    eng.check("C09| a deleted key is not pending", z3.Not(T.items.has(k)))
    eng.check("C09| delete leaves every other key alone", S.items.same_but(k, T.items))
    eng.check("C09,C12| delete keeps the queue's order", S.queue.same(T.queue))
    eng.check("C12| delete leaves the count of the first population and populates the queue",
              z3.And(T.populated, T.count == S.count))
    eng.cover("deleted")


@contract("fifo.FIFO.add_if_not_present", "C09 C12 C13", ["cache.fifo:FIFO.add_if_not_present",
                                                          "cache.fifo:FIFO._add_if_not_present"])
def add_if(eng):
    m, f, M = build(eng)
    x = eng.caller_val("obj", not_none=True)
    M.start()
    out = run(f.add_if_not_present, x)
    M.finish()
    if not out.ok:
        key_error(eng, out, x.expr, M)
        return
    S, T = one(M, "C09")
    k = KEY(x.expr)
    eng.check("C09| add_if_not_present leaves a pending object alone, and its place", z3.Implies(
        S.items.has(k), z3.And(S.queue.same(T.queue), S.items.same(T.items))))
    eng.check("C09| add_if_not_present adds an object that is not pending, at the end", z3.Implies(
        z3.Not(S.items.has(k)), z3.And(T.items.has(k), T.items.get(k) == x.expr, S.queue.appended(k, T.queue))))
    eng.check("C09| add_if_not_present leaves every other key alone", S.items.same_but(k, T.items))
    eng.check("C12| add_if_not_present leaves the count of the first population and populates the queue",
              z3.And(T.populated, T.count == S.count))
    eng.cover("added")


@contract("fifo.FIFO.replace", "C09 C12 C13", ["cache.fifo:FIFO.replace"])
def replace(eng):
    m, f, M = build(eng)
    st = mod("cache.store")
    lst = MList()
    eng.havoc_container(lst)
    lst._pv_elem = "val"
    lo, hi, el = lst.lo, lst.hi, lst.el
    el_ = lambda j: z3.Select(el, j)
    j, j2 = z3.Int("j!fr"), z3.Int("j2!fr")
    a, b = z3.Const("a!fr", V), z3.Const("b!fr", V)
    eng.assume(z3.ForAll([j], z3.Implies(z3.And(lo <= j, j < hi), el_(j) != NONE), patterns=[el_(j)]))
    # FO(k): where k occurs first in the list
    eng.assume(z3.ForAll([j], z3.Implies(z3.And(lo <= j, j < hi), z3.And(
        lo <= FO(KEY(el_(j))), FO(KEY(el_(j))) <= j, KEY(el_(FO(KEY(el_(j))))) == KEY(el_(j)))), patterns=[el_(j)]))

    def last(has, val, n):
        return [
            ("C09| every listed object's key is pending", z3.ForAll([j], z3.Implies(
                z3.And(lo <= j, j < lo + n), has(KEY(el_(j)))), patterns=[el_(j)])),
            ("C09| under each key is the last listed object with that key", z3.ForAll([k_], z3.Implies(has(k_), z3.Not(
                z3.ForAll([j], z3.Not(z3.And(lo <= j, j < lo + n, KEY(el_(j)) == k_, val(k_) == el_(j), z3.ForAll(
                    [j2], z3.Implies(z3.And(j < j2, j2 < lo + n), KEY(el_(j2)) != k_), patterns=[el_(j2)]))),
                    patterns=[el_(j)]))), patterns=[has(k_)])),
        ]

    def inv_(ctx):
        ds = [d for d in (ctx.env(n) for n in list(ctx.loop.frame.f_locals)) if isinstance(d, MDict)]
        if len(ds) != 1:
            raise Unsupported("replace builds its content in another form")
        d = ds[0]
        D = DictV(d)
        o = z3.Const("ord!", d._rd("ord").sort())
        o = d._rd("ord")
        at = lambda k: z3.Select(o, k)
        return last(D.has, D.get, ctx.i) + [
            ("C09| the keys so far could be computed", z3.ForAll([j], z3.Implies(
                z3.And(lo <= j, j < lo + ctx.i), z3.Not(KEYFAIL(el_(j)))), patterns=[el_(j)])),
            ("keys are inserted one after the other", d.order_fact()),
            ("C09| the keys are in the order of the list", z3.ForAll([a, b], z3.Implies(
                z3.And(D.has(a), D.has(b), FO(a) < FO(b)), at(a) < at(b)),
                patterns=[z3.MultiPattern(FO(a), FO(b), D.has(a), D.has(b))])),
            ("C09| the first object with a key was seen", z3.ForAll([a], z3.Implies(D.has(a), z3.And(
                lo <= FO(a), FO(a) < lo + ctx.i, KEY(el_(FO(a))) == a)), patterns=[D.has(a)])),
        ]
    eng.loop_specs.append(LoopSpec(name="objects of FIFO.replace", over=lst, inv=inv_))
    M.start()
    out = run(f.replace, lst, eng.caller_val("rv"))
    M.finish()
    if not out.ok:
        eng.check("C09| replace fails only with StoreKeyError", z3.BoolVal(isinstance(out.exc, st.StoreKeyError)))
        if isinstance(out.exc, st.StoreKeyError):
            x = eng.enc(out.exc.obj)
            eng.check("C09| replace fails only when a key fails", KEYFAIL(x))
        for S, T in M.segments:
            eng.check("C09| a failing replace changes nothing", same(S, T))
        eng.cover("key function fails")
        return
    S, T = one(M, "C09")
    for nm, x in last(T.items.has, T.items.get, hi - lo):
        eng.check(nm + " (after replace)", x)
    i, i2 = eng.fresh("qi", z3.IntSort()), eng.fresh("qj", z3.IntSort())
    q = T.queue
    eng.assume(z3.And(q.lo <= i, i < i2, i2 < q.hi))
    qi, qj = z3.Select(q.el, i), z3.Select(q.el, i2)
    eng.check("C09| after replace just the listed keys are queued", z3.And(T.items.has(qi), T.items.has(qj)))
    eng.check("C09| after replace each key is queued once", qi != qj)
    eng.check("C09| after replace the keys are queued in the order of the list", FO(qi) < FO(qj))
    eng.check("C12| a first population is counted, a later one is not", z3.And(T.populated, z3.If(
        S.populated, T.count == S.count, T.count == T.items.size)))
    eng.check("C12| the first population counts its distinct keys", T.queue.len() == T.items.size)
    eng.cover("replaced")


@contract("fifo.FIFO.resync", "C09 C12 C13", ["cache.fifo:FIFO.resync"])
def resync(eng):
    m, f, M = build(eng)
    M.start()
    S0 = {}

    def inv_(ctx):
        T = M.snap()
        return [("C09| resync adds nothing that is queued already", z3.And(
            M.seg.queue.same(T.queue), M.seg.items.same(T.items), M.seg.count == T.count))]
    eng.loop_specs.append(LoopSpec(name="items of FIFO.resync", kind="for", inv=inv_))
    out = run(f.resync)
    no_raise(out, "C09| resync raises nothing")
    M.finish()
    for S, T in M.segments:
        eng.check("C09,C12| resync neither replaces nor duplicates what is pending", z3.And(
            same(S, T), S.populated == T.populated))
    eng.cover("resynced")


def skip(S, T):
    """One entry without an object is passed over."""
    x = z3.Select(S.queue.el, S.queue.lo)
    return z3.And(S.queue.popped(x, T.queue), z3.Not(S.items.has(x)), S.items.same(T.items),
                  T.count == z3.If(S.count > 0, S.count - 1, S.count))


@contract("fifo.FIFO.pop", "C09 C12 C13", ["cache.fifo:FIFO.pop", "cache.fifo:FIFO._count_processed",
                                           "cache.fifo:FIFO._add_if_not_present", "cache.fifo:FIFO.is_closed",
                                           "cache.fifo:FIFO.has_synced"])
def pop(eng):
    m, f, M = build(eng)
    seen = []
    M.last = False

    def g(S, T):
        out = guar(S, T)
        if not M.last:
            out.append(("C09,C12| until it hands something out pop only passes over deleted entries, counting each",
                        z3.Or(same(S, T), skip(S, T))))
        return out
    M.guar = g
    cause = KeyError("cause")
    other = failure(eng, "processor failed")
    kinds = ("ok", "requeue", "requeue with cause", "other")

    def process(item):
        S, N = M.seg, M.snap()
        eng.check("C13| pop hands out one entry", z3.BoolVal(not seen))
        kind = kinds[eng.choose(4)]
        seen.append((item, kind, N))
        eng.check("C12| has_synced is false while an entry of the first population is processed", z3.Implies(
            S.count > 0, z3.Not(term(f.has_synced()))))
        eng.check("C12| has_synced is true while later entries are processed", z3.Implies(
            z3.And(S.populated, S.count == 0), term(f.has_synced())))
        eng.check("C09| an entry handed out is no longer pending", z3.Not(N.items.has(
            z3.Select(S.queue.el, S.queue.lo))))
        if kind == "requeue":
            raise m.RequeueError()
        if kind == "requeue with cause":
            raise m.RequeueError() from cause
        if kind == "other":
            raise other
        return eng.val("result")
    eng.loop_specs.append(LoopSpec(name="wait for an entry", kind="while", monitor=True, inv=lambda ctx: inv(M.snap(), 1) + [
        ("C13| pop handed nothing out yet", z3.BoolVal(not seen))]))
    M.start()
    out = run(f.pop, process)
    M.last = True
    M.finish()
    S, T = M.segments[-1]
    if not seen:
        eng.check("C13| without an entry pop ends only on a closed queue, with FIFOClosedError",
                  z3.And(z3.BoolVal(isinstance(out.exc, m.FIFOClosedError)), S.queue.len() == 0, T.closed, same(S, T)),
                  str(out.exc))
        eng.cover("closed")
        return
    item, kind, N = seen[0]
    x = eng.enc(item)
    k = z3.Select(S.queue.el, S.queue.lo)
    eng.check("C09| pop hands out the object that is pending under the first key", z3.And(
        S.queue.len() > 0, S.items.has(k), S.items.get(k) == x))
    requeued = kind.startswith("requeue")
    popped = M.state if False else None
    eng.check("C09| pop leaves every other key alone", S.items.same_but(k, T.items))
    if requeued:
        eng.check("C13| after the requeue error the entry is pending again", z3.And(T.items.has(k), T.items.get(k) == x))
        i = z3.Int("i!rq")
        eng.check("C13,C09| and queued again, at the end, the others keeping their order", z3.And(
            T.queue.len() == S.queue.len(), z3.Select(T.queue.el, T.queue.hi - 1) == k, z3.ForAll([i], z3.Implies(
                z3.And(0 <= i, i < T.queue.len() - 1), z3.Select(S.queue.el, S.queue.lo + i + 1) == z3.Select(
                    T.queue.el, T.queue.lo + i)))))
        eng.cover("requeued")
    else:
        eng.check("C09| the key handed out is not pending any more", z3.Not(T.items.has(k)))
        eng.check("C09| pop takes exactly the first key from the queue", S.queue.popped(k, T.queue))
    eng.check("C12| an entry handed out counts as processed once its processing has ended",
              T.count == z3.If(S.count > 0, S.count - 1, S.count))
    if kind in ("ok", "requeue"):
        no_raise(out, "C13| pop raises nothing when processing succeeded or asked for a requeue")
        eng.check("C09| pop returns the entry", eng.enc(out.value) == x)
    else:
        want = cause if kind == "requeue with cause" else other
        ok = isinstance(out.exc, m.ProcessError)
        eng.check("C13| pop reports a failed processing as ProcessError", z3.BoolVal(ok), str(out.exc))
        if ok:
            eng.check("C13| the ProcessError carries the entry and the exception as cause", z3.And(
                z3.BoolVal(out.exc.__cause__ is want), eng.enc(out.exc.item) == x))
        eng.cover("failed")
    eng.cover("popped")


@contract("fifo.FIFO.close", "C13", ["cache.fifo:FIFO.close"])
def close(eng):
    m, f, M = build(eng)
    M.start()
    out = run(f.close)
    no_raise(out, "C13| close raises nothing")
    M.finish()
    for S, T in M.segments:
        eng.check("C13| closing takes nothing from the queue", z3.And(same(S, T), S.populated == T.populated))
    T = M.segments[-1][1]
    eng.check("C13| after close the queue is closed and nobody waits unnotified", z3.And(T.closed, T.waiting == 0))
    eng.cover("closed")


@contract("fifo.FIFO.read", "C09", ["cache.fifo:FIFO.list", "cache.fifo:FIFO.list_keys", "cache.fifo:FIFO.get",
                                    "cache.fifo:FIFO.get_by_key"])
def read(eng):
    m, f, M = build(eng)
    op = ("list", "list_keys", "get", "get_by_key")[eng.choose(4)]
    o = eng.caller_val("obj", not_none=True)
    S = M.start()
    out = run(getattr(f, op), *([o] if op.startswith("get") else []))
    M.finish()
    eng.check(f"C09| {op} changes nothing", same(*M.segments[-1]))
    if not out.ok:
        eng.check("C09| only get fails", z3.BoolVal(op == "get"), str(out.exc))
        key_error(eng, out, o.expr, M)
        return
    if op.startswith("get"):
        k = KEY(o.expr) if op == "get" else o.expr
        eng.check(f"C09| {op} returns the pending object, or None", eng.enc(out.value) == z3.If(
            S.items.has(k), S.items.get(k), NONE))
    else:
        if not isinstance(out.value, MList):
            raise Unsupported(f"{op} returns another form")
        listing(eng, op, out.value, S.items, op == "list", "C09")
    eng.cover("read")


@contract("fifo.FIFO.has_synced", "C12", ["cache.fifo:FIFO.has_synced"])
def has_synced(eng):
    m, f, M = build(eng)
    S = M.start()
    out = run(f.has_synced)
    no_raise(out, "C12| has_synced raises nothing")
    M.finish()
    eng.check("C12| has_synced is true exactly when the queue was populated and its first population is processed",
              (z3.BoolVal(True) if out.value is True else z3.BoolVal(False) if out.value is False else term(out.value))
              == z3.And(S.populated, S.count == 0))
    eng.cover("asked")
