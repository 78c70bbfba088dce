"""Contracts of cache/delta_fifo.py (C10, C11, C12, C13)."""
import z3

from contracts.fifo import guar, rely
from contracts.store import KEY, KEYFAIL, KeyFuncError
from pydv.containers import MDict, MList, MSet
from pydv.core import E, NONE, Unsupported, V, tag_of
from pydv.spec import DictV, LoopSpec, Monitor, contract, failure, instance, mod, need, no_raise, run, term

FIELDS = ("_items", "_queue", "_key_func", "_known_objects", "_cond", "_populated", "_initial_population_count", "_closed")
I = z3.IntSort()
STORED = z3.Function("stored", V, V)                # the known-objects store: key -> object or None
LOOKUP_FAILS = z3.Function("lookup_fails", V, z3.BoolSort())
k_, k2_ = z3.Const("k!df", V), z3.Const("k2!df", V)
p_ = z3.Int("p!df")


class T_:
    """Terms of the module under contract: delta types, deltas, tombstones."""

    def __init__(self, eng, m):
        self.eng, self.m = eng, m
        self.ADDED, self.UPDATED, self.DELETED, self.SYNC = (
            eng.enc(getattr(m.DeltaType, n)) for n in ("ADDED", "UPDATED", "DELETED", "SYNC"))
        self.dtag, self.ttag = tag_of(m.Delta, 2), tag_of(m.DeletedFinalStateUnknown, 2)

    def delta(self, t, o):
        return V.rec(z3.IntVal(self.dtag), t, o, NONE, NONE)

    def tomb(self, k, o):
        return V.rec(z3.IntVal(self.ttag), k, o, NONE, NONE)

    def is_tomb(self, o):
        return z3.And(V.is_rec(o), V.tag(o) == self.ttag)

    def is_delta(self, d):
        return z3.And(V.is_rec(d), V.tag(d) == self.dtag, V.f2(d) == NONE, V.f3(d) == NONE)

    def key(self, o):
        return z3.If(self.is_tomb(o), V.f0(o), KEY(o))


def const(a):
    """A constant equal to the array, the same one for the same array, so that patterns over it match."""
    if z3.is_const(a):
        return a
    cache = E().ghost.setdefault("named", {})
    if a.get_id() not in cache:
        c = E().fresh("arr", a.sort())
        E().assume(c == a)
        cache[a.get_id()] = (c, a)
    return cache[a.get_id()][0]


class Items(DictV):
    """The pending changes: key -> list of deltas (kept from index 0 on)."""

    def __init__(self, d):
        super().__init__(d)
        h = E().heap
        self.m, self.v = const(self.m), const(self.v)
        self.lo_, self.hi_, self.el_ = const(h["lo"]), const(h["hi"]), const(h["el"])

    def n(self, k):
        return z3.Select(self.hi_, self.get(k))

    def at(self, k, p):
        return z3.Select(z3.Select(self.el_, self.get(k)), p)

    def last(self, k):
        return self.at(k, self.n(k) - 1)

    def lo(self, k):
        return z3.Select(self.lo_, self.get(k))

    def same_at(self, k, o):
        return z3.And(self.has(k) == o.has(k), z3.Implies(self.has(k), z3.And(
            self.n(k) == o.n(k), self.prefix(k, o, self.n(k)))))

    def prefix(self, k, o, n):
        """The first n changes of k are the same in self and o."""
        return z3.ForAll([p_], z3.Implies(z3.And(0 <= p_, p_ < n), self.at(k, p_) == o.at(k, p_)),
                         patterns=[o.at(k, p_)])

    def same(self, o):
        k = E().fresh("k!it", V)
        return z3.ForAll([k], self.same_at(k, o))

    def same_but(self, key, o):
        k = E().fresh("k!ib", V)
        return z3.ForAll([k], z3.Implies(k != key, self.same_at(k, o)))


def seq(eng):
    """An arbitrary list of values."""
    lst = MList()
    eng.havoc_container(lst)
    eng.heap.write("lo", lst._pv_ref, z3.IntVal(0))
    eng.assume(lst.hi >= 0)
    lst._pv_elem = "val"
    return lst


class Known:
    """The known-objects store as its contract describes it (C07)."""
    _pv_model = True

    def __init__(self, eng):
        self.eng = eng
        self.keys = None

    def list_keys(self):
        return self.keys

    def get_by_key(self, k):
        e = self.eng.enc(k)
        if self.eng.fork(LOOKUP_FAILS(e)):
            raise failure(self.eng, "lookup failed")
        return self.eng.dec(STORED(e))


class Ctx:
    pass


def build(eng, known=None):
    """known: None (no store), True (a store), or 'any'."""
    m = mod("cache.delta_fifo")
    need(m, "DeltaFIFO", "Deltas", "Delta", "DeltaType", "DeletedFinalStateUnknown", "fifo")
    c = Ctx()
    c.eng, c.m = eng, m
    c.t = t = T_(eng, m)
    kf = eng.caller_val("key_func", not_none=True)

    def call(fn, *args):
        if not fn.expr.eq(kf.expr) or len(args) != 1:
            return NotImplemented
        o = eng.enc(args[0])
        if eng.fork(KEYFAIL(o)):
            raise KeyFuncError
        return eng.dec(KEY(o))
    eng.hooks["call"] = call
    if known == "any":
        known = eng.choose(2) == 1
    c.known = Known(eng) if known else None
    c.d = d = m.DeltaFIFO(kf, c.known) if known else m.DeltaFIFO(kf)
    instance(d, FIELDS)
    ks = seq(eng)               # (allocated in every case: objects are numbered alike on all paths)
    if known:
        c.known.keys = ks
    d._queue._pv_elem = "val"
    d._items._pv_key = "val"
    t.queue_ref, t.items_ref = (lambda: d._queue._pv_ref), (lambda: d._items._pv_ref)
    c.shape = ("rec", m.Delta, ("val", "val"))
    d._items._pv_elem = ("list", m.Deltas, c.shape)
    lk = d._cond._lk

    def havoc():
        eng.havoc_container(d._items)
        eng.havoc_symbolic(("lo", "hi", "el"))
    fields = {
        "queue": ("c", lambda: d._queue), "items": ("x", lambda: Items(d._items), havoc),
        "populated": ("py", d, "_populated", lambda: eng.bool("populated")),
        "count": ("py", d, "_initial_population_count", lambda: eng.int("count")),
        "closed": ("py", d, "_closed", lambda: eng.bool("closed")),
        "waiting": ("py", d._cond, "_waiting", lambda: eng.int("waiting")),
        "woken": ("py", d._cond, "_woken", lambda: eng.int("woken")),
    }
    c.inv = lambda S, slack=0: inv(t, S, slack)
    c.M = Monitor(eng, fields, c.inv, rely, guar, locks={
        n: lk for n in ("items", "queue", "populated", "count", "closed")})
    return c


def shape_inv(t, S):
    q, X = S.queue, S.items
    now = E().next_gen
    return [
        ("C10,C11| every pending key has at least one change, each a delta", z3.ForAll([k_], z3.Implies(X.has(k_), z3.And(
            V.is_ref(X.get(k_)), V.gen(X.get(k_)) < now, X.get(k_) != t.queue_ref(), X.get(k_) != t.items_ref(), X.lo(k_) == 0, X.n(k_) > 0)), patterns=[X.has(k_)])),
        ("every pending change is a delta", z3.ForAll([k_, p_], z3.Implies(z3.And(X.has(k_), 0 <= p_, p_ < X.n(k_)),
                                                                         t.is_delta(X.at(k_, p_))), patterns=[X.at(k_, p_)])),
        ("C10| what is queued is pending", q.forall(lambda e, i: X.has(e))),
        ("C10| every pending key is queued", z3.ForAll([k_], z3.Implies(X.has(k_), q.has(k_)), patterns=[X.has(k_)])),
        ("C10| a key is queued once", q.distinct()),
        ("C12| as many keys are queued as are pending", q.len() == X.size),
    ]


def inv(t, S, slack=0):
    return shape_inv(t, S) + [
        ("C13| no consumer waits unnotified while more is queued than consumers were notified",
         z3.And(S.waiting >= 0, S.woken >= 0, z3.Implies(S.waiting > 0, S.queue.len() <= S.woken + slack))),
        ("C13| no consumer waits unnotified on a closed queue", z3.Implies(S.closed, S.waiting == 0)),
        ("C12| the count of the first population is never negative", S.count >= 0),
        ("C12| before the first population there is nothing in the queue", z3.Implies(
            z3.Not(S.populated), z3.And(S.count == 0, S.queue.len() == 0, S.items.size == 0))),
    ]


def same(S, T):
    return z3.And(S.queue.same(T.queue), S.items.same(T.items), S.count == T.count)


def ends_deleted(t, X, k):
    return z3.And(X.has(k), V.f0(X.last(k)) == t.DELETED)


def acted(t, S, T, k, ty, o):
    """[(name, formula)]: the change (ty, o) was appended to those of k."""
    X, Y = S.items, T.items
    n = z3.If(X.has(k), X.n(k), 0)
    dd = z3.And(ends_deleted(t, X, k), ty == t.DELETED)
    keep = z3.And(dd, z3.Not(t.is_tomb(V.f1(X.last(k)))))
    m = z3.If(dd, n - 1, n)
    return [
        ("C10| the change is pending last, unless a real deletion was already there", z3.And(
            Y.has(k), Y.n(k) == m + 1, Y.last(k) == z3.If(keep, X.last(k), t.delta(ty, o)))),
        ("C10| the changes before it stay", z3.ForAll([p_], z3.Implies(z3.And(0 <= p_, p_ < m), X.at(k, p_) == Y.at(k, p_)),
                                                     patterns=[Y.at(k, p_)])),
        ("C10| the changes of other keys stay", X.same_but(k, Y)),
        ("C10| a pending key keeps its place, others go to the end", z3.If(
            X.has(k), S.queue.same(T.queue), S.queue.appended(k, T.queue))),
    ]


def last_segment(M, tag):
    for a, b in M.segments[:-1]:
        M.eng.check(f"{tag}| the operation acts in one step", same(a, b))
    return M.segments[-1]


def an_object(c):
    """An object handed to the queue: an API object or a tombstone."""
    eng = c.eng
    o = eng.caller_val("obj", not_none=True)
    from pydv.core import inst_pred
    eng.assume(z3.Not(z3.And(inst_pred(c.m.Deltas)(o.expr), z3.Not(V.is_rec(o.expr)))))
    eng.assume(z3.Implies(V.is_rec(o.expr), c.t.is_tomb(o.expr)))
    return o


def key_term(c, o):
    k = c.eng.fresh("key", V)
    c.eng.assume(k == c.t.key(o))
    return k


def fails(c, o):
    return z3.And(z3.Not(c.t.is_tomb(o)), KEYFAIL(o))


@contract("delta.DeltaFIFO.__init__", "C10 C12 C13", ["cache.delta_fifo:DeltaFIFO.__init__"])
def init(eng):
    c = build(eng, "any")
    S = c.M.snap()
    for n, x in c.inv(S):
        eng.check(n + " (initially)", x)
    eng.check("C12| a new queue is not populated, empty and open", z3.And(
        z3.Not(S.populated), z3.Not(S.closed), S.queue.len() == 0, S.items.size == 0))
    out = run(c.d.has_synced)
    eng.check("C12| a new queue has not synced", z3.BoolVal(out.ok and out.value is False))


@contract("delta.DeltaFIFO.add", "C10 C12", ["cache.delta_fifo:DeltaFIFO.add", "cache.delta_fifo:DeltaFIFO.update",
                                             "cache.delta_fifo:DeltaFIFO._queue_action_locked", "cache.delta_fifo:_dedup_deltas",
                                             "cache.delta_fifo:_is_dup", "cache.delta_fifo:DeltaFIFO.key_of"])
def add(eng):
    c = build(eng, "any")
    op, ty = (("add", c.t.ADDED), ("update", c.t.UPDATED))[eng.choose(2)]
    o = an_object(c)
    c.M.start()
    out = run(getattr(c.d, op), o)
    c.M.finish()
    S, T = last_segment(c.M, "C10")
    if not out.ok:
        eng.check(f"C10| {op} fails only when the key function does, changing nothing", z3.And(fails(c, o.expr), same(S, T)),
                  str(out.exc))
        eng.cover("key fails")
        return
    for n, x in acted(c.t, S, T, key_term(c, o.expr), ty, o.expr):
        eng.check(f"{n} ({op})", x)
    eng.check(f"C12| {op} leaves the count of the first population and populates the queue",
              z3.And(T.populated, T.count == S.count))
    eng.cover("added")


@contract("delta.DeltaFIFO.delete", "C10 C12", ["cache.delta_fifo:DeltaFIFO.delete",
                                                "cache.delta_fifo:DeltaFIFO._queue_action_locked",
                                                "cache.delta_fifo:_dedup_deltas", "cache.delta_fifo:_is_dup"])
def delete(eng):
    c = build(eng, "any")
    o = an_object(c)
    c.M.start()
    out = run(c.d.delete, o)
    c.M.finish()
    S, T = last_segment(c.M, "C10")
    if not out.ok:
        eng.check("C10| delete fails only when the key function does, changing nothing", z3.And(fails(c, o.expr), same(S, T)),
                  str(out.exc))
        return
    k = key_term(c, o.expr)
    known = z3.BoolVal(False) if c.known is None else z3.Or(LOOKUP_FAILS(k), STORED(k) != NONE)
    ignored = z3.And(z3.Not(S.items.has(k)), z3.Not(known))
    eng.check("C10| a deletion of a key that is neither queued nor known is ignored", z3.Implies(ignored, same(S, T)))
    for n, x in acted(c.t, S, T, k, c.t.DELETED, o.expr):
        eng.check(f"{n} (delete)", z3.Or(ignored, x))
    eng.check("C12| delete leaves the count of the first population and populates the queue",
              z3.And(T.populated, T.count == S.count))
    eng.cover("deleted")


@contract("delta.DeltaFIFO.key_of", "C10", ["cache.delta_fifo:DeltaFIFO.key_of"])
def key_of(eng):
    c = build(eng)
    st = mod("cache.store")
    k = eng.choose(2)
    if k == 0:
        o = an_object(c)
        out = run(c.d.key_of, o)
        want, bad = c.t.key(o.expr), fails(c, o.expr)
    else:
        l = deltas(c)
        out = run(c.d.key_of, l)
        x = V.f1(z3.Select(l.el, l.hi - 1))
        if not out.ok and isinstance(out.exc, st.StoreKeyError):
            eng.check("C10| only an empty list of changes has no key", l.hi == 0)
            return
        want, bad = c.t.key(x), fails(c, x)
    if not out.ok:
        eng.check("C10| key_of fails only when the key function does", bad, str(out.exc))
        return
    eng.check("C10| the key of an object, tombstone or list of changes", eng.enc(out.value) == want)
    eng.cover("key")


def deltas(c, nonempty=False):
    """A list of changes made by the caller."""
    eng = c.eng
    l = c.m.Deltas()
    eng.havoc_container(l)
    l._pv_elem = c.shape
    eng.assume(z3.And(l.lo == 0, l.hi >= (1 if nonempty else 0)))
    el = l.el
    from pydv.core import inst_pred
    eng.assume(z3.ForAll([p_], z3.Implies(z3.And(0 <= p_, p_ < l.hi), z3.And(
        c.t.is_delta(z3.Select(el, p_)), z3.Not(inst_pred(c.m.Deltas)(V.f1(z3.Select(el, p_)))),
        z3.Implies(V.is_rec(V.f1(z3.Select(el, p_))), c.t.is_tomb(V.f1(z3.Select(el, p_)))))),
        patterns=[z3.Select(el, p_)]))
    return l


@contract("delta.DeltaFIFO.add_if_not_present", "C10 C12 C13", ["cache.delta_fifo:DeltaFIFO.add_if_not_present",
                                                               "cache.delta_fifo:DeltaFIFO._add_if_not_present"])
def add_if(eng):
    c = build(eng)
    l = deltas(c, True)
    hi, el, ref = l.hi, l.el, l._pv_ref
    c.M.start()
    out = run(c.d.add_if_not_present, l)
    c.M.finish()
    S, T = last_segment(c.M, "C10")
    x = V.f1(z3.Select(el, hi - 1))
    if not out.ok:
        eng.check("C10| add_if_not_present fails only when the key function does, changing nothing",
                  z3.And(fails(c, x), same(S, T)), str(out.exc))
        return
    k = key_term(c, x)
    eng.check("C13| changes are not put back where newer ones are pending", z3.Implies(S.items.has(k), z3.And(
        S.items.same(T.items), S.queue.same(T.queue))))
    eng.check("C13| otherwise they are pending as they were, at the end", z3.Implies(z3.Not(S.items.has(k)), z3.And(
        T.items.has(k), T.items.n(k) == hi, S.queue.appended(k, T.queue))))
    p = eng.fresh("p", I)
    eng.assume(z3.And(0 <= p, p < hi))
    eng.check("C13| every one of them", z3.Implies(z3.Not(S.items.has(k)), T.items.at(k, p) == z3.Select(el, p)))
    eng.check("C10| the changes of other keys stay", S.items.same_but(k, T.items))
    eng.check("C12| add_if_not_present leaves the count of the first population", z3.And(T.populated, T.count == S.count))
    eng.cover("put back")


@contract("delta.DeltaFIFO.pop", "C10 C12 C13", ["cache.delta_fifo:DeltaFIFO.pop", "cache.delta_fifo:DeltaFIFO._count_processed",
                                                 "cache.delta_fifo:DeltaFIFO._add_if_not_present",
                                                 "cache.delta_fifo:DeltaFIFO.is_closed", "cache.delta_fifo:DeltaFIFO.has_synced"])
def pop(eng):
    import asyncio
    c = build(eng)
    d, M, f = c.d, c.M, c.m.fifo
    seen = []
    M.last = False
    plain = M.guar

    def g(S, T):
        out = list(plain(S, T))
        if not M.last:
            out.append(("C10,C12| until it hands something out pop changes nothing", same(S, T)))
        return out
    M.guar = g
    cause, other = KeyError("cause"), failure(eng, "processor failed")
    kinds = ("ok", "requeue", "requeue with cause", "other", "cancelled")

    async def process(item):
        S, N = M.seg, M.snap()
        eng.check("C13| pop hands out one entry", z3.BoolVal(not seen))
        kind = kinds[eng.choose(5)]
        seen.append((item, kind, S, N))
        M.last = True
        k = z3.Select(S.queue.el, S.queue.lo)

        def busy(when):
            # where the entry is the last to be counted, has_synced still has to be false
            eng.check(f"C12| has_synced is false while an entry of the first population is processed{when}", z3.Implies(
                S.count > 0, z3.Not(term(d.has_synced()))))
        busy("")
        eng.check("C10| pop hands out the first key's whole list of changes", z3.And(
            S.queue.len() > 0, S.items.has(k), S.items.get(k) == eng.enc(item)))
        eng.check("C10| which are then not pending any more", z3.And(
            z3.Not(N.items.has(k)), S.items.same_but(k, N.items), S.queue.popped(k, N.queue)))
        eng.check("C10| and are handed over as they were", z3.And(
            S.items.n(k) == item.hi, z3.ForAll([p_], z3.Implies(z3.And(0 <= p_, p_ < item.hi), z3.Select(
                item.el, p_) == S.items.at(k, p_)), patterns=[z3.Select(item.el, p_)])))
        if kind == "cancelled":
            eng.suspend("process")
            raise asyncio.CancelledError
        eng.suspend("process")
        busy(" (later)")
        if kind == "requeue":
            raise f.RequeueError()
        if kind == "requeue with cause":
            raise f.RequeueError() from cause
        if kind == "other":
            raise other
        return eng.val("result")
    eng.loop_specs.append(LoopSpec(name="wait for an entry", kind="while", monitor=True, inv=lambda ctx: c.inv(M.snap(), 1) + [
        ("C13| pop handed nothing out yet", z3.BoolVal(not seen))]))
    M.start()
    out = run(d.pop, process)
    M.last = True
    M.finish()
    S, T = M.segments[-1]
    if not seen:
        eng.check("C13| without an entry pop ends only on a closed queue, with FIFOClosedError",
                  z3.And(z3.BoolVal(isinstance(out.exc, f.FIFOClosedError)), S.queue.len() == 0, T.closed, same(S, T)),
                  str(out.exc))
        eng.cover("closed")
        return
    item, kind, S0, N = seen[0]
    k = z3.Select(S0.queue.el, S0.queue.lo)
    x = eng.enc(item)
    eng.check("C10| processing leaves every other key alone", S0.items.same_but(k, T.items))
    if kind.startswith("requeue"):
        eng.check("C13| after the requeue error the entry is pending again", z3.And(T.items.has(k), T.items.get(k) == x))
        eng.check("C13| and queued again at the end", N.queue.appended(k, T.queue))
        eng.cover("requeued")
    else:
        eng.check("C10| what was handed out is not pending any more", z3.And(
            z3.Not(T.items.has(k)), S0.queue.popped(k, T.queue)))
    if kind == "cancelled":
        eng.check("C13| a cancelled processing cancels the pop", z3.BoolVal(out.cancelled()))
        eng.check("C12| a processing that was cut short does not count", T.count == S0.count)
        eng.cover("cancelled")
        return
    eng.check("C12| an entry handed out counts as processed once its processing has ended",
              T.count == z3.If(S0.count > 0, S0.count - 1, S0.count))
    if kind in ("ok", "requeue"):
        no_raise(out, "C13| pop raises nothing when processing succeeded or asked for a requeue")
        eng.check("C10| pop returns the entry", eng.enc(out.value) == x)
    else:
        want = cause if kind == "requeue with cause" else other
        ok = isinstance(out.exc, f.ProcessError)
        eng.check("C13| pop reports a failed processing as ProcessError", z3.BoolVal(ok), str(out.exc))
        if ok:
            eng.check("C13| the ProcessError carries the entry and the exception as cause", z3.And(
                z3.BoolVal(out.exc.__cause__ is want), eng.enc(out.exc.item) == x))
        eng.cover("failed")
    eng.cover("popped")


@contract("delta.DeltaFIFO.close", "C13", ["cache.delta_fifo:DeltaFIFO.close"])
def close(eng):
    c = build(eng)
    c.M.start()
    out = run(c.d.close)
    no_raise(out, "C13| close raises nothing")
    c.M.finish()
    for S, T in c.M.segments:
        eng.check("C13| closing takes nothing from the queue", z3.And(same(S, T), S.populated == T.populated))
    T = c.M.segments[-1][1]
    eng.check("C13| after close the queue is closed and nobody waits unnotified", z3.And(T.closed, T.waiting == 0))
    eng.cover("closed")


@contract("delta.DeltaFIFO.has_synced", "C12", ["cache.delta_fifo:DeltaFIFO.has_synced"])
def has_synced(eng):
    c = build(eng)
    S = c.M.start()
    out = run(c.d.has_synced)
    no_raise(out, "C12| has_synced raises nothing")
    c.M.finish()
    v = z3.BoolVal(out.value) if isinstance(out.value, bool) else term(out.value)
    eng.check("C12| has_synced is true exactly when the queue was populated and its first population is processed",
              v == z3.And(S.populated, S.count == 0))
    eng.cover("asked")


@contract("delta.DeltaFIFO.read", "C10", ["cache.delta_fifo:DeltaFIFO.list_keys", "cache.delta_fifo:DeltaFIFO.get",
                                          "cache.delta_fifo:DeltaFIFO.get_by_key", "cache.delta_fifo:_copy_deltas"])
def read(eng):
    from contracts.store import listing
    c = build(eng)
    op = ("list_keys", "get", "get_by_key")[eng.choose(3)]
    o = an_object(c) if op == "get" else eng.caller_val("key")
    S = c.M.start()
    out = run(getattr(c.d, op), *([o] if op.startswith("get") else []))
    c.M.finish()
    eng.check(f"C10| {op} changes nothing", same(*c.M.segments[-1]))
    if not out.ok:
        eng.check("C10| only get fails, when the key function does", z3.And(z3.BoolVal(op == "get"), fails(c, o.expr)), str(out.exc))
        return
    if op == "list_keys":
        listing(eng, op, out.value, S.items, False, "C10")
    else:
        k = c.t.key(o.expr) if op == "get" else o.expr
        r = out.value
        if r is None:
            eng.check(f"C10| {op} returns nothing only when nothing is pending", z3.Not(S.items.has(k)))
            eng.cover("none")
            return
        if not isinstance(r, MList):
            raise Unsupported(f"{op} returns another form")
        p = eng.fresh("p", I)
        eng.check(f"C10| {op} returns exactly the pending changes", z3.And(S.items.has(k), r.zlen() == S.items.n(k), z3.Implies(
            z3.And(0 <= p, p < S.items.n(k)), z3.Select(r.el, r.lo + p) == S.items.at(k, p))))
        eng.check(f"C10| {op} gives out a copy", V.gen(r._pv_ref) > V.gen(S.items.get(k)))
    eng.cover("read")


@contract("delta.DeltaFIFO.list", "C10", ["cache.delta_fifo:DeltaFIFO.list"])
def list_(eng):
    c = build(eng)
    S = c.M.start()
    out = run(c.d.list)
    no_raise(out, "C10| list raises nothing")
    c.M.finish()
    eng.check("C10| list changes nothing", same(*c.M.segments[-1]))
    r = out.value
    if not isinstance(r, MList):
        raise Unsupported("list returns another form")
    X = S.items
    eng.check("C10| list has one object per pending key", r.zlen() == X.size)
    i = eng.fresh("i", I)
    x = eng.fresh("x", V)
    eng.assume(z3.And(r.lo <= i, i < r.hi, x == z3.Select(r.el, i)))
    eng.check("C10| list returns only newest objects of pending keys", z3.Not(z3.ForAll([k_], z3.Not(z3.And(
        X.has(k_), x == V.f1(X.last(k_)))), patterns=[X.has(k_)])))
    k = eng.fresh("mk", V)
    eng.assume(X.has(k))
    j = z3.Int("j!ls")
    eng.check("C10| list returns the newest object of every pending key", z3.Not(z3.ForAll([j], z3.Implies(
        z3.And(r.lo <= j, j < r.hi), z3.Select(r.el, j) != V.f1(X.last(k))), patterns=[z3.Select(r.el, j)])))
    eng.cover("read")


SEEN = z3.Function("seen", V, I, z3.BoolSort())      # the key is that of one of the first i listed objects
OBJ = z3.Function("seen_obj", V, I, V)               # the last of those objects
NEW = z3.Function("seen_known", V, I, z3.BoolSort())  # the key is one of the first i known keys


class Listed:
    """The listed objects; SEEN and OBJ are defined by recursion over the list, stated at the positions in use."""

    def __init__(self, c, lst):
        self.c, self.lst, self.el, self.hi = c, lst, lst.el, lst.hi
        self.done = set()
        c.eng.assume(z3.ForAll([k_], z3.Not(SEEN(k_, 0)), patterns=[SEEN(k_, 0)]))

    def step(self, i):
        i = z3.simplify(i)
        if z3.is_int_value(i) or i.eq(self.hi) or i.get_id() in self.done or not z3.is_const(i):
            return
        self.done.add(i.get_id())
        eng, x, j = self.c.eng, z3.Select(self.el, i), z3.simplify(i + 1)
        k = eng.fresh("listed_key", V)
        t = self.c.t
        eng.assume(z3.And(k == t.key(x), x != NONE, z3.Implies(V.is_rec(x), t.is_tomb(x)), z3.Not(inst_deltas(self.c)(x))))
        eng.assume(z3.ForAll([k_], SEEN(k_, j) == z3.Or(SEEN(k_, i), k_ == k), patterns=[SEEN(k_, j)]))
        eng.assume(z3.ForAll([k_], SEEN(k_, j) == z3.Or(SEEN(k_, i), k_ == k), patterns=[SEEN(k_, i)]))
        eng.assume(z3.ForAll([k_], OBJ(k_, j) == z3.If(k_ == k, x, OBJ(k_, i)), patterns=[OBJ(k_, j)]))
        eng.assume(SEEN(k, j))


class KnownKeys:
    def __init__(self, c):
        self.c = c
        self.done = set()
        c.eng.assume(z3.ForAll([k_], z3.Not(NEW(k_, 0)), patterns=[NEW(k_, 0)]))

    def step(self, i):
        i = z3.simplify(i)
        if z3.is_int_value(i) or not z3.is_const(i) or i.get_id() in self.done:
            return
        self.done.add(i.get_id())
        j, x = z3.simplify(i + 1), z3.Select(self.c.known.keys.el, i)
        for pat in (NEW(k_, i), NEW(k_, j)):
            self.c.eng.assume(z3.ForAll([k_], NEW(k_, j) == z3.Or(NEW(k_, i), k_ == x), patterns=[pat]))
        self.c.eng.assume(NEW(x, j))


def inst_deltas(c):
    from pydv.core import inst_pred
    return inst_pred(c.m.Deltas)


def synced(t, X, Y, k, obj):
    """X -> Y: syncs were queued for a listed key, the last one of `obj`."""
    n = z3.If(X.has(k), X.n(k), 0)
    return z3.And(
        Y.has(k), Y.n(k) > n, V.f0(Y.last(k)) == t.SYNC, obj(V.f1(Y.last(k))), z3.ForAll([p_], z3.Implies(
            z3.And(0 <= p_, p_ < Y.n(k)), z3.If(p_ < n, Y.at(k, p_) == X.at(k, p_), V.f0(Y.at(k, p_)) == t.SYNC)),
            patterns=[Y.at(k, p_)]))


def deleted(t, X, Y, k):
    """X -> Y: a pending key that is not listed ends in exactly one deletion."""
    o = V.f1(X.last(k))
    last = z3.If(t.is_tomb(o), V.f1(o), o)
    tomb = t.delta(t.DELETED, t.tomb(k, last))
    dd = ends_deleted(t, X, k)
    m = z3.If(dd, X.n(k) - 1, X.n(k))
    return z3.And(Y.has(k), Y.n(k) == m + 1, z3.Or(Y.last(k) == tomb, z3.And(dd, z3.Not(t.is_tomb(o)), Y.last(k) == X.last(k))),
                  z3.ForAll([p_], z3.Implies(z3.And(0 <= p_, p_ < m), Y.at(k, p_) == X.at(k, p_)), patterns=[Y.at(k, p_)]))


def the_set(ctx):
    ss = [v for v in (ctx.env(n) for n in list(ctx.loop.frame.f_locals)) if isinstance(v, MSet)]
    if len(ss) != 1:
        raise Unsupported("replace keeps the listed keys in another form")
    return ss[0]


def the_count(ctx, *names):
    """The integer the loop counts deletions with."""
    for n in list(ctx.loop.frame.f_locals):
        v = ctx.env(n)
        if type(v).__name__ == "SymInt" or (isinstance(v, int) and not isinstance(v, bool)):
            return term(v)
    raise Unsupported("replace counts its deletions in another form")


@contract("delta.DeltaFIFO.replace", "C10 C11 C12", ["cache.delta_fifo:DeltaFIFO.replace",
                                                     "cache.delta_fifo:DeltaFIFO._queue_action_locked",
                                                     "cache.delta_fifo:_dedup_deltas", "cache.delta_fifo:_is_dup",
                                                     "cache.delta_fifo:DeltaFIFO.key_of"])
def replace(eng):
    c = build(eng, "any")
    t, d, M = c.t, c.d, c.M
    lst = seq(eng)
    L = Listed(c, lst)
    hi = lst.hi
    if c.known is not None:
        kk = KnownKeys(c)
        kn = c.known.keys.hi

    def grown(S, T):
        """The queue keeps what it had, in order."""
        i = z3.Int("i!gr")
        return z3.And(T.queue.len() >= S.queue.len(), T.queue.lo == S.queue.lo, z3.ForAll([i], z3.Implies(
            z3.And(S.queue.lo <= i, i < S.queue.hi), z3.Select(S.queue.el, i) == z3.Select(T.queue.el, i)),
            patterns=[z3.Select(T.queue.el, i)]))

    def common(S, T):
        return shape_inv(t, T) + [
            ("C10| keys that were queued keep their places", grown(S, T)),
            ("C13| consumers are woken", z3.And(T.waiting >= 0, T.woken >= 0, z3.Implies(
                T.waiting > 0, T.queue.len() <= T.woken), z3.Implies(T.closed, T.waiting == 0))),
            ("C12| the count is set at the end", T.count == S.count)]

    def lists(S, T, i, keys):
        """State after the first i listed objects were queued."""
        X, Y = S.items, T.items
        return [
            ("C11| the keys seen are those of the list", z3.ForAll([k_], keys.has(k_) == SEEN(k_, i), patterns=[keys.has(k_)])),
            ("C11| the keys seen are those of the list.", z3.ForAll([k_], keys.has(k_) == SEEN(k_, i), patterns=[SEEN(k_, i)])),
            ("C11| every listed object seen is queued as a sync", z3.ForAll([k_], z3.Implies(
                SEEN(k_, i), synced(t, X, Y, k_, lambda o: o == OBJ(k_, i))), patterns=[SEEN(k_, i)])),
        ]

    def both(name, X, Y, f):
        return [(name, z3.ForAll([k_], f(k_), patterns=[Y.has(k_)])), (name + ".", z3.ForAll([k_], f(k_), patterns=[X.has(k_)]))]

    def inv1(ctx):
        S, T = M.seg, M.snap()
        keys = SetC(the_set(ctx))
        X, Y = S.items, T.items
        L.step(ctx.i)
        return common(S, T) + lists(S, T, ctx.i, keys) + both(
            "C11| keys not listed so far are untouched", X, Y, lambda k: z3.Implies(z3.Not(SEEN(k, ctx.i)), X.same_at(k, Y))) + [
            ("C12| in a first population the pending keys are those listed", z3.Implies(X.size == 0, Y.size == keys.size)),
        ]

    def inv2(ctx):
        S, T = M.seg, M.snap()
        keys = SetC(the_set(ctx))
        X, Y = S.items, T.items
        if not hasattr(ctx.src, "pos"):
            if not hasattr(ctx.src, "setup"):
                raise Unsupported("replace walks over the pending keys in another form")
            ctx.src.setup()
        pos = ctx.src.pos
        n = the_count(ctx)
        return common(S, T) + lists(S, T, hi, keys) + [
            ("C11| pending keys seen that are not listed end in a deletion", z3.ForAll([k_], z3.Implies(
                z3.And(X.has(k_), z3.Not(SEEN(k_, hi)), pos(k_) < ctx.i), deleted(t, X, Y, k_)), patterns=[X.has(k_)])),
        ] + both("C11| the others are untouched", X, Y, lambda k: z3.Implies(
            z3.And(z3.Not(SEEN(k, hi)), z3.Or(z3.Not(X.has(k)), pos(k) >= ctx.i)), X.same_at(k, Y))) + [
            ("C12| in a first population the pending keys are those listed", z3.Implies(X.size == 0, z3.And(
                Y.size == keys.size, n == 0))),
        ]

    def inv3(ctx):
        S, T = M.seg, M.snap()
        keys = SetC(the_set(ctx))
        X, Y = S.items, T.items
        n = the_count(ctx)
        kk.step(ctx.i)
        un = lambda k: z3.And(z3.Not(SEEN(k, hi)), z3.Not(X.has(k)))
        return common(S, T) + lists(S, T, hi, keys) + [
            ("C11| pending keys that are not listed end in a deletion", z3.ForAll([k_], z3.Implies(
                z3.And(X.has(k_), z3.Not(SEEN(k_, hi))), deleted(t, X, Y, k_)), patterns=[X.has(k_)])),
            ("C11| known keys seen that are neither listed nor pending get a tombstone", z3.ForAll([k_], z3.Implies(
                z3.And(un(k_), NEW(k_, ctx.i)), tombstone(k_, Y)), patterns=[NEW(k_, ctx.i)])),
            ("C11| no other key becomes pending", z3.ForAll([k_], z3.Implies(z3.And(
                un(k_), z3.Not(NEW(k_, ctx.i))), z3.Not(Y.has(k_))), patterns=[Y.has(k_)])),
            ("C12| in a first population the deletions are counted", z3.Implies(X.size == 0, z3.And(
                n >= 0, Y.size == keys.size + n))),
        ]

    def tombstone(k, Y):
        o = V.f1(V.f1(Y.at(k, 0)))
        return z3.And(Y.has(k), Y.n(k) == 1, Y.at(k, 0) == t.delta(t.DELETED, t.tomb(k, o)),
                      o == z3.If(LOOKUP_FAILS(k), NONE, STORED(k)))

    eng.loop_specs.append(LoopSpec(name="listed objects", over=lst, inv=inv1))
    eng.loop_specs.append(LoopSpec(name="pending keys", over=d._items, inv=inv2))
    if c.known is not None:
        eng.loop_specs.append(LoopSpec(name="known keys", over=c.known.keys, inv=inv3))
    M.start()
    out = run(d.replace, lst, eng.caller_val("rv"))
    if not out.ok:
        eng.check("C11| replace fails only when the key function does", z3.BoolVal(isinstance(out.exc, KeyFuncError)), str(out.exc))
        eng.end_path()
    M.finish()
    S, T = last_segment(M, "C11")
    X, Y = S.items, T.items
    k = eng.fresh("k", V)
    sk = eng.fresh("is_listed", z3.BoolSort())
    eng.assume(sk == SEEN(k, hi))
    eng.check("C11| every listed object is queued as a sync after what was pending, unless its deletion is the newest",
              z3.Implies(sk, synced(t, X, Y, k, lambda o: o == OBJ(k, hi))))
    eng.check("C11| a pending key that is not listed ends in exactly one deletion", z3.Implies(
        z3.And(X.has(k), z3.Not(sk)), deleted(t, X, Y, k)))
    other = z3.And(z3.Not(sk), z3.Not(X.has(k)))
    if c.known is not None:
        nk = eng.fresh("is_known", z3.BoolSort())
        eng.assume(nk == NEW(k, kn))
        eng.check("C11| a known key that is neither listed nor pending gets a tombstone with the object stored", z3.Implies(
            z3.And(other, nk), tombstone(k, Y)))
        other = z3.And(other, z3.Not(nk))
    eng.check("C11| other keys are untouched", z3.Implies(other, z3.Not(Y.has(k))))
    eng.check("C10| keys that were queued keep their places", grown(S, T))
    eng.check("C12| a first population is counted, a later one is not", z3.And(T.populated, z3.If(
        S.populated, T.count == S.count, T.count == T.queue.len())))
    eng.cover("replaced")


class SetC:
    def __init__(self, s):
        self.m, self.size = const(s.has), s.zsize

    def has(self, k):
        return z3.Select(self.m, k)


@contract("delta.DeltaFIFO.resync", "C11 C12", ["cache.delta_fifo:DeltaFIFO.resync", "cache.delta_fifo:DeltaFIFO._sync_key_locked"])
def resync(eng):
    c = build(eng, "any")
    t, d, M = c.t, c.d, c.M
    if c.known is not None:
        kk, kn = KnownKeys(c), c.known.keys.hi
        # what is stored under a key has that key, and is an object
        eng.assume(z3.ForAll([k_], z3.Implies(STORED(k_) != NONE, z3.And(
            KEY(STORED(k_)) == k_, z3.Not(KEYFAIL(STORED(k_))), z3.Not(V.is_rec(STORED(k_))),
            z3.Not(inst_deltas(c)(STORED(k_))))), patterns=[STORED(k_)]))

    def due(X, k, i):
        return z3.And(NEW(k, i), z3.Not(X.has(k)), z3.Not(LOOKUP_FAILS(k)), STORED(k) != NONE)

    def sync(k, Y):
        return z3.And(Y.has(k), Y.n(k) == 1, Y.at(k, 0) == t.delta(t.SYNC, STORED(k)))

    def grown(S, T):
        i = z3.Int("i!gr")
        return z3.And(T.queue.len() >= S.queue.len(), T.queue.lo == S.queue.lo, z3.ForAll([i], z3.Implies(
            z3.And(S.queue.lo <= i, i < S.queue.hi), z3.Select(S.queue.el, i) == z3.Select(T.queue.el, i)),
            patterns=[z3.Select(T.queue.el, i)]))

    def inv_(ctx):
        S, T = M.seg, M.snap()
        X, Y = S.items, T.items
        kk.step(ctx.i)
        return shape_inv(t, T) + [
            ("C11| keys that were queued keep their places", grown(S, T)),
            ("C13| consumers are woken", z3.And(T.waiting >= 0, T.woken >= 0, z3.Implies(
                T.waiting > 0, T.queue.len() <= T.woken), z3.Implies(T.closed, T.waiting == 0))),
            ("C11| known objects seen without a pending change get a sync", z3.ForAll([k_], z3.Implies(
                due(X, k_, ctx.i), sync(k_, Y)), patterns=[NEW(k_, ctx.i)])),
            ("C11| no other key is touched", z3.ForAll([k_], z3.Implies(z3.Not(
                due(X, k_, ctx.i)), X.same_at(k_, Y)), patterns=[Y.has(k_)])),
            ("C11| no other key is touched.", z3.ForAll([k_], z3.Implies(z3.Not(
                due(X, k_, ctx.i)), X.same_at(k_, Y)), patterns=[X.has(k_)])),
        ]
    if c.known is not None:
        eng.loop_specs.append(LoopSpec(name="known keys", over=c.known.keys, inv=inv_))
    M.start()
    M.after = lambda tag, prim, T, S: eng.assume(S.populated)      # nobody resyncs a queue that has never been filled
    eng.assume(M.seg.populated)
    out = run(d.resync)
    no_raise(out, "C11| resync raises nothing")
    M.finish()
    S, T = last_segment(M, "C11")
    eng.check("C12| resync leaves the count of the first population", T.count == S.count)
    if c.known is None:
        eng.check("C11| without known objects resync does nothing", same(S, T))
        return
    X, Y = S.items, T.items
    k = eng.fresh("k", V)
    nk = eng.fresh("is_known", z3.BoolSort())
    eng.assume(nk == NEW(k, kn))
    eng.check("C11| resync queues a sync of every known object without a pending change", z3.Implies(due(X, k, kn), sync(k, Y)))
    eng.check("C11| resync touches nothing else", z3.Implies(z3.Not(due(X, k, kn)), X.same_at(k, Y)))
    eng.check("C10| keys that were queued keep their places", grown(S, T))
    eng.cover("resynced")
