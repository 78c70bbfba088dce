"""Contracts of the event sources and handlers (C26)."""
import z3

from contracts.identity import Obj, hooks
from pydv.containers import MList
from pydv.core import NONE, SymBool, V, inst_pred
from pydv.spec import LoopSpec, contract, mod, need, no_raise, run

ACC = z3.Function("accepts", V, z3.IntSort(), z3.BoolSort())
KINDS = {"create": 0, "update": 1, "delete": 2}


class Queue:
    """The controller's queue: records what is added."""
    _pv_model = True

    def __init__(self, eng):
        self.eng, self.added = eng, []

    async def add(self, item):
        self.added.append(item)
        self.eng.suspend("queue.add")


class Recorder:
    """A handler supplied by the user: records the events it gets."""
    _pv_model = True

    def __init__(self):
        self.calls = []

    async def create(self, event, queue):
        self.calls.append(("create", event, queue))

    async def update(self, event, queue):
        self.calls.append(("update", event, queue))

    async def delete(self, event, queue):
        self.calls.append(("delete", event, queue))


def predicates(eng, seen):
    """Any number of predicates, each with its own arbitrary verdict per kind of event."""
    lst = MList()
    eng.havoc_container(lst)
    lst._pv_elem = "val"
    old = eng.hooks.get("getattr")

    def getattr_(v, name):
        if name in KINDS:
            def ask(event):
                seen(name, event)
                return SymBool(ACC(v.expr, KINDS[name]))
            return ask
        return old(v, name) if old else NotImplemented
    eng.hooks["getattr"] = getattr_
    return lst


def all_accept(lst, kind):
    i = z3.Int("i!acc")
    return z3.ForAll([i], z3.Implies(z3.And(lst.lo <= i, i < lst.hi), ACC(z3.Select(lst.el, i), KINDS[kind])),
                     patterns=[z3.Select(lst.el, i)])


def pred_loop(eng, lst, kind):
    def inv(ctx):
        i = z3.Int("i!pl")
        return [("C26| the predicates asked so far accept", z3.ForAll([i], z3.Implies(
            z3.And(lst.lo <= i, i < lst.lo + ctx.i), ACC(z3.Select(lst.el, i), KINDS[kind])),
            patterns=[z3.Select(lst.el, i)]))]
    eng.loop_specs.append(LoopSpec(over=lst, inv=inv, name="ask the predicates"))


def check_meta(eng, o, m, what):
    out = run(lambda: (m.name, m.namespace))
    no_raise(out, f"C26| {what}: the event's metadata can be read")
    eng.check(f"C26| {what}: the event's metadata is the object's",
              z3.And(eng.enc(out.value[0]) == o.namev, eng.enc(out.value[1]) == o.nsv))


def make(eng, kind, form):
    """The source's event handler, the objects of the event, the call."""
    src, df = mod("controller.source"), mod("cache.delta_fifo")
    need(src, "EventHandler")
    objs = [Obj(eng, form, "old"), Obj(eng, form, "new")] if kind == "update" else [Obj(eng, form, "obj")]
    for o in objs:
        eng.assume(z3.Not(V.is_rec(o.v.expr)))

    def seen(name, event):
        eng.check("C26| predicates are asked about this kind of event", z3.BoolVal(name == kind))
        check_event(eng, kind, event, objs, "predicate")
    return src, df, objs, seen


def check_event(eng, kind, event, objs, what):
    ev = mod("controller.event")
    if kind == "update":
        ok = isinstance(event, ev.UpdateEvent)
    else:
        ok = isinstance(event, ev.CreateEvent if kind == "create" else ev.DeleteEvent)
    if not ok:
        eng.fail(f"C26| {what}: the event has the right kind")
        eng.end_path()
    if kind == "update":
        eng.check(f"C26| {what}: the event carries both objects", z3.And(
            eng.enc(event.object_old) == objs[0].v.expr, eng.enc(event.object_new) == objs[1].v.expr))
        check_meta(eng, objs[0], event.meta_old, what)
        check_meta(eng, objs[1], event.meta_new, what)
    else:
        eng.check(f"C26| {what}: the event carries the object", eng.enc(event.object) == objs[0].v.expr)
        check_meta(eng, objs[0], event.meta, what)


def deliver(h, kind, objs, df, tomb):
    if kind == "create":
        return run(h.on_add, objs[0].v)
    if kind == "update":
        return run(h.on_update, objs[0].v, objs[1].v)
    if tomb:
        return run(h.on_delete, df.DeletedFinalStateUnknown(tomb, objs[0].v))
    return run(h.on_delete, objs[0].v)


FUNCS = {"create": "on_add", "update": "on_update", "delete": "on_delete"}
for KIND in KINDS:
    for FORM in ("typed", "dict"):
        for TOMB in ((False, True) if KIND == "delete" else (False,)):
            def _mk(kind, form, tomb):
                label = f"{kind}.{form}" + (".tombstone" if tomb else "")

                @contract(f"handlers.event.{label}", "C26", [f"controller.source:EventHandler.{FUNCS[kind]}",
                                                             f"controller.handler:EnqueueRequestForObject.{kind}"])
                def enqueue(eng):
                    src, df, objs, seen = make(eng, kind, form)
                    hd, rec = mod("controller.handler"), mod("controller.reconcile")
                    need(hd, "EnqueueRequestForObject")
                    preds = predicates(eng, seen)
                    pred_loop(eng, preds, kind)
                    q = Queue(eng)
                    h = src.EventHandler(hd.EnqueueRequestForObject(), q, preds)
                    out = deliver(h, kind, objs, df, eng.str("key") if tomb else None)
                    no_raise(out, "C26| handling an event raises nothing")
                    want = []
                    for o in objs:
                        want.append((o.nsv, o.namev))
                    if not q.added:
                        eng.check("C26| an event that every predicate accepts is enqueued",
                                  z3.Not(all_accept(preds, kind)))
                        eng.cover("rejected")
                        return
                    eng.check("C26| an event that some predicate rejects enqueues nothing", all_accept(preds, kind))
                    if len(q.added) != len(want) or not all(isinstance(r, rec.Request) for r in q.added):
                        eng.fail("C26| one request per object of the event", str(len(q.added)))
                        return
                    for r, (ns, nm) in zip(q.added, want):
                        eng.check("C26| the request has the object's namespace and name", z3.And(
                            eng.enc(r.namespaced_name.namespace) == ns, eng.enc(r.namespaced_name.name) == nm))
                    eng.cover("enqueued")

                @contract(f"handlers.custom.{label}", "C26", [f"controller.source:EventHandler.{FUNCS[kind]}"])
                def custom(eng):
                    src, df, objs, seen = make(eng, kind, form)
                    preds = predicates(eng, seen)
                    pred_loop(eng, preds, kind)
                    rec, q = Recorder(), Queue(eng)
                    h = src.EventHandler(rec, q, preds)
                    out = deliver(h, kind, objs, df, eng.str("key") if tomb else None)
                    no_raise(out, "C26| handling an event raises nothing")
                    if not rec.calls:
                        eng.check("C26| an accepted event reaches the handler", z3.Not(all_accept(preds, kind)))
                        return
                    eng.check("C26| a rejected event does not reach the handler", all_accept(preds, kind))
                    if len(rec.calls) != 1 or rec.calls[0][0] != kind:
                        eng.fail("C26| the handler gets the event once, as what it is")
                        return
                    eng.check("C26| the handler gets the controller's queue", z3.BoolVal(rec.calls[0][2] is q))
                    check_event(eng, kind, rec.calls[0][1], objs, "handler")
                    eng.cover("delivered")
            _mk(KIND, FORM, TOMB)


@contract("handlers.no_metadata", "C26", ["controller.source:EventHandler.on_add",
                                          "controller.source:EventHandler.on_update",
                                          "controller.source:EventHandler.on_delete"])
def no_metadata(eng):
    src, df, hd = mod("controller.source"), mod("cache.delta_fifo"), mod("controller.handler")
    hooks(eng)
    good = Obj(eng, "dict" if eng.choose(2) else "typed", "good")
    v = eng.caller_val("thing")
    e = v.expr
    eng.assume(z3.Or(e == NONE, z3.And(V.is_opq(e), z3.If(
        inst_pred(dict)(e), z3.Not(eng.heap.read("?a:[metadata]", e)), z3.Not(eng.heap.read("?a:metadata", e))))))
    if eng.fork(e == NONE):
        v = None
    q = Queue(eng)
    h = src.EventHandler(hd.EnqueueRequestForObject(), q, ())
    k = eng.choose(5)
    if k == 0:
        out = run(h.on_add, v)
    elif k == 1:
        out = run(h.on_update, v, good.v)
    elif k == 2:
        out = run(h.on_update, good.v, v)
    elif k == 3:
        out = run(h.on_delete, v)
    else:
        out = run(h.on_delete, df.DeletedFinalStateUnknown(eng.str("key"), v))
    no_raise(out, "C26| an object without metadata raises nothing")
    eng.check("C26| an object without metadata enqueues nothing", z3.BoolVal(not q.added))
    eng.cover("no metadata")


@contract("handlers.enqueue.no_meta", "C26", ["controller.handler:EnqueueRequestForObject"])
def enqueue_no_meta(eng):
    """The handler itself, given an event without metadata."""
    hd, ev, rec = mod("controller.handler"), mod("controller.event"), mod("controller.reconcile")
    meta = mod("api.meta")
    o = Obj(eng, "dict" if eng.choose(2) else "typed")
    acc = meta.accessor(o.v)
    q, h = Queue(eng), hd.EnqueueRequestForObject()
    k = eng.choose(4)
    if k == 0:
        out = run(h.create, ev.CreateEvent(None, None), q)
    elif k == 1:
        out = run(h.delete, ev.DeleteEvent(None, None), q)
    elif k == 2:
        out = run(h.update, ev.UpdateEvent(meta_old=None, object_old=None, meta_new=acc, object_new=o.v), q)
    else:
        out = run(h.update, ev.UpdateEvent(meta_old=acc, object_old=o.v, meta_new=None, object_new=None), q)
    no_raise(out, "C26| an event without metadata raises nothing")
    if k < 2:
        eng.check("C26| an event without metadata enqueues nothing", z3.BoolVal(not q.added))
    elif len(q.added) == 1 and isinstance(q.added[0], rec.Request):
        n = q.added[0].namespaced_name
        eng.check("C26| the object with metadata is enqueued", z3.And(
            eng.enc(n.namespace) == o.nsv, eng.enc(n.name) == o.namev))
    else:
        eng.fail("C26| the object with metadata is enqueued")
    eng.cover("no meta")


class Informer:
    _pv_model = True

    def __init__(self):
        self.handlers = []

    async def add_event_handler(self, h, *a, **k):
        self.handlers.append(h)


class Cache:
    _pv_model = True

    def __init__(self, informer):
        self.informer, self.asked = informer, []

    async def get_informer(self, t):
        self.asked.append(t)
        return self.informer


@contract("handlers.Kind.start", "C26", ["controller.source:Kind.start", "controller.source:Kind.inject_cache"])
def kind_start(eng):
    src, ev = mod("controller.source"), mod("controller.event")
    need(src, "Kind")
    t = eng.caller_val("type", not_none=True)
    inf = Informer()
    c, other = Cache(inf), Cache(None)
    k = src.Kind(t)
    rec, q = Recorder(), Queue(eng)
    out = run(k.start, rec, q)
    eng.check("C26| starting a source without a cache is refused", z3.BoolVal(isinstance(out.exc, Exception)))
    k.inject_cache(c)
    k.inject_cache(other)
    o = Obj(eng, "dict" if eng.choose(2) else "typed")
    n = eng.choose(3)
    verdict = [eng.bool("verdict") for _ in range(n)]

    class Pred:
        _pv_model = True

        def __init__(self, b):
            self.b = b

        def create(self, event):
            return self.b
    out = run(k.start, rec, q, *[Pred(b) for b in verdict])
    no_raise(out, "C26| starting a source raises nothing")
    eng.check("C26| the informer of the source's type is asked for, once", z3.BoolVal(
        len(c.asked) == 1 and not other.asked and c.asked[0] is t))
    if len(inf.handlers) != 1:
        eng.fail("C26| one handler is registered with the informer")
        return
    out = run(inf.handlers[0].on_add, o.v)
    no_raise(out, "C26| handling an event raises nothing")
    want = z3.And([b.expr for b in verdict] + [z3.BoolVal(True)])
    if rec.calls:
        eng.check("C26| an event some predicate rejects is not delivered", want)
        eng.check("C26| delivered with the queue of start", z3.BoolVal(rec.calls[0][2] is q and len(rec.calls) == 1))
    else:
        eng.check("C26| an event all predicates accept is delivered", z3.Not(want))
    eng.cover("started")
