"""Contracts of cache/reflector.py (C18, C19)."""
import asyncio
import inspect

import z3

from contracts.informer import CNT, FreeQueue, GhostSeq
from pydv.aio import run_coro, suspending
from pydv.containers import MDict
from pydv.core import E, Unsupported, V
from pydv.spec import LoopSpec, Stub, contract, failure, instance, mod, need, patched, run, setf, term, view

RF = "cache.reflector"


class Store(Stub):
    """The store a reflector feeds: every operation may fail."""

    def __init__(self, eng, note):
        self.eng, self.note = eng, note

    async def _op(self, name, *args):
        self.note(name, *args)
        self.eng.suspend("store." + name)
        if self.eng.choose(2) == 1:
            raise failure(self.eng, "store")

    async def add(self, obj):
        await self._op("add", obj)

    async def update(self, obj):
        await self._op("update", obj)

    async def delete(self, obj):
        await self._op("delete", obj)

    async def replace(self, items, rv):
        await self._op("replace", items, rv)

    async def resync(self):
        await self._op("resync")


class Watch(Stub):
    """A watch: an asynchronous context manager over its events."""

    def __init__(self, eng, nxt=None):
        self.eng, self.nxt, self.entered, self.left = eng, nxt, 0, 0

    async def __aenter__(self):
        self.entered += 1
        return self

    async def __aexit__(self, *a):
        self.left += 1

    def __aiter__(self):
        return self

    async def __anext__(self):
        return await self.nxt()

    async def stop(self):
        self.left += 1


class Clock(Stub):
    """Time only moves on; one timer at a time."""

    def __init__(self, eng):
        self.eng = eng
        self.timer = Timer(eng)

    def now(self):
        t = self.eng.real("now")
        last = self.eng.ghost.get("now")
        if last is not None:
            self.eng.assume(t.expr >= last)
        self.eng.ghost["now"] = t.expr
        return t

    def since(self, t):
        return self.now() - t

    def new_timer(self, d):
        self.eng.check("C16,C19| a new resync timer is made only when the last one is stopped", z3.BoolVal(
            not self.timer.live))
        self.timer.live, self.timer.fired, self.timer.d = True, False, d
        return self.timer


class Timer(Stub):
    """The timer in use.  State other than its being live is forgotten by nobody: it is pinned at loop heads."""

    def __init__(self, eng):
        self.eng, self.d, self.live, self.fired = eng, None, False, False
        self.stop = Stop(self)
        self.queue = FreeQueue(eng, self.fire, lambda v: None)

    def fire(self):
        if not self.live or self.fired:
            self.eng.end_path()           # a stopped timer does not fire, a timer fires once
        self.fired = True
        return self.eng.val("tick")

    def c(self):
        return self.queue


class Stop(Stub):
    def __init__(self, timer):
        self.timer = timer

    def __call__(self):
        self.timer.live = False
        return True


class Endless(FreeQueue):
    """A queue without a bound: putting to it never fails."""

    def put_nowait(self, item):
        self.on_put(item)


class Kind(Stub):
    """An expected object."""


class Other(Stub):
    """An object of another type."""


def reflector(eng, expected="type", lw=None, note=None):
    m = mod(RF)
    need(m, "Reflector", "watch", "meta")
    ty = Kind if expected == "type" else None
    gvk = None
    if expected == "gvk":
        gvk = ty = mod("runtime.schema").GroupVersionKind("g", "v", "K")
    store = Store(eng, note or (lambda *a: None))
    period = eng.real("resync_period")
    eng.assume(period.expr >= 0)
    r = m.Reflector(lw or object(), ty, store, period)
    instance(r, ("should_resync", "_store", "_lister_watcher", "_period", "_resync_period", "_clock",
                 "_last_sync_resource_version", "_expected_type", "_expected_gvk", "_expected_type_name"))
    r._clock = Clock(eng)
    return m, r, store, gvk


RVK = "resource_version"


def version_of(options):
    if not isinstance(options, MDict):
        raise Unsupported("the options of a watch are not a dictionary")
    return view(options).get(enc(RVK))


def has_version(options):
    return view(options).has(enc(RVK))


def enc(x):
    return E().enc(x)


def no_leftovers(eng, tag, what):
    eng.check(f"{tag}| {what}", z3.BoolVal(all(t.state != "pending" or t.cancel_requested for t in eng.tasks)))


# ---------------------------------------------------------------- one watch
TYPES = ["ADDED", "MODIFIED", "DELETED", "BOOKMARK", "ERROR"]
WANT = {"ADDED": "add", "MODIFIED": "update", "DELETED": "delete", "BOOKMARK": None}


@contract("reflector.watch_handler", "C18 C19", [RF + ":Reflector._watch_handler", RF + ":Reflector._set_last_sync_resource_version",
                                                RF + ":Reflector.last_sync_resource_version"])
def watch_handler(eng):
    """The events of one watch, in order; its end, its errors and those of the resync."""
    st = {"event": None, "ops": [], "ended": None, "foreign": False, "about": None, "error": False}
    g = GhostSeq(eng)         # "taken": accepted events so far; "closed": the stream has ended
    expected = ["type", "gvk", "none"][eng.choose(3)]

    def note(name, *args):
        st["ops"].append((name, args))
    m, r, store, gvk = reflector(eng, expected, note=note)
    eng.check("C18| the events are those of the watch package", z3.BoolVal(all(
        getattr(m.watch.EventType, t) == t for t in TYPES)))

    def reported():
        return term(r.last_sync_resource_version())

    def fresh():
        """The next event, or None when the stream has ended."""
        judge()
        if eng.choose(2) == 1:
            g.set("closed", 1)
            return None
        ty = TYPES[eng.choose(5)]
        typed = eng.choose(2) == 0
        o = (MDict() if expected == "gvk" else Kind()) if typed else Other()
        rv = eng.caller_val("version", not_none=True)
        gvk_ok = expected != "gvk" or eng.choose(2) == 0
        meta_ok = eng.choose(2) == 0
        st["about"] = o, rv, gvk_ok, meta_ok
        right = (typed or expected == "none") and gvk_ok and meta_ok
        st["event"] = (ty, o, right)
        st["ops"] = []
        st["before"] = reported()
        st["opt_before"] = version_of(options)
        return {"type": ty, "object": o}

    def judge():
        """Before the next event is taken, and at the end: the last one had exactly its effect."""
        ev = st["event"]
        if ev is None:
            eng.check("C18| nothing is done to the store without an event", z3.BoolVal(not st["ops"]))
            return
        ty, o, right = ev
        st["event"] = None
        ops = st["ops"]
        st["ops"] = []
        if ty == "ERROR":
            eng.check("C19| an error event ends the watch", z3.BoolVal(False))
            eng.end_path()
        if not right:
            eng.check("C18| an event of another type, kind or without metadata has no effect", z3.BoolVal(not ops))
            eng.check("C18| and does not move the version", z3.And(
                reported() == st["before"], version_of(options) == st["opt_before"]))
            return
        want = WANT[ty]
        if want is None:
            eng.check("C18| a bookmark does nothing to the store", z3.BoolVal(not ops))
        else:
            eng.check("C18| an event is applied to the store once, by its kind", z3.BoolVal(
                len(ops) == 1 and ops[0][0] == want and ops[0][1][0] is o))
        eng.check("C18| the version reported is that of the last applied event", reported() == st["about"][1].expr)
        eng.check("C18| the next watch starts from the version of the last applied event",
                  version_of(options) == st["about"][1].expr)
        g.set("taken", g.get("taken") + 1)
        eng.cover("applied")
    options = run_dict(eng, m)
    v0 = eng.caller_val("rv0")
    options["resource_version"] = v0
    r._last_sync_resource_version = v0
    made = []

    def new_queue(*a, **kw):
        q = FreeQueue(eng, fresh, lambda v: None, lambda v: None)
        made.append(q)
        if len(made) > 1:
            raise Unsupported("more than one buffer of events")
        return q

    def settle(t):
        if inspect.iscoroutine(t.prim):
            if t is not eng.tasks[0]:
                raise Unsupported("more than one background coroutine")
            eng.check("C19| the stream is only waited for once it has ended", g.get("closed") == 1)
            if eng.choose(2) == 1:
                st["stream"] = True
                raise failure(eng, "stream")
            return None
        return NotImplemented
    eng.hooks["task"] = settle_exc(settle)
    errors = FreeQueue(eng, lambda: failure(eng, "resync"), lambda v: st.update(error=True))

    def about(o):
        if st["about"] is None or o is not st["about"][0]:
            raise Unsupported("metadata of something else than the event at hand")
        return st["about"]

    class Meta(Stub):
        def __init__(self, o):
            self.resource_version = about(o)[1]

    class TypeMeta(Stub):
        def __init__(self, o):
            self.group_version_kind = gvk if about(o)[2] else mod("runtime.schema").GroupVersionKind("g", "v", "L")

    def accessor(o):
        if not about(o)[3]:
            raise Exception("no metadata")
        return Meta(o)

    def inv(ctx):
        return [("C18| the version reported is the one the next watch starts from",
                 z3.And(has_version(options), reported() == version_of(options))),
                ("C18,C19| events applied are counted", z3.And(g.get("taken") >= 0, counts(ctx, g), g.get("closed") == 0))]

    def on_loop(loop, when):
        if when == "back":
            judge()
            from contracts.informer import no_stragglers
            no_stragglers(eng, *[t for t in eng.tasks[:2]])
    eng.on_loop = on_loop
    eng.loop_specs.append(LoopSpec(name="every event", kind="while", inv=inv))
    eng.cancel_enabled = eng.choose(2) == 1
    with patched(mod("api.meta"), accessor=accessor, type_accessor=TypeMeta), patched_asyncio(m, Queue=new_queue):
        out = run(r._watch_handler, Watch(eng), options, errors)
    no_leftovers(eng, "C19", "a watch that ends leaves no background task running")
    if eng.cancelled:
        eng.check("C19| a cancelled watch ends", z3.BoolVal(out.cancelled()))
        return
    if st["error"]:
        eng.check("C19| a failing resync ends the watch with an exception", z3.BoolVal(out.exc is not None))
        eng.cover("resync error")
        return
    ev = st["event"]
    if ev is not None and ev[0] == "ERROR":
        eng.check("C19| an error event ends the watch with an exception", z3.BoolVal(out.exc is not None))
        eng.check("C18| and is not applied to the store", z3.BoolVal(not st["ops"]))
        eng.cover("error event")
        return
    judge()
    eng.check("C19| a watch ends only when its stream did", g.get("closed") == 1)
    if st.get("stream"):
        eng.check("C19| a failing stream ends the watch with an exception", z3.BoolVal(out.exc is not None))
        eng.cover("stream failed")
        return
    if out.exc is not None:
        eng.check("C19| a stream that ends normally is no failure, unless it was empty", g.get("taken") == 0)
        eng.cover("empty")
    else:
        eng.cover("closed")


def counts(ctx, g):
    """Integer variables that were 0 before the loop count the events applied."""
    out = []
    for n, pre in ctx.loop.pre_locals.items():
        v = ctx.env(n)
        if type(pre) is int and pre == 0:
            out.append(term(v) == g.get("taken"))
    return z3.And(out) if out else z3.BoolVal(True)


def settle_exc(f):
    def h(t):
        try:
            return f(t)
        except Exception as e:
            if isinstance(e, Unsupported):
                raise
            t.exc = e
            return None
    return h


def run_dict(eng, m):
    return MDict()


def patched_asyncio(m, **kw):
    if not hasattr(m, "asyncio"):
        raise Unsupported("the module does not import asyncio")
    return patched(m.asyncio, **kw)


@contract("reflector.get_events", "C18 C19", [RF + ":Reflector._watch_handler.get_events"])
def get_events(eng):
    """The task that reads the stream passes on every event, in order, and always says when the stream has ended."""
    m, r, store, gvk = reflector(eng)
    g = GhostSeq(eng)
    st = {"ended": False}

    async def nxt():
        eng.suspend("stream")
        k = eng.choose(3)
        if k == 0:
            st["ended"] = True
            raise StopAsyncIteration
        if k == 1:
            st["ended"] = True
            raise failure(eng, "stream")
        e = eng.caller_val("event", not_none=True)
        eng.assume(V.is_opq(e.expr))
        g.append(e.expr)
        return e
    w = Watch(eng, nxt)

    def put(item):
        if item is None:
            eng.check("C18| the end is told after all events", g.get("given") == g.get("taken"))
            g.set("closed", g.get("closed") + 1)
            return
        eng.check("C18| events are passed on in order, each once", z3.And(
            g.get("given") < g.get("taken"), eng.enc(item) == g.at(g.get("given")), g.get("closed") == 0))
        g.set("given", g.get("given") + 1)

    def new_queue(*a, **kw):
        return (FreeQueue if a or kw else Endless)(eng, lambda: None, lambda v: None, put)
    eng.loop_specs.append(LoopSpec(name="read the stream", kind="async", inv=lambda ctx: [
        ("C18| every event read was passed on", z3.And(g.get("given") == g.get("taken"), g.get("closed") == 0))]))
    eng.cancel_enabled = eng.choose(2) == 1

    class Done(Exception):
        pass

    def spawn(t):
        if not inspect.iscoroutine(t.prim):
            return
        try:
            run_coro(t.prim)
            res = None
        except (Exception, asyncio.CancelledError) as e:
            if isinstance(e, Unsupported):
                raise
            res = e
        eng.check("C19| the end of the stream is always told, once", g.get("closed") == 1)
        if not eng.cancelled:
            eng.check("C18| every event read was passed on", g.get("given") == g.get("taken"))
            eng.check("C19| the stream is read to its end", z3.BoolVal(st["ended"]))
        eng.check("C19| the watch is left when its stream ended", z3.BoolVal(w.left == w.entered))
        eng.cover("read")
        eng.cancel_enabled = False
        raise Done
    eng.hooks["spawn"] = spawn
    o = run_dict(eng, m)
    o["resource_version"] = "1"
    with patched_asyncio(m, Queue=new_queue):
        out = run(r._watch_handler, w, o, FreeQueue(eng, lambda: None, lambda v: None))
    if not isinstance(out.exc, Done):
        raise Unsupported("the stream is not read in the background")


# ---------------------------------------------------------------- list and watch
class ListWatch(Stub):
    def __init__(self, eng, list_, watch):
        self.list, self.watch = list_, watch


@contract("reflector.list_and_watch", "C18 C19", [RF + ":Reflector.list_and_watch", RF + ":Reflector._sync_with"])
def list_and_watch(eng):
    """One list, then watches from the version reached, until something fails."""
    log = []
    items = [Kind(), Kind()][:eng.choose(3)]
    rv = eng.caller_val("list_version", not_none=True)
    holder = {"version": None, "failed": None, "watching": None}

    def fail(what, p=2):
        if eng.choose(p) == 1:
            holder["failed"] = what
            raise failure(eng, what)

    async def list_(options):
        eng.check("C18| one round lists once", z3.BoolVal("list" not in log))
        log.append("list")
        eng.suspend("list")
        fail("list")
        return L

    class L(Stub):
        pass
    L = L()

    async def watch_(options):
        eng.check("C18| the store holds the list before a watch starts", z3.BoolVal(log.count("replace") == 1))
        eng.check("C18| a watch starts from the version reached", version_of(options) == term(r.last_sync_resource_version()))
        eng.check("C18| the version reported is the list's, or the one the last watch reached",
                  term(r.last_sync_resource_version()) == current())
        eng.check("C19| no second watch while one is running", z3.BoolVal(holder["watching"] is None))
        eng.check("C19| nothing goes on after a failure", z3.BoolVal(holder["failed"] is None))
        eng.suspend("watch")
        fail("watch")
        holder["watching"] = w = Watch(eng)
        return w

    def current():
        return eng.heap.read(CNT, V.opq(z3.IntVal(910001)))

    def reach(v):
        eng.log_write(CNT, V.opq(z3.IntVal(910001)))
        eng.heap.write(CNT, V.opq(z3.IntVal(910001)), v)

    def note(name, *args):
        if name == "replace":
            eng.check("C18| the list replaces the store's content, once", z3.BoolVal(log == ["list"]))
            its = args[0]
            try:
                its = list(its)
            except TypeError:
                raise Unsupported("the items in another form")
            eng.check("C18| with the items listed", z3.BoolVal(len(its) == len(items) and all(a is b for a, b in zip(its, items))))
            eng.check("C18| and its version", term(args[1]) == rv.expr)
            log.append("replace")
            reach(rv.expr)
        else:
            raise Unsupported("another store operation")
    m, r, store, gvk = reflector(eng, lw=ListWatch(eng, list_, watch_), note=note)

    async def handler(w, options, errors):
        eng.check("C18| the watch that was opened is read", z3.BoolVal(w is holder["watching"]))
        eng.check("C19| a failing resync can end the watch", z3.BoolVal(errors is not None))
        eng.suspend("watch handler")
        # reflector.watch_handler: whatever happens, both versions have moved together
        if eng.choose(2) == 1:
            v = eng.caller_val("reached", not_none=True)
            options["resource_version"] = v
            r._last_sync_resource_version = v
            reach(v.expr)
        fail("watch handler")
        holder["watching"] = None
    setf(r, "_watch_handler", handler)

    class Meta(Stub):
        resource_version = rv

    def inv(ctx):
        return [("C18| the version reported is the one reached", term(r.last_sync_resource_version()) == current()),
                ("C18| the store holds the list", z3.BoolVal(log.count("replace") == 1)),
                ("C19| no watch is running between watches", z3.BoolVal(holder["watching"] is None and holder["failed"] is None))] + [
            ("C18| the next watch starts from the version reached", z3.And(has_version(o), version_of(o) == current()))
            for o in dicts(ctx)]

    def dicts(ctx):
        return [v for v in (ctx.env(n) for n in ctx.loop.pre_locals) if isinstance(v, MDict)]
    eng.loop_specs.append(LoopSpec(name="watch again", kind="while", inv=inv))
    eng.hooks["task"] = lambda t: None
    old_op = store._op

    async def op(name, *args):
        note(name, *args)
        eng.suspend("store." + name)
        fail("replace")
    setf(store, "_op", op)
    eng.cancel_enabled = eng.choose(2) == 1
    with patched(mod("api.meta"), list_accessor=lambda x: Meta(), extract_list=lambda x: items):
        out = run(r.list_and_watch)
    no_leftovers(eng, "C19", "a round that ends stops its resync")
    if eng.cancelled:
        eng.check("C19| a cancelled round ends", z3.BoolVal(out.cancelled()))
        return
    eng.check("C19| a round ends only because something failed", z3.BoolVal(holder["failed"] is not None))
    eng.check("C19| a failure does not end as a cancellation", z3.BoolVal(not out.cancelled()))
    eng.cover("failed " + str(holder["failed"]))


@contract("reflector.resync", "C16 C19", [RF + ":Reflector.list_and_watch.resync", RF + ":Reflector._resync_queue"])
def resync(eng):
    """The resync task: asks, resyncs when told to, reports the first failure and leaves no timer behind."""
    st = {"want": None, "failed": None, "told": []}

    def note(name, *args):
        pass
    rv = "5"

    async def list_(options):
        return Stub()
    m, r, store, gvk = reflector(eng, lw=ListWatch(eng, list_, None), note=note)
    has = eng.choose(2) == 1

    def should():
        eng.check("C16| the informer is asked once a period", z3.BoolVal(r._clock.timer.fired))
        st["want"] = eng.choose(2) == 1
        return st["want"]
    if has:
        r.should_resync = should

    async def op(name, *args):
        eng.suspend("store." + name)
        if name != "resync":
            return
        t = r._clock.timer
        eng.check("C16| a resync happens only after its period", z3.BoolVal(t.fired and t.d is r._resync_period))
        eng.check("C16| and only when the informer asks for it", z3.BoolVal(not has or st["want"] is True))
        eng.check("C19| nothing goes on after a failed resync", z3.BoolVal(st["failed"] is None))
        st["want"] = None
        if eng.choose(2) == 1:
            st["failed"] = e = failure(eng, "resync")
            raise e
        eng.cover("resynced")
    setf(store, "_op", op)

    def put(item):
        eng.check("C19| the failure of the resync is reported", z3.BoolVal(st["failed"] is not None and item is st["failed"]))
        st["told"].append(item)

    def new_queue(*a, **kw):
        if kw.get("maxsize") or a:
            return FreeQueue(eng, lambda: None, lambda v: None, put)
        return FreeQueue(eng, never, lambda v: None)       # no resync period: nothing ever arrives

    def never():
        eng.end_path()

    pins = {}

    def pin():
        t = r._clock.timer
        return (t.live, t.fired, st["want"] is True)

    def on_loop(loop, when):
        if when == "entry":
            pins["v"] = pin()

    def inv(ctx):
        return [("the timer and what was asked are as at the first iteration", z3.BoolVal(pin() == pins["v"])),
                ("C16| when the informer was asked and wanted a resync it got one", z3.BoolVal(st["want"] is not True)),
                ("C19| no failure goes unreported", z3.BoolVal(st["failed"] is None))]
    eng.on_loop = on_loop
    eng.loop_specs.append(LoopSpec(name="resync again", kind="while", inv=inv))
    eng.cancel_enabled = eng.choose(2) == 1

    class Done(Exception):
        pass

    def spawn(t):
        if not inspect.iscoroutine(t.prim):
            return
        try:
            run_coro(t.prim)
            res = None
        except (Exception, asyncio.CancelledError) as e:
            if isinstance(e, Unsupported):
                raise
            res = e
        eng.check("C19| a resync task that ends leaves no timer running", z3.BoolVal(not r._clock.timer.live))
        if eng.cancelled:
            eng.check("C19| a cancelled resync task ends", z3.BoolVal(isinstance(res, asyncio.CancelledError)))
        else:
            eng.check("C19| a resync task ends only after a failure, which it reports once", z3.BoolVal(
                st["failed"] is not None and len(st["told"]) == 1))
            eng.cover("failed")
        eng.cancel_enabled = False
        raise Done
    eng.hooks["spawn"] = spawn

    class Meta(Stub):
        resource_version = "1"
    can = eng.cancel_enabled
    eng.cancel_enabled = False
    real_spawn = spawn

    def spawn2(t):
        eng.cancel_enabled = can
        real_spawn(t)
    eng.hooks["spawn"] = spawn2
    with patched(mod("api.meta"), list_accessor=lambda x: Meta(), extract_list=lambda x: []), patched_asyncio(m, Queue=new_queue):
        out = run(r.list_and_watch)
    if not isinstance(out.exc, Done):
        raise Unsupported("the resync does not run in the background")


@contract("reflector.run", "C19", [RF + ":Reflector.run"])
def reflector_run(eng):
    """Whatever ends a round, the next one starts after the period; only cancelling ends the reflector."""
    m, r, store, gvk = reflector(eng)
    st = {"rested": True}

    async def round_():
        eng.check("C19| a reflector rests between rounds", z3.BoolVal(st["rested"]))
        st["rested"] = False
        eng.suspend("round")
        if eng.choose(2) == 1:
            raise failure(eng, "round")

    def slept(d):
        eng.check("C19| it rests for its period", term_real(d) == term_real(r._period))
        st["rested"] = True
        eng.cover("rested")
    setf(r, "list_and_watch", round_)
    eng.hooks["slept"] = slept
    eng.loop_specs.append(LoopSpec(name="round after round", kind="while", inv=lambda ctx: [
        ("C19| a reflector rests between rounds", z3.BoolVal(st["rested"]))]))
    eng.cancel_enabled = True
    out = run(r.run)
    eng.check("C19| only cancelling ends a reflector", z3.BoolVal(eng.cancelled and out.cancelled()))
    eng.cover("cancelled")


def term_real(x):
    t = term(x)
    return z3.ToReal(t) if z3.is_int(t) else t


@contract("reflector.expected_type", "C18", [RF + ":Reflector.__init__", RF + ":Reflector._set_expected_type"])
def expected_type(eng):
    m = mod(RF)
    need(m, "Reflector")
    G = mod("runtime.schema").GroupVersionKind
    for ty, want in ((None, (None, None)), (Kind, (Kind, None)), (G("g", "v", "K"), (vars(m)["__builtins__"]["dict"], G("g", "v", "K")))):
        r = m.Reflector(object(), ty, object(), 0)
        need(r, "_expected_type", "_expected_gvk")
        eng.check("C18| the expected type and kind are those given", z3.BoolVal(
            r._expected_type is want[0] and (r._expected_gvk is want[1] or r._expected_gvk == want[1])))
        eng.check("C18| a new reflector has no version", z3.BoolVal(r.last_sync_resource_version() == ""))
    eng.cover("made")
