"""Contracts of the manager and the informer cache (C28, and the spread of resync periods of C16)."""
import asyncio

import z3

from contracts.identity import string
from contracts.informer import Body, GhostSeq  # noqa: F401
from pydv.aio import FnPrim
from pydv.containers import MDict, MList
from pydv.core import NONE, StarSeq, SymBool, SymReal, SymVal, Unsupported, V, zbool
from pydv.spec import (LoopSpec, Monitor, Stub, contract, instance, mod, need, no_raise, patched, run, setf, term, view)

SI, IM = "cache.shared_informer", "controller._informers_map"
SYN, MADE, RAN = "a:ghost_synced", "a:ghost_made", "a:ghost_ran"
HS = z3.Function("has_synced_of", V, V)               # an informer's bound has_synced
IDX = z3.Function("indexer_of", V, V)
LWOF = z3.Function("lister_watcher_for", V, V)        # of a kind
KINDOF = z3.Function("kind_of_informer", V, V)
RD = z3.Function("reader_of", V, V, V)                # of an indexer and a kind
GVK = z3.Function("kind_of_type", V, V)
k_, i_, x_ = z3.Const("k!mg", V), z3.Int("i!mg"), z3.Const("x!mg", V)
YES = V.int_(z3.IntVal(1))


def synced(eng, f, arr=None):
    return z3.Select(eng.heap[SYN] if arr is None else arr, f) == YES


def others_sync(eng):
    """While we wait any informer may become synced; none stops being so."""
    old = eng.heap[SYN]
    new = eng.fresh("synced", old.sort())
    eng.log_write(SYN, eng.fresh("any", V))
    eng.heap[SYN] = new
    eng.assume(z3.ForAll([x_], z3.Implies(z3.Select(old, x_) == YES, z3.Select(new, x_) == YES),
                         patterns=[z3.Select(new, x_)]))


def seq(eng, shape=None):
    l = MList()
    eng.havoc_container(l)
    eng.heap.write("lo", l._pv_ref, z3.IntVal(0))
    eng.assume(l.hi >= 0)
    l._pv_elem = shape or "val"
    return l


def every(l, fact):
    """fact(e) for every element e of l."""
    e = z3.Select(l.el, i_)
    return z3.ForAll([i_], z3.Implies(z3.And(0 <= i_, i_ < l.hi), fact(e)), patterns=[e])


@contract("cache.wait_for_cache_sync", "C28", [SI + ":wait_for_cache_sync", "util.wait:poll_immediate_infinite"])
def wait_sync(eng):
    """Any number of informers, synced in any order at any time."""
    m = mod(SI)
    need(m, "wait_for_cache_sync", "wait")
    fs = seq(eng)
    asked = []

    def ask(f):
        asked.append(f.expr)
        return SymBool(synced(eng, f.expr))
    eng.hooks["call"] = ask
    eng.on_suspend = lambda tag, prim: others_sync(eng)

    def waits():
        eng.check("C28| once all have synced it waits no longer", z3.Not(every(fs, lambda f: synced(eng, f))))
        return FnPrim("timer.get", None, None, None, always=True)

    class Chan(Stub):
        def get(self):
            return waits()

    class Timer(Stub):
        def __init__(self, d):
            self.c = Chan()

        def stop(self):
            pass
    eng.hooks["slept"] = lambda d: None
    eng.loop_specs.append(LoopSpec(name="poll after poll", kind="while", inv=lambda ctx: []))
    eng.cancel_enabled = True
    with patched(m.wait._time, Timer=Timer):
        out = run(m.wait_for_cache_sync, StarSeq(fs))
    eng.cancel_enabled = False
    if eng.cancelled:
        eng.check("C28| a cancelled wait reports nothing", z3.BoolVal(out.cancelled()))
        eng.cover("cancelled")
        return
    no_raise(out, "C28| waiting for a sync raises nothing")
    yes = out.value
    eng.check("C28| it reports success only when every informer has synced", z3.Implies(
        zbool(yes) if not isinstance(yes, bool) else z3.BoolVal(yes), every(fs, lambda f: synced(eng, f))))
    eng.check("C28| it does not give up", zbool(yes) if not isinstance(yes, bool) else z3.BoolVal(yes))
    eng.cover("synced")


# ---------------------------------------------------------------- the informers of a cache
class World:
    """The informers of one cache: at most one per kind, made by anybody, started once."""

    def __init__(self, eng):
        self.eng = eng
        self.im = im = mod(IM)
        dm, ca = mod("controller._deleg_map"), mod("controller.cache")
        need(im, "_SpecificInformersMap", "MapEntry", "shared_informer", "_cache_reader", "_resync_period")
        need(dm, "InformersMap")
        need(ca, "_InformerCache", "CacheNotStartedError", "_client")
        self.ca = ca
        self.resync, self.ns = eng.real("resync"), eng.val("namespace")
        eng.assume(self.resync.expr >= 0)
        eng.hooks["getattr"], eng.hooks["call"], eng.hooks["get"] = self.getattr, self.call, self.read
        self.patches = [patched(im.shared_informer, new_shared_index_informer=self.make, wait_for_cache_sync=self.wait),
                        patched(im._cache_reader, CacheReader=self.reader),
                        patched(ca._client, gvk_for_object=lambda t: SymVal(GVK(eng.enc(t))))]
        with patched(im, _create_structured_list_watch=lambda gvk, ip: SymVal(LWOF(eng.enc(gvk)))):
            out = run(dm.InformersMap, self.resync, self.ns)
        no_raise(out, "C28| an informer cache can be made")
        self.deleg = instance(out.value, {"_structured"})
        self.map = instance(self.deleg._structured, {"_resync", "_namespace", "_create_lister_watcher", "_informers_by_gvk",
                                                     "_mutex", "_started"})
        self.cache = ca._InformerCache(self.deleg)
        d = self.map._informers_by_gvk
        if not isinstance(d, MDict):
            raise Unsupported("the informers by kind")
        self.d = d
        d._pv_key, d._pv_elem = "val", ("rec", im.MapEntry, ("val", "val"))
        from pydv.core import tag_of
        self.tag = tag_of(im.MapEntry, 2)
        self.reads, self.waited, self.runs = [], [], []
        self.M = Monitor(eng, {"informers": ("c", lambda: d), "started": ("py", self.map, "_started", lambda: eng.bool("started")),
                               "made": ("x", lambda: eng.heap[MADE], lambda: self.havoc(MADE)),
                               "synced": ("x", lambda: eng.heap[SYN], lambda: others_sync(eng))},
                         self.inv, rely=self.rely, guar=self.guar)

    def havoc(self, a):
        self.eng.log_write(a, self.eng.fresh("any", V))
        self.eng.heap[a] = self.eng.fresh(a, self.eng.heap[a].sort())

    def entry(self, e, k):
        inf = V.f0(e)
        return z3.And(V.is_rec(e), V.tag(e) == self.tag, KINDOF(inf) == k, V.f1(e) == RD(IDX(inf), k),
                      V.is_opq(inf), V.f2(e) == NONE, V.f3(e) == NONE)

    def inv(self, S):
        d, made = S.informers, S.made
        return [("C28| the informer of a kind is of that kind, and its reader reads its store",
                 d.items(lambda k, e: self.entry(e, k))),
                ("C28| at most one informer is made for a kind", z3.ForAll([k_], z3.Select(made, k_) == V.int_(
                    z3.If(d.has(k_), z3.IntVal(1), z3.IntVal(0))), patterns=[z3.Select(made, k_)]))]

    def kept(self, S, T):
        return z3.ForAll([k_], z3.Implies(S.informers.has(k_), z3.And(T.informers.has(k_), T.informers.get(k_) == S.informers.get(k_))),
                         patterns=[T.informers.has(k_), S.informers.has(k_)])

    def started(self, S):
        s = S.started
        return z3.BoolVal(s) if isinstance(s, bool) else s

    def rely(self, S, T):
        return [self.kept(S, T), z3.Implies(self.started(S), self.started(T))]

    def guar(self, S, T):
        return [("C28| the informer of a kind stays", self.kept(S, T)),
                ("C28| a started cache stays started", z3.Implies(self.started(S), self.started(T)))]

    # what the informers are
    def getattr(self, v, name):
        eng = self.eng
        if name == "has_synced":
            return SymVal(HS(v.expr))
        if name == "get_indexer":
            return lambda: SymVal(IDX(v.expr))
        if name == "run":
            return lambda: Body(self, v.expr, "run")
        return NotImplemented

    def call(self, f, *args):
        if not args:
            return SymBool(synced(self.eng, f.expr))
        return NotImplemented

    def make(self, lw, obj, period, indexers=None):
        eng = self.eng
        inf = eng.val("informer")
        k = eng.val("kind").expr
        eng.assume(LWOF(k) == eng.enc(lw))
        eng.assume(z3.ForAll([x_], z3.Implies(LWOF(x_) == LWOF(k), x_ == k), patterns=[LWOF(x_)]))
        eng.assume(z3.And(KINDOF(inf.expr) == k, V.is_opq(inf.expr)))
        eng.check("C28| an informer watches the type asked for", GVK(eng.enc(obj)) == k)
        p = term(period)
        r = self.resync.expr
        eng.check("C16| the resync periods of a cache's informers are spread over 0.9 to 1.1 times the configured one",
                  z3.And(p >= r * z3.Q(9, 10), p <= r * z3.Q(11, 10)))
        eng.log_write(MADE, k)
        eng.heap.write(MADE, k, V.int_(V.ival(eng.heap.read(MADE, k)) + 1))
        eng.cover("made")
        return inf

    def reader(self, indexer, gvk):
        return SymVal(RD(self.eng.enc(indexer), self.eng.enc(gvk)))

    def read(self, v, key, default=None):
        eng = self.eng
        self.reads.append((v.expr, key, self.M.snap()))
        if eng.choose(2) == 1:
            self.missing = KeyError("key")
            raise self.missing
        self.found = eng.val("object")
        return self.found

    async def wait(self, *fs):
        """The contract of wait_for_cache_sync, proved above; it may also give up."""
        eng = self.eng
        eng.suspend("wait_for_cache_sync")
        if eng.choose(2) == 1:
            self.gave_up = True
            return False
        for f in fs:
            if type(f) is StarSeq:
                l = f._pv_seq
                eng.assume(every(l, lambda e: synced(eng, e)))
            else:
                eng.assume(synced(eng, eng.enc(f)))
        return True

    gave_up, missing, found = False, None, None

    def __enter__(self):
        for p in self.patches:
            p.__enter__()

    def __exit__(self, *a):
        for p in reversed(self.patches):
            p.__exit__(*a)


@contract("cache.read", "C28 C16", ["controller.cache:_InformerCache.get", "controller._deleg_map:InformersMap.get",
                                    IM + ":_SpecificInformersMap.get", IM + ":_SpecificInformersMap._add_informer_to_map",
                                    IM + ":_resync_period", IM + ":_SpecificInformersMap.__init__"])
def read(eng):
    """A read, at any time in the life of a cache."""
    W = World(eng)
    S = W.M.start()
    key, ty = eng.val("key"), eng.val("type")
    g = GVK(ty.expr)
    eng.cancel_enabled = True
    with W:
        out = run(W.cache.get, key, ty)
    eng.cancel_enabled = False
    T = W.M.finish()
    if eng.cancelled:
        eng.check("C28| a cancelled read returns nothing", z3.BoolVal(out.exc is not None))
        eng.cover("cancelled")
        return
    if isinstance(out.exc, W.ca.CacheNotStartedError):
        eng.check("C28| only a cache that is not started refuses to read", z3.Not(W.started(S)))
        eng.cover("not started")
        return
    eng.check("C28| a cache that is not started refuses to read", W.started(T))
    if W.gave_up and not W.reads:
        eng.check("C28| a read whose informer does not sync fails", z3.BoolVal(out.exc is not None))
        eng.cover("does not sync")
        return
    eng.check("C28| a read reads once", z3.BoolVal(len(W.reads) == 1))
    if len(W.reads) != 1:
        return
    r, k, at = W.reads[0]
    inf = V.f0(at.informers.get(g))
    eng.check("C28| a read goes to the shared informer of the kind", z3.And(at.informers.has(g), r == RD(IDX(inf), g)))
    eng.check("C28| a read asks for the key given", eng.enc(k) == key.expr)
    eng.check("C28| a read waits until the informer has synced", synced(eng, HS(inf), at.synced))
    if W.missing is not None:
        eng.check("C28| a missing object is reported", z3.BoolVal(out.exc is W.missing))
        eng.cover("missing")
    else:
        no_raise(out, "C28| a read raises nothing else")
        eng.check("C28| the stored object is returned", eng.enc(out.value) == W.found.expr)
        eng.cover("read")


@contract("cache.get_informer", "C28 C16", ["controller.cache:_InformerCache.get_informer", "controller._deleg_map:InformersMap.get",
                                            IM + ":_SpecificInformersMap.get", IM + ":_SpecificInformersMap._add_informer_to_map"])
def get_informer(eng):
    W = World(eng)
    W.M.start()
    ty = eng.val("type")
    g = GVK(ty.expr)
    eng.cancel_enabled = True
    with W:
        out = run(W.cache.get_informer, ty)
    eng.cancel_enabled = False
    T = W.M.finish()
    if eng.cancelled:
        return
    if W.gave_up:
        eng.check("C28| a started cache gives informers only once they have synced", z3.BoolVal(out.exc is not None))
        return
    no_raise(out, "C28| an informer is given")
    eng.check("C28| requests for a kind share its informer", z3.And(T.informers.has(g), eng.enc(out.value) == V.f0(T.informers.get(g))))
    eng.cover("given")


def witnesses(t):
    """The keys a term reads something at."""
    if z3.is_app(t):
        if t.decl().kind() == z3.Z3_OP_SELECT and t.arg(1).sort() == V:
            yield t.arg(1)
        for c in t.children():
            yield from witnesses(c)


@contract("cache.start", "C28", ["controller.cache:_InformerCache.start", "controller._deleg_map:InformersMap.start",
                                 IM + ":_SpecificInformersMap.start"])
def start(eng):
    """Starting: every informer requested by then runs, once."""
    W = World(eng)
    S = W.M.start()
    eng.assume(z3.Not(W.started(S)))
    rely = W.M.rely
    W.M.rely = lambda A, B: rely(A, B) + [W.started(A) == W.started(B)]       # nobody else starts it
    count = z3.Select(eng.heap[RAN], x_)
    eng.assume(z3.ForAll([x_], count == V.int_(0), patterns=[count]))
    started = []

    def each(b):
        if not isinstance(b, Body):
            raise Unsupported("another task is started")
        eng.call_log.append(("run", b.v))
        return SymVal(b.v)
    eng.hooks["spawn.each"] = each

    def many(g):
        started.append(g)
        seen()
        raise asyncio.CancelledError
    eng.hooks["gather.many"] = many

    def seen():
        T = W.M.segments[-1][1]                 # when it began to wait
        # when the cache came to count as started: whoever asked before may rely on its informer being run
        S_ = next((b for a, b in W.M.segments if not z3.is_true(W.started(a)) and z3.is_true(W.started(b))), S)
        fa = [c for c in eng.call_log if c[0] == "forall" and [n for n, *_ in c[4]] == ["run"]]
        eng.check("C28| the informers are started once", z3.BoolVal(len(fa) == 1))
        if len(fa) != 1:
            return
        _, i, lo, hi, calls = fa[0]
        a, j = eng.fresh("one", z3.IntSort()), eng.fresh("some", V)
        v = z3.substitute(calls[0][1], (i, a))
        eng.check("C28| only informers of the cache are started", z3.Implies(z3.And(lo <= a, a < hi), z3.Or(
            *[z3.And(T.informers.has(k), v == V.f0(T.informers.get(k))) for k in witnesses(v)])))
        eng.check("C28| every informer requested before the start is started", z3.Implies(
            z3.Or(S.informers.has(j), S_.informers.has(j)),
            z3.Exists([i], z3.And(lo <= i, i < hi, calls[0][1] == V.f0(T.informers.get(j))))))
        eng.check("C28| the cache is started now", W.started(T))
        eng.cover("started")
    with W:
        out = run(W.cache.start)
    eng.check("C28| a started cache runs until its informers end", z3.BoolVal(bool(started)))


@contract("cache.synced", "C28", ["controller.cache:_InformerCache.wait_for_cache_sync",
                                  "controller._deleg_map:InformersMap.wait_for_cache_sync",
                                  IM + ":_SpecificInformersMap.has_synced_funcs"])
def cache_synced(eng):
    W = World(eng)
    S = W.M.start()
    eng.cancel_enabled = True
    with W:
        out = run(W.cache.wait_for_cache_sync)
    eng.cancel_enabled = False
    T = W.M.finish()
    if eng.cancelled:
        return
    no_raise(out, "C28| waiting for the cache raises nothing")
    yes = out.value
    yes = z3.BoolVal(yes) if isinstance(yes, bool) else zbool(yes)
    if W.gave_up:
        eng.check("C28| a failed sync is reported", z3.Not(yes))
    eng.check("C28| the cache has synced only when every informer it has has", z3.Implies(yes, z3.ForAll([k_], z3.Implies(
        S.informers.has(k_), synced(eng, HS(V.f0(S.informers.get(k_))))), patterns=[S.informers.has(k_)])))
    eng.check("C28| a cache whose informers have synced has synced", z3.BoolVal(W.gave_up) == z3.Not(yes))
    eng.cover("synced")


class Key(Stub):
    def __init__(self, ns, name):
        self.namespace, self.name = ns, name


@contract("cache.reader", "C28", ["controller._cache_reader:CacheReader.get", "controller._cache_reader:_object_key_to_store_key"])
def reader(eng):
    m = mod("controller._cache_reader")
    need(m, "CacheReader")
    ns = None if eng.choose(2) == 1 else string(eng, eng.val("namespace").expr)
    key = Key(ns, string(eng, eng.val("name").expr))
    asked = []
    obj = eng.val("object")

    class Indexer(Stub):
        def get_by_key(self, k):
            asked.append(k)
            return obj
    out = run(m.CacheReader(Indexer(), eng.val("kind")).get, key)
    eng.check("C28| a read looks one key up", z3.BoolVal(len(asked) == 1))
    if len(asked) != 1:
        return
    t = key.name.expr
    n = z3.StringVal("") if ns is None else ns.expr
    k = asked[0]
    eng.check("C28| objects are read under the key they are stored under", (k.expr if hasattr(k, "expr") else z3.StringVal(k)) == z3.If(
        z3.Length(n) > 0, z3.Concat(n, z3.StringVal("/"), t), t))
    if out.exc is not None:
        eng.check("C28| only a missing object raises KeyError", z3.And(z3.BoolVal(type(out.exc) is KeyError), obj.expr == NONE))
        eng.cover("missing")
    else:
        eng.check("C28| the stored object is returned", z3.And(obj.expr != NONE, eng.enc(out.value) == obj.expr))
        eng.cover("found")


# ---------------------------------------------------------------- the manager
class AnyCache(Stub):
    def __init__(self, eng):
        self.eng, self.synced, self.runs, self.given_up, self.task = eng, False, 0, False, None

    async def start(self):
        raise Unsupported("runs in the background")

    async def wait_for_cache_sync(self):
        self.eng.check("C28| a cache is waited for only after its start", z3.BoolVal(self.runs == 1))
        self.eng.suspend("wait_for_cache_sync")
        if self.eng.choose(2) == 1:
            self.given_up = True
            return False
        self.synced = True
        return True


@contract("manager.start", "C28", ["controller.manager:_ControllerManager.start",
                                   "controller.manager:_ControllerManager._start_non_leader_election_runnables",
                                   "controller.manager:_ControllerManager._wait_for_cache"])
def manager_start(eng):
    """Starting a manager with any number of controllers."""
    m = mod("controller.manager")
    need(m, "_ControllerManager")
    C = AnyCache(eng)
    mg = m._ControllerManager(C)
    instance(mg, {"_cache", "_non_leader_election_runnables", "_mutex", "_started"})
    cs = mg._non_leader_election_runnables
    if not isinstance(cs, MList):
        raise Unsupported("the manager's controllers")
    eng.havoc_container(cs)
    eng.heap.write("lo", cs._pv_ref, z3.IntVal(0))
    eng.assume(cs.hi >= 0)
    cs._pv_elem = "val"
    eng.assume(every(cs, lambda e: V.is_opq(e)))
    eng.hooks["getattr"] = lambda v, name: (lambda: Body(None, v.expr, "start")) if name == "start" else NotImplemented

    def each(b):
        if not isinstance(b, Body):
            raise Unsupported("another task is started")
        eng.call_log.append(("start", b.v))
        return SymVal(b.v)
    eng.hooks["spawn.each"] = each

    def starts():
        return [c for c in eng.call_log if c[0] == "forall" and any(n == "start" for n, *_ in c[4])]

    def spawn(t):
        if t.name.endswith("AnyCache.start"):
            C.runs += 1
            C.task = t
            eng.check("C28| the cache is started once", z3.BoolVal(C.runs == 1))
        elif isinstance(t.prim, Body):
            raise Unsupported("controllers started one by one")
    eng.hooks["spawn"] = spawn
    stopped = []
    eng.hooks["task.cancel"] = lambda t: stopped.append(t)

    def suspend(tag, prim):
        if not C.synced:
            eng.check("C28| controllers start only once the cache has synced", z3.BoolVal(not starts()))
    eng.on_suspend = suspend
    done = []

    def many(g):
        eng.check("C28| controllers start only once the cache has synced", z3.BoolVal(C.synced))
        fa = starts()
        eng.check("C28| the controllers are started once", z3.BoolVal(len(fa) == 1))
        if len(fa) == 1:
            _, i, lo, hi, calls = fa[0]
            eng.check("C28| every controller is started", z3.And(lo == 0, hi == cs.hi, z3.ForAll([i], z3.Implies(
                z3.And(0 <= i, i < cs.hi), calls[0][1] == z3.Select(cs.el, i)), patterns=[z3.Select(cs.el, i)])))
        done.append(g)
        eng.cover("started")
        raise asyncio.CancelledError
    eng.hooks["gather.many"] = many
    eng.cancel_enabled = True
    out = run(mg.start)
    eng.cancel_enabled = False
    if C.given_up:
        eng.check("C28| a manager whose cache does not sync fails, without starting anything", z3.BoolVal(
            out.exc is not None and not done and not starts()))
        eng.check("C28| a manager that gives up stops its cache", z3.BoolVal(C.task is not None and C.task in stopped))
        eng.cover("not synced")
    elif eng.cancelled and not C.synced and C.task is not None:
        eng.check("C28| a manager that gives up stops its cache", z3.BoolVal(C.task in stopped))
        eng.check("C28| a cancelled manager starts nothing", z3.BoolVal(not starts()))
    elif not eng.cancelled and not done:
        eng.check("C28| a manager starts its controllers", z3.BoolVal(False))


class Runnable(Stub):
    def __init__(self, log):
        self.log = log

    def inject_cache(self, c):
        self.log.append(("cache", c))

    def inject_func(self, f):
        self.log.append(("func", f))


class Plain:
    _pv_model = True


@contract("manager.add", "C28", ["controller.manager:_ControllerManager.add", "controller.manager:_ControllerManager.set_fields"])
def manager_add(eng):
    m = mod("controller.manager")
    need(m, "_ControllerManager")
    C, log = AnyCache(eng), []
    mg = m._ControllerManager(C)
    r = Runnable(log)
    cs = mg._non_leader_election_runnables
    out = run(mg.add, r)
    no_raise(out, "C28| adding a controller raises nothing")
    eng.check("C28| a controller added gets the manager's cache", z3.BoolVal(("cache", C) in log))
    eng.check("C28| and a way to set the fields of what it watches", z3.BoolVal([k for k, _ in log].count("func") == 1))
    inner = []
    out = run([f for k, f in log if k == "func"][0], Runnable(inner))
    no_raise(out, "C28| setting fields raises nothing")
    eng.check("C28| sources get the manager's cache", z3.BoolVal(("cache", C) in inner))
    eng.check("C28| an added controller is started with the manager", z3.And(cs.zlen() == 1, z3.Select(cs.el, cs.lo) == eng.enc(r)))
    eng.check("C28| the manager's cache is its cache", z3.BoolVal(mg.get_cache() is C))
    eng.cover("added")


class BuildCache(Stub):
    def __init__(self, eng):
        self.eng, self.asked, self.handlers = eng, [], []

    async def get_informer(self, t):
        self.asked.append(t)
        self.eng.suspend("get_informer")
        return BuildInformer(self)

    async def wait_for_cache_sync(self):
        self.eng.suspend("wait_for_cache_sync")
        return False


class BuildInformer(Stub):
    def __init__(self, cache):
        self.cache = cache

    async def add_event_handler(self, h, *a):
        self.cache.handlers.append(h)


class BuildQueue(Stub):
    def __init__(self):
        self.added = []

    async def add(self, x):
        self.added.append(x)

    async def shut_down(self):
        pass


@contract("builder.build", "C28 C26", ["controller.builder:build_controller", "controller.builder:_do_watch",
                                       "controller.builder:_do_controller", "controller.source:Kind.start",
                                       "controller.source:Kind.inject_cache", "controller.source:Kind.__init__"])
def build(eng):
    """A controller built for a type: its informer is requested at once, and its events become requests."""
    m, mm, rq = mod("controller.builder"), mod("controller.manager"), mod("workqueue.rate_limiting_queue")
    need(m, "build_controller")
    C, q = BuildCache(eng), BuildQueue()
    mg = mm._ControllerManager(C)
    added = []
    add = mg.add

    def keep(r):
        added.append(r)
        return add(r)
    t = eng.val("type")
    rc = Plain()
    with patched(rq, new=lambda: q):
        mg.__dict__["add"] = keep
        out = run(lambda: m.build_controller(mg, rc, api_type=t))
        no_raise(out, "C28| building a controller raises nothing")
        eng.check("C28| the informer of the type is requested while building", z3.BoolVal(
            len(C.asked) > 0 and all(a is t for a in C.asked)))
        eng.check("C28| the controller is added to the manager", z3.BoolVal(len(added) == 1))
        if len(added) != 1:
            return
        n = len(C.asked)
        run(added[0].start)
    eng.check("C26| a controller listens to the informer of its type", z3.BoolVal(
        len(C.asked) == n + 1 and C.asked[-1] is t and len(C.handlers) == 1))
    if len(C.handlers) != 1:
        return
    obj = Plain()
    obj.metadata = Plain()
    obj.metadata.namespace, obj.metadata.name = eng.val("namespace"), eng.val("name")
    out = run(C.handlers[0].on_add, obj)
    no_raise(out, "C26| an event raises nothing")
    r = q.added[0] if len(q.added) == 1 else None
    eng.check("C26| an event becomes one request for its object in the controller's queue", z3.BoolVal(r is not None))
    if r is not None:
        eng.check("C26| an event becomes one request for its object in the controller's queue", z3.And(
            eng.enc(r.namespaced_name.name) == obj.metadata.name.expr,
            eng.enc(r.namespaced_name.namespace) == obj.metadata.namespace.expr))
    eng.cover("built")


@contract("kind.start", "C26", ["controller.source:Kind.start", "controller.source:Kind.inject_cache"])
def kind_start(eng):
    """The cache injected first is the one used; none is refused."""
    m = mod("controller.source")
    need(m, "Kind")
    C, D = BuildCache(eng), BuildCache(eng)
    t = eng.val("type")
    k = m.Kind(t)
    n = eng.choose(3)
    for c in (C, D)[:n]:
        no_raise(run(k.inject_cache, c), "C26| a cache can be injected")
    h, q, p = Plain(), BuildQueue(), Plain()
    out = run(k.start, h, q, p)
    if n == 0:
        eng.check("C26| a source without cache is refused", z3.BoolVal(out.exc is not None))
        eng.cover("no cache")
        return
    no_raise(out, "C26| a source starts")
    eng.check("C26| a source listens to the informer of its type, in the cache injected first", z3.BoolVal(
        len(C.asked) == 1 and C.asked[0] is t and not D.asked and len(C.handlers) == 1))
    if len(C.handlers) == 1:
        eh = C.handlers[0]
        eng.check("C26| with the handler, queue and predicates given", z3.BoolVal(
            eh.event_handler is h and eh.queue is q and len(eh.predicates) == 1 and eh.predicates[0] is p))
        eng.cover("started")
