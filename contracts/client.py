"""Contracts of what an informer cache lists and watches (C29)."""
import z3

from contracts.identity import string
from pydv.containers import MDict
from pydv.core import NONE, SymVal, Unsupported, V
from pydv.spec import Stub, contract, mod, need, no_raise, patched, run, term

CL, IM = "controller.client", "controller._informers_map"


class Options:
    """Any choice among the options a reflector passes, with any values, given as a dict."""

    def __init__(self, eng):
        self.eng, self.had = eng, {}
        for n in ("resource_version", "timeout_seconds"):
            if eng.choose(2) == 0:
                self.had[n] = eng.val(n)
        self.d = dict(self.had)

    def passed(self, kw, ns, what):
        eng = self.eng
        want = dict(self.had)
        if ns is not None:
            want["namespace"] = ns
        eng.check(f"C29| a {what} passes on exactly the options given", z3.BoolVal(set(kw) == set(want)))
        for n in want:
            if n in kw:
                eng.check(f"C29| a {what} passes on {'the namespace' if n == 'namespace' else 'the values given'}",
                          same(eng, kw[n], want[n]))
        eng.check("C29| the options given are left alone", z3.BoolVal(
            set(self.d) == set(self.had)) if isinstance(self.d, dict) else z3.BoolVal(True))
        for n in self.had:
            eng.check("C29| the options given are left alone", same(eng, self.d[n], self.had[n]))


def same(eng, a, b):
    if a is b:
        return z3.BoolVal(True)
    return eng.enc(a) == eng.enc(b)


class Client(Stub):
    def __init__(self, eng, log):
        self.eng, self.log = eng, log

    def _get_lister(self, namespace):
        self.log.append(("lister", namespace))

        async def lister(**kw):
            self.log.append(("list", kw))
            self.eng.suspend("list")
            self.reply = self.eng.val("list")
            return self.reply
        return lister

    def _get_watcher(self, namespace):
        self.log.append(("watcher", namespace))

        def watcher(**kw):
            self.log.append(("watch", kw))
            self.reply = self.eng.val("stream")
            return self.reply
        return watcher


def namespace(eng):
    """(as configured, as wanted: None for all)"""
    w = eng.choose(3)
    if w == 0:
        return None, None
    if w == 1:
        return "", None
    s = string(eng, eng.val("namespace").expr)
    eng.assume(z3.Length(s.expr) > 0)
    return s, s


class Informer(Stub):
    def __init__(self, lw):
        self.lw = lw

    def get_indexer(self):
        return None

    def has_synced(self):
        return True


@contract("client.list_watch", "C29", [IM + ":_create_structured_list_watch", IM + ":_get_kwargs", "controller.cache:new",
                                       "controller._deleg_map:InformersMap.__init__", "controller.cache:_InformerCache.get_informer"])
def list_watch(eng):
    """The list and watch of a cache's informer, from the configuration of the cache to the client."""
    im, ca = mod(IM), mod("controller.cache")
    need(im, "shared_informer", "_client", "_cache_reader")
    need(ca, "new", "_client")
    ns, want = namespace(eng)
    log, gvks = [], []
    gvk = eng.val("kind")
    clients = []

    def client(g):
        gvks.append(g)
        clients.append(Client(eng, log))
        return clients[-1]
    lws = []

    def informer(lw, *a, **kw):
        lws.append(lw)
        return Informer(lw)
    with patched(im._client, rest_client_for_gvk=client), patched(ca._client, gvk_for_object=lambda t: gvk), \
            patched(im.shared_informer, new_shared_index_informer=informer):
        kw = {} if ns is None and eng.choose(2) == 1 else {"namespace": ns}
        made = run(lambda: ca.new(resync=eng.real("resync"), **kw))
        no_raise(made, "C29| a cache can be made")
        got = run(made.value.get_informer, eng.val("type"))
        no_raise(got, "C29| a cache gives informers")
        eng.check("C29| an informer has one list and watch", z3.BoolVal(len(lws) == 1))
        if len(lws) != 1:
            return
        lw = lws[0]
        what = ["list", "watch"][eng.choose(2)]
        o = Options(eng)
        eng.cancel_enabled = True
        out = run(getattr(lw, what), o.d)
    eng.cancel_enabled = False
    if eng.cancelled:
        return
    no_raise(out, f"C29| a {what} raises nothing of its own")
    eng.check("C29| a client of the kind asked for is used", z3.And(z3.BoolVal(len(gvks) > 0), *[
        same(eng, g, gvk) for g in gvks]))
    gets = [a for k, a in log if k == ("lister" if what == "list" else "watcher")]
    calls = [a for k, a in log if k == what]
    eng.check(f"C29| a {what} is one {what}", z3.BoolVal(len(calls) == 1 and len(gets) == 1 and len(
        [1 for k, _ in log if k in ("list", "watch")]) == 1))
    if len(calls) != 1 or len(gets) != 1:
        return
    eng.check("C29| it is scoped to the namespace configured", all_namespaces(gets[0]) if want is None else same(eng, gets[0], want))
    o.passed(calls[0], want, what)
    eng.check("C29| the answer is passed on", same(eng, out.value, clients[-1].reply))
    eng.cover(what)


def all_namespaces(n):
    return z3.BoolVal(n is None or isinstance(n, str) and n == "")


class Api(Stub):
    def __init__(self, *a):
        self.args = a
        self.list_namespaced_pod = "one namespace"
        self.list_pod_for_all_namespaces = "all namespaces"


@contract("client.pods", "C29", [CL + ":_PodClient._get_lister", CL + ":_Client._get_watcher", CL + ":_Client.__init__"])
def pods(eng):
    cl = mod(CL)
    need(cl, "_PodClient", "watch")
    ns, want = namespace(eng)
    saved = cl._PodClient.api_cls
    streams = []

    class Watch(Stub):
        def stream(self, f, **kw):
            streams.append((self, f, kw))
            return self
    with patched(cl.watch, Watch=Watch):
        cl._PodClient.api_cls = Api
        try:
            out = run(cl._PodClient)
            no_raise(out, "C29| a client can be made")
            c = out.value
            lister = run(c._get_lister, ns)
            no_raise(lister, "C29| a lister can be had")
            eng.check("C29| pods are listed in the namespace given, or in all", z3.BoolVal(
                lister.value == ("all namespaces" if want is None else "one namespace")))
            v = eng.val("version")
            w1 = run(lambda: c._get_watcher(ns)(resource_version=v))
            w2 = run(lambda: c._get_watcher(ns)(resource_version=v))
        finally:
            cl._PodClient.api_cls = saved
    no_raise(w1, "C29| a watch can be had")
    no_raise(w2, "C29| a watch can be had")
    eng.check("C29| pods are watched where they are listed", z3.BoolVal(
        len(streams) == 2 and all(f == ("all namespaces" if want is None else "one namespace") for _, f, _ in streams)))
    eng.check("C29| with the options given", z3.BoolVal(all(set(kw) == {"resource_version"} and kw["resource_version"] is v for _, _, kw in streams)))
    eng.check("C29| every watch is a stream of its own", z3.BoolVal(w1.value is not w2.value))
    eng.cover("pods")


@contract("client.registry", "C29", [CL + ":_Client.__init_subclass__", CL + ":gvk_for_object", CL + ":rest_client_for_gvk"])
def registry(eng):
    """Registering clients for two kinds, the same or not."""
    cl = mod(CL)
    need(cl, "_Client", "_GVK_TO_CLIENT_CLS", "_GVK_TO_OBJECT_TYPE", "_OBJECT_TYPE_TO_GVK", "_UNSTRUCTURED")
    same_kind = eng.choose(2) == 1
    typed = eng.choose(2) == 1

    class T1:
        pass

    class T2:
        pass
    g1 = ("g", "v1", "One")
    g2 = g1 if same_kind else ("g", "v1", "Two")
    made = []
    with patched(cl, _GVK_TO_CLIENT_CLS={}, _GVK_TO_OBJECT_TYPE={}, _OBJECT_TYPE_TO_GVK={}, _UNSTRUCTURED=set()):
        def define(g, t):
            def go():
                c = type("C", (cl._Client,), {"gvk": g, "object_type": t, "api_cls": lambda self, a: made.append(a)})
                return c
            return run(go)
        c1 = define(g1, T1)
        no_raise(c1, "C29| a client for a new kind can be defined")
        c2 = define(g2, T2 if typed else None)
        eng.check("C29| a kind has one client", z3.BoolVal((c2.exc is None) != same_kind))
        r = run(cl.gvk_for_object, T1)
        no_raise(r, "C29| a registered type has a kind")
        eng.check("C29| a type is of the kind it was registered for", z3.BoolVal(r.value == g1))
        r = run(cl.rest_client_for_gvk, g1)
        no_raise(r, "C29| a registered kind has a client")
        eng.check("C29| a kind's client is the one registered", z3.BoolVal(isinstance(r.value, c1.value)))
        r = run(cl.gvk_for_object, T2)
        if same_kind or not typed:
            eng.check("C29| a type that is not registered is refused", z3.BoolVal(isinstance(r.exc, KeyError)))
        else:
            no_raise(r, "C29| a registered type has a kind")
            eng.check("C29| a type is of the kind it was registered for", z3.BoolVal(r.value == g2))
        if not same_kind:
            r = run(cl.rest_client_for_gvk, g2)
            no_raise(r, "C29| a registered kind has a client")
            eng.check("C29| a kind's client is the one registered", z3.BoolVal(isinstance(r.value, c2.value)))
    eng.cover("registered")
