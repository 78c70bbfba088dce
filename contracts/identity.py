"""Contracts of the object identity functions (C27): store keys, accessors, group/version/kind."""
import z3

from pydv.core import NONE, STR2V, V2STR, SymStr, SymStrSub, V, halves, inst_pred
from pydv.spec import contract, mod, need, no_raise, run, term

S = z3.StringSort()
SLASH = z3.StringVal("/")


def opt_string(eng, e):
    """A value that is None or a string."""
    if eng.fork(e == NONE):
        return None
    s = V2STR(e)
    eng.assume(z3.And(STR2V(s) == e, V.is_opq(e)))
    return SymStr(s)


def string(eng, e):
    s = V2STR(e)
    eng.assume(z3.And(STR2V(s) == e, V.is_opq(e)))
    return SymStr(s)


SHAPES = {"namespace": opt_string, "name": string, "uid": string, "resource_version": opt_string,
          "resourceVersion": opt_string, "api_version": string, "apiVersion": string, "kind": string,
          "metadata": "val"}


def hooks(eng):
    for n, f in SHAPES.items():
        sh = "val" if f == "val" else ("fn", f)
        eng.hooks["shape:" + n] = eng.hooks[f"shape:[{n}]"] = sh


class Obj:
    """An arbitrary API object: typed (attributes) or a dict (items); its namespace may be absent, None or ''."""

    def __init__(self, eng, kind, name="obj"):
        hooks(eng)
        self.eng, self.kind = eng, kind
        self.v = eng.caller_val(name, not_none=True)
        e = self.v.expr
        # model containers and records are not API objects; dict subclasses are dicts
        eng.assume(z3.And(V.is_opq(e), inst_pred(dict)(e) == z3.BoolVal(kind == "dict")))
        h = eng.heap
        eng.assume(z3.And([z3.Not(inst_pred(c)(e)) for c in (str, mod("cache.store").ExplicitKey)]))
        self.meta = self.slot("metadata", e)
        eng.assume(z3.And(V.is_opq(self.meta), self.meta != e))
        self.present("metadata", e)
        self.namev = self.slot("name", self.meta)
        self.present("name", self.meta)
        self.name = V2STR(self.namev)
        nsv = self.slot("namespace", self.meta)
        has = h.read(("?a:" + self.key("namespace")), self.meta)
        if kind == "typed":
            self.present("namespace", self.meta)
            has = z3.BoolVal(True)
        self.nsv = z3.If(has, nsv, NONE)
        self.ns = z3.If(z3.And(has, nsv != NONE), V2STR(nsv), z3.StringVal(""))
        self.storekey = z3.If(z3.Length(self.ns) > 0, z3.Concat(self.ns, SLASH, self.name), self.name)
        eng.assume(z3.And(nsv != self.meta, self.namev != self.meta))

    def key(self, n):
        return f"[{n}]" if self.kind == "dict" else n

    def slot(self, n, e):
        return self.eng.heap.read("a:" + self.key(n), e)

    def present(self, n, e):
        self.eng.assume(self.eng.heap.read("?a:" + self.key(n), e))


def ztext(x):
    return x.expr if isinstance(x, SymStr) else z3.StringVal(x)


def is_text(x):
    return isinstance(x, (str, SymStr))


def check_key(eng, out, want, what):
    no_raise(out, f"C27| {what}: a key is returned")
    if not is_text(out.value):
        eng.fail(f"C27| {what}: the key is a string", type(out.value).__name__)
        return
    eng.check(f"C27| {what}: the key is namespace/name, or the name without a namespace", ztext(out.value) == want)


for KIND in ("typed", "dict"):
    def _mk(kind):
        @contract(f"identity.meta_namespace_key_func.{kind}", "C27", [
            "cache.store:meta_namespace_key_func", "api.meta:accessor"])
        def key_func(eng):
            f = mod("cache.store").meta_namespace_key_func
            o = Obj(eng, kind)
            check_key(eng, run(f, o.v), o.storekey, f"{kind} object")
            eng.cover(f"{kind} key")

        @contract(f"identity.deletion_handling_key.{kind}", "C27", [
            "cache.controller:deletion_handling_meta_namespace_key_func"])
        def del_key(eng):
            m = mod("cache.controller")
            need(m, "deletion_handling_meta_namespace_key_func")
            o = Obj(eng, kind)
            check_key(eng, run(m.deletion_handling_meta_namespace_key_func, o.v), o.storekey, f"{kind} object")
            eng.cover(f"{kind} deletion key")

        @contract(f"identity.accessor.{kind}", "C27", ["api.meta:accessor", "api.meta:list_accessor"])
        def acc(eng):
            m = mod("api.meta")
            need(m, "accessor")
            o = Obj(eng, kind)
            out = run(m.accessor, o.v)
            no_raise(out, "C27| accessor accepts every object with metadata")
            a = out.value
            out = run(lambda: a.name)
            no_raise(out, "C27| the name is read")
            eng.check("C27| name is the object's", eng.enc(out.value) == o.namev)
            out = run(lambda: a.namespace)
            no_raise(out, "C27| the namespace is read, also when there is none")
            eng.check("C27| namespace is the object's", eng.enc(out.value) == o.nsv)
            for at, key in (("uid", "uid"), ("resource_version", "resourceVersion" if kind == "dict" else "resource_version")):
                o.present(key, o.meta)
                out = run(lambda: getattr(a, at))
                no_raise(out, f"C27| {at} is read")
                eng.check(f"C27| {at} is the object's", eng.enc(out.value) == o.slot(key, o.meta))
            rv = eng.str("rv")
            out = run(lambda: setattr(a, "resource_version", rv))
            no_raise(out, "C27| resource_version is written")
            eng.check("C27| resource_version is written to the object",
                      o.slot("resourceVersion" if kind == "dict" else "resource_version", o.meta) == eng.enc(rv))
            eng.cover(f"{kind} accessor")

        @contract(f"identity.group_version_kind.{kind}", "C27", ["api.meta:type_accessor"])
        def gvk(eng):
            m = mod("api.meta")
            need(m, "type_accessor")
            schema = mod("runtime.schema")
            o = Obj(eng, kind)
            av = "apiVersion" if kind == "dict" else "api_version"
            o.present(av, o.v.expr)
            o.present("kind", o.v.expr)
            apiv, k = V2STR(o.slot(av, o.v.expr)), V2STR(o.slot("kind", o.v.expr))
            out = run(m.type_accessor, o.v)
            no_raise(out, "C27| type_accessor raises nothing")
            a = out.value
            out = run(lambda: a.group_version_kind)
            no_raise(out, "C27| group_version_kind raises nothing")
            r = out.value
            if not isinstance(r, schema.GroupVersionKind) or not all(is_text(x) for x in r):
                eng.fail("C27| group_version_kind is a GroupVersionKind of strings")
                return
            g, v, kk = (ztext(x) for x in r)
            if eng.fork(z3.Contains(apiv, SLASH)):
                # apiVersion is group/version: neither contains a slash
                grp, ver = halves(apiv, SLASH)
                eng.assume(z3.Not(z3.Contains(ver, SLASH)))
                eng.check("C27| group of a named group", g == grp)
                eng.check("C27| version of a named group", v == ver)
                eng.cover("named group")
            else:
                eng.check("C27| the core group is empty", z3.Length(g) == 0)
                eng.check("C27| the core version is the apiVersion", v == apiv)
                eng.cover("core group")
            eng.check("C27| kind is the object's", kk == k)
            for at, want in (("api_version", apiv), ("kind", k)):
                out = run(lambda: getattr(a, at))
                no_raise(out, f"C27| {at} is read")
                eng.check(f"C27| {at} is the object's", ztext(out.value) == want)

        @contract(f"identity.cache_reader_key.{kind}", "C27", ["controller._cache_reader:_object_key_to_store_key",
                                                              "cache.store:meta_namespace_key_func"])
        def reader_key(eng):
            m, r = mod("controller._cache_reader"), mod("controller.reconcile")
            need(m, "CacheReader")
            o = Obj(eng, kind)
            ns = opt_string(eng, o.nsv) if not eng.fork(o.nsv == NONE) else eng.dec(NONE)
            asked = []

            class Indexer:
                _pv_model = True

                def get_by_key(self, key):
                    asked.append(key)
                    return found
            found = eng.caller_val("stored", not_none=True)
            reader = m.CacheReader(Indexer(), None)
            key = r.NamespacedName(namespace=ns, name=SymStr(o.name))
            out = run(reader.get, key)
            no_raise(out, "C27| reading a stored object raises nothing")
            eng.check("C27| the object found is returned", eng.enc(out.value) == found.expr)
            if len(asked) != 1 or not is_text(asked[0]):
                eng.fail("C27| one lookup by key")
                return
            eng.check("C27| the lookup uses the object's store key", ztext(asked[0]) == o.storekey)
            eng.cover("reader key")

        @contract(f"identity.lists.{kind}", "C18", ["api.meta:list_accessor", "api.meta:extract_list", "api.meta:set_list"])
        def lists(eng):
            """The version and the items of a list, typed or not."""
            m = mod("api.meta")
            need(m, "list_accessor", "extract_list", "set_list")
            hooks(eng)
            v = eng.caller_val("list", not_none=True)
            e, h = v.expr, eng.heap
            eng.assume(z3.And(V.is_opq(e), inst_pred(dict)(e) == z3.BoolVal(kind == "dict")))
            at = (lambda n: f"[{n}]") if kind == "dict" else (lambda n: n)
            eng.hooks["shape:" + at("items")] = "val"
            rvn = at("resourceVersion" if kind == "dict" else "resource_version")
            meta = h.read("a:" + at("metadata"), e)
            eng.assume(z3.And(V.is_opq(meta), meta != e, h.read("?a:" + at("metadata"), e), h.read("?a:" + rvn, meta),
                              h.read("?a:" + at("items"), e)))
            eng.assume(h.read("a:" + rvn, meta) != NONE)
            which = eng.choose(3)
            if which == 0:
                out = run(lambda: m.list_accessor(v).resource_version)
                no_raise(out, "C18| the version of a list is read")
                eng.check("C18| the version of a list is its own", eng.enc(out.value) == h.read("a:" + rvn, meta))
                return
            if which == 2:
                items = eng.caller_val("items")
                out = run(m.set_list, v, items)
                no_raise(out, "C18| the items of a list are written")
                eng.check("C18| the items of a list are those written", eng.heap.read("a:" + at("items"), e) == items.expr)
            want = eng.heap.read("a:" + at("items"), e)
            out = run(m.extract_list, v)
            no_raise(out, "C18| the items of a list are read")
            eng.check("C18| the items of a list are its own", eng.enc(out.value) == want)

        @contract(f"identity.no_metadata.{kind}", "C27", ["api.meta:accessor"])
        def no_meta(eng):
            m = mod("api.meta")
            hooks(eng)
            v = eng.caller_val("thing", not_none=True)
            e = v.expr
            eng.assume(z3.And(V.is_opq(e), inst_pred(dict)(e) == z3.BoolVal(kind == "dict")))
            eng.assume(z3.Not(eng.heap.read("?a:" + ("[metadata]" if kind == "dict" else "metadata"), e)))
            out = run(m.accessor, v)
            eng.check("C27| an object without metadata has no identity", z3.BoolVal(
                out.exc is not None and isinstance(out.exc, Exception)))
            eng.cover("no metadata")
    _mk(KIND)


@contract("identity.explicit_key", "C27", ["cache.store:meta_namespace_key_func"])
def explicit(eng):
    m = mod("cache.store")
    need(m, "ExplicitKey", "meta_namespace_key_func")
    s = eng.str("key")
    out = run(m.meta_namespace_key_func, SymStrSub(s.expr, m.ExplicitKey))
    check_key(eng, out, s.expr, "explicit key")
    eng.cover("explicit key")


@contract("identity.tombstone_key", "C27", ["cache.controller:deletion_handling_meta_namespace_key_func"])
def tombstone(eng):
    m, d = mod("cache.controller"), mod("cache.delta_fifo")
    s = eng.str("key")
    out = run(m.deletion_handling_meta_namespace_key_func, d.DeletedFinalStateUnknown(s, eng.caller_val("last")))
    check_key(eng, out, s.expr, "tombstone")
    eng.cover("tombstone key")


@contract("identity.no_clash", "C27", ["cache.store:meta_namespace_key_func"])
def clash(eng):
    """Two objects whose namespaces and names contain no slash share a key only if both agree."""
    f = mod("cache.store").meta_namespace_key_func
    a, b = Obj(eng, "typed", "a"), Obj(eng, "dict", "b")
    for o in (a, b):
        eng.assume(z3.Not(z3.Contains(o.ns, SLASH)))
        eng.assume(z3.Not(z3.Contains(o.name, SLASH)))
    eng.use_cvc5 = True
    ra, rb = run(f, a.v), run(f, b.v)
    no_raise(ra, "C27| key of the first")
    no_raise(rb, "C27| key of the second")
    eng.check("C27| objects that share a key have the same namespace", z3.Implies(
        ztext(ra.value) == ztext(rb.value), a.ns == b.ns))
    eng.check("C27| objects that share a key have the same name", z3.Implies(
        ztext(ra.value) == ztext(rb.value), a.name == b.name))
    eng.cover("two objects")


@contract("identity.namespace_index", "C27", ["cache.index:meta_namespace_index_func"])
def ns_index(eng):
    m = mod("cache.index")
    o = Obj(eng, "dict" if eng.choose(2) else "typed")
    out = run(m.meta_namespace_index_func, o.v)
    no_raise(out, "C27| the namespace index accepts every object with metadata")
    r = out.value
    eng.check("C27| one index value", r.zlen() == 1)
    eng.check("C27| which is the namespace", eng.enc(r[0]) == o.nsv)
    eng.cover("index")
