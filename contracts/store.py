"""Contracts of cache/thread_safe_store.py and cache/store.py (C07, C08)."""
import z3

from pydv.containers import IV, KeysSource, ListSource, MDict, MList, MSet
from pydv.core import E, NONE, V, Unsupported
from pydv.spec import DictV, LoopSpec, contract, instance, mod, need, no_raise, run, setf

TS, ST = "cache.thread_safe_store", "cache.store"
_I = z3.IntSort()
LEN = z3.Function("idx_len", V, V, _I)                              # index function, object -> number of values
ELS = z3.Function("idx_vals", V, V, z3.ArraySort(_I, V))
YIELDS = z3.Function("idx_yields", V, V, V, z3.BoolSort())
FIRST = z3.Function("idx_first", V, V, V, _I)
KEY = z3.Function("key_of", V, V)                                   # key function
KEYFAIL = z3.Function("key_fails", V, z3.BoolSort())
n_, v_, k_, f_, o_ = (z3.Const(x, V) for x in ("n!st", "v!st", "k!st", "f!st", "o!st"))
n2, v2 = z3.Const("n2!st", V), z3.Const("v2!st", V)
i_ = z3.Int("i!st")


class KeyFuncError(Exception):
    pass


def theory(eng):
    """Index functions are total, deterministic, and return lists."""
    eng.obj_eq = True
    eng.assume(z3.ForAll([f_, o_], LEN(f_, o_) >= 0, patterns=[LEN(f_, o_)]))
    eng.assume(z3.ForAll([f_, o_, i_], z3.Implies(z3.And(0 <= i_, i_ < LEN(f_, o_)), z3.And(
        YIELDS(f_, o_, z3.Select(ELS(f_, o_), i_)), FIRST(f_, o_, z3.Select(ELS(f_, o_), i_)) <= i_)),
        patterns=[z3.Select(ELS(f_, o_), i_)]))
    eng.assume(z3.ForAll([f_, o_, v_], z3.Implies(YIELDS(f_, o_, v_), z3.And(
        0 <= FIRST(f_, o_, v_), FIRST(f_, o_, v_) < LEN(f_, o_),
        z3.Select(ELS(f_, o_), FIRST(f_, o_, v_)) == v_)), patterns=[YIELDS(f_, o_, v_)]))


def St(H, tm):
    """Terms for the state of one _ThreadSafeMap in one heap (one set of names per state)."""
    cache = E().ghost.setdefault("states", {})
    key = tuple(H[x].get_id() for x in ("has", "val", "size")) + tuple(
        c._pv_ref.get_id() for c in (tm._items, tm._indices, tm._indexers))
    if key not in cache:
        cache[key] = (_St(H, tm), [H[x] for x in ("has", "val", "size")])
    return cache[key][0]


class _St:
    def __init__(self, H, tm):
        self.x, self.n, self.d = tm._items._pv_ref, tm._indices._pv_ref, tm._indexers._pv_ref
        self.has, self.val, self.size = (named(H[x]) for x in ("has", "val", "size"))
        self.M_ = z3.Function(f"M!{E().fresh('M', _I)}", V, V, V, z3.BoolSort())
        d = z3.And(self.hasN(n_), self.hasV(n_, v_), self.mem(n_, v_, k_))
        E().assume(z3.ForAll([n_, v_, k_], self.M_(n_, v_, k_) == d, patterns=[self.M_(n_, v_, k_)]))
        E().assume(z3.ForAll([n_, v_, k_], self.M_(n_, v_, k_) == d, patterns=[self.mem(n_, v_, k_)]))

    def hasX(self, k):
        return z3.Select(z3.Select(self.has, self.x), k)

    def valX(self, k):
        return z3.Select(z3.Select(self.val, self.x), k)

    def hasD(self, n):
        return z3.Select(z3.Select(self.has, self.d), n)

    def fn(self, n):
        return z3.Select(z3.Select(self.val, self.d), n)

    def hasN(self, n):
        return z3.Select(z3.Select(self.has, self.n), n)

    def idx(self, n):
        return z3.Select(z3.Select(self.val, self.n), n)

    def hasV(self, n, v):
        return z3.Select(z3.Select(self.has, self.idx(n)), v)

    def st(self, n, v):
        return z3.Select(z3.Select(self.val, self.idx(n)), v)

    def mem(self, n, v, k):
        return z3.Select(z3.Select(self.has, self.st(n, v)), k)

    def M(self, n, v, k):
        return self.M_(n, v, k)


def named(a):
    """A constant equal to the array, so that patterns over it match."""
    if z3.is_const(a):
        return a
    c = E().fresh("heap", a.sort())
    E().assume(c == a)
    return c


def index_inv(S, tag="C08"):
    """The index structure agrees with the stored objects."""
    return [
        (f"{tag}| every key in an index entry is stored and its object yields that value", z3.ForAll(
            [n_, v_, k_], z3.Implies(S.M(n_, v_, k_), z3.And(
                S.hasD(n_), S.hasX(k_), YIELDS(S.fn(n_), S.valX(k_), v_))), patterns=[S.M(n_, v_, k_)])),
        (f"{tag}| every value a stored object yields leads to its key", z3.ForAll(
            [n_, v_, k_], z3.Implies(z3.And(S.hasD(n_), S.hasX(k_), YIELDS(S.fn(n_), S.valX(k_), v_)),
                                     S.M(n_, v_, k_)), patterns=[YIELDS(S.fn(n_), S.valX(k_), v_)])),
        ("C07,C08| no stored object is None", z3.ForAll([k_], z3.Implies(S.hasX(k_), S.valX(k_) != NONE),
                                                       patterns=[S.valX(k_)])),
    ] + shape_inv(S)


def shape_inv(S, top=None):
    """Index dicts and entries are separate objects; no entry is empty."""
    ks = [S.x, S.n, S.d]
    return [
        ("C08| no index entry is empty", z3.ForAll([n_, v_], z3.Implies(
            z3.And(S.hasN(n_), S.hasV(n_, v_)), z3.Select(S.size, S.st(n_, v_)) >= 1), patterns=[S.hasV(n_, v_)])),
        ("indexes are separate", z3.ForAll([n_, n2], z3.Implies(
            z3.And(S.hasN(n_), S.hasN(n2), n_ != n2), S.idx(n_) != S.idx(n2)),
            patterns=[z3.MultiPattern(S.idx(n_), S.idx(n2))])),
        ("index entries are separate", z3.ForAll([n_, v_, n2, v2], z3.Implies(
            z3.And(S.hasN(n_), S.hasV(n_, v_), S.hasN(n2), S.hasV(n2, v2), z3.Or(n_ != n2, v_ != v2)),
            S.st(n_, v_) != S.st(n2, v2)), patterns=[z3.MultiPattern(S.st(n_, v_), S.st(n2, v2))])),
        ("indexes and entries are separate", z3.ForAll([n_, v_, n2], z3.Implies(
            z3.And(S.hasN(n_), S.hasV(n_, v_), S.hasN(n2)), S.st(n_, v_) != S.idx(n2)),
            patterns=[z3.MultiPattern(S.st(n_, v_), S.idx(n2))])),
        ("indexes are objects of their own", z3.ForAll([n_], z3.Implies(S.hasN(n_), z3.And(
            [V.is_ref(S.idx(n_)), V.gen(S.idx(n_)) < gen_now()] + [S.idx(n_) != r for r in ks])), patterns=[S.idx(n_)])),
        ("entries are objects of their own", z3.ForAll([n_, v_], z3.Implies(
            z3.And(S.hasN(n_), S.hasV(n_, v_)), z3.And(
                [V.is_ref(S.st(n_, v_)), V.gen(S.st(n_, v_)) < gen_now()] + [S.st(n_, v_) != r for r in ks])),
            patterns=[S.st(n_, v_)])),
    ]


def gen_now():
    return E().next_gen


SET = ("set", MSet, "val")


def build(eng):
    m, ix = mod(TS), mod("cache.index")
    need(m, "_ThreadSafeMap")
    need(ix, "Indexers", "Indices", "Index")
    tm = m._ThreadSafeMap(ix.Indexers(), ix.Indices())
    instance(tm, ("_lock", "_items", "_indexers", "_indices"))
    theory(eng)

    def call(fn, *args):
        if len(args) != 1:
            return NotImplemented
        f, o = fn.expr, eng.enc(args[0])
        r = MList()
        eng.heap.write("el", r._pv_ref, ELS(f, o))
        eng.heap.write("hi", r._pv_ref, LEN(f, o))
        eng.assume(LEN(f, o) >= 0)
        r._pv_elem = "val"
        r._pv_index = (f, o)
        return r
    eng.hooks["call"] = call

    def arbitrary(first):
        """The state other tasks may leave behind: new containers (replace assigns them), the same indexers object."""
        setf(tm, "_items", MDict())
        setf(tm, "_indices", ix.Indices())
        X, N, D = tm._items, tm._indices, tm._indexers
        X._pv_key = X._pv_elem = D._pv_key = D._pv_elem = N._pv_key = "val"
        N._pv_elem = ("dict", ix.Index, "val", SET)
        for c in (X, N, D):
            eng.havoc_container(c)
        eng.havoc_symbolic()
        S = St(eng.heap, tm)
        for _, f in index_inv(S):
            eng.assume(f)
        eng.assume(z3.ForAll([n_], z3.Implies(S.hasN(n_), V.gen(S.idx(n_)) <= 0), patterns=[S.idx(n_)]))
        eng.assume(z3.ForAll([n_, v_], z3.Implies(z3.And(S.hasN(n_), S.hasV(n_, v_)), V.gen(S.st(n_, v_)) <= 0),
                             patterns=[S.st(n_, v_)]))
        eng.ghost["pre"] = eng.heap.snap()
        eng.ghost["preX"] = DictV(X)
        eng.ghost["S"] = S
    arbitrary(True)

    def on_suspend(tag, prim):
        same(eng, tm, "C07,C08| nothing is changed before the lock is held")
        arbitrary(False)
    eng.on_suspend = on_suspend
    return tm, arbitrary


def same(eng, tm, name):
    """The stored objects and the index are as at the last point where others could run."""
    eng.check(name, DictV(tm._items).same(eng.ghost["preX"]))
    for nm, f in index_inv(St(eng.heap, tm)):
        eng.check(f"{name}: {nm}" if "|" not in nm else nm, f)


def before(loop, i, v):
    """Value v is among the elements the (inner) loop has gone through."""
    src = loop.src
    lst = getattr(loop, "owner", None)
    if isinstance(src, ListSource) and getattr(lst, "_pv_index", None) is not None:
        f, o = lst._pv_index
        return z3.And(YIELDS(f, o, v), FIRST(f, o, v) < i)
    raise Unsupported("loop over index values in another form")


def update_loops(eng, tm):
    """Loops over the indexers, and over the values of one index function, in the two index helpers."""
    def visited(loop, i, n):
        return z3.And(z3.Select(loop.src.has0, n), loop.src.pos(n) < i)

    def inv(ctx, removing, inner):
        loop = ctx.loop
        S0, S = St(loop.outer_pre if inner else ctx.pre, tm), St(eng.heap, tm)
        key = eng.ghost["key"]()
        obj = eng.ghost["obj_old" if removing else "obj_new"]()
        if inner:
            out = loop.outer
            oi = out.ctx_i
            cur = out.src.key(oi)
            touched = lambda n, v: z3.Or(z3.And(visited(out, oi, n), YIELDS(S0.fn(n), obj, v)),
                                         z3.And(n == cur, before(loop, ctx.i, v)))
        else:
            ctx.src.setup()
            touched = lambda n, v: z3.And(visited(loop, ctx.i, n), YIELDS(S0.fn(n), obj, v))
        t = z3.And(k_ == key, touched(n_, v_))
        what = z3.And(S0.M(n_, v_, k_), z3.Not(t)) if removing else z3.Or(S0.M(n_, v_, k_), t)
        pats = [S.M(n_, v_, k_), S0.M(n_, v_, k_)] + ([] if removing else [
            z3.MultiPattern(YIELDS(S0.fn(n_), obj, v_), S0.hasX(k_))])
        word = "without the old object's values" if removing else "with the new object's values"
        r = [(f"C08| index so far: as before, {word} of the indexes visited",
              z3.ForAll([n_, v_, k_], S.M(n_, v_, k_) == what, patterns=pats))]
        return r + shape_inv(S)

    def spec(fn, removing):
        def outer_match(loop):
            return fn in loop.key and isinstance(loop.src, KeysSource) and loop.owner is tm._indexers

        def inner_match(loop):
            if fn not in loop.key or getattr(loop.owner, "_pv_index", None) is None or not eng.loop_stack:
                return False
            out = eng.loop_stack[-1]
            if not outer_match(out):
                return False
            loop.outer, loop.outer_pre = out, out.pre_heap
            return True

        def outer_inv(ctx):
            ctx.loop.ctx_i = ctx.i
            return inv(ctx, removing, False)
        eng.loop_specs.append(LoopSpec(name=f"indexers in {fn}", match=outer_match, inv=outer_inv))
        eng.loop_specs.append(LoopSpec(name=f"index values in {fn}", match=inner_match,
                                       inv=lambda ctx: inv(ctx, removing, True)))
    spec("_delete_from_indices", True)
    spec("_update_indices", False)


def finish(eng, tm):
    for nm, f in index_inv(St(eng.heap, tm)):
        eng.check(nm if "|" in nm else "C07,C08| " + nm, f)


def write(eng, method):
    tm, _ = build(eng)
    key, obj = eng.caller_val("key"), eng.caller_val("obj", not_none=True)
    eng.ghost["key"] = lambda: key.expr
    eng.ghost["obj_new"] = lambda: obj.expr
    eng.ghost["obj_old"] = lambda: eng.ghost["preX"].get(key.expr)
    update_loops(eng, tm)
    out = run(getattr(tm, method), key, obj)
    no_raise(out, f"C07,C08| {method} raises nothing")
    X0, X = eng.ghost["preX"], DictV(tm._items)
    eng.check(f"C07| after {method} the object is stored under its key", z3.And(X.has(key.expr), X.get(key.expr) == obj.expr))
    eng.check(f"C07| {method} changes no other key", X0.same_but(key.expr, X))
    S0, S = eng.ghost["S"], St(eng.heap, tm)
    eng.check("C08| the index entries of other keys stay", z3.ForAll(
        [n_, v_, k_], z3.Implies(k_ != key.expr, S.M(n_, v_, k_) == S0.M(n_, v_, k_)), patterns=[S.M(n_, v_, k_)]))
    eng.check("C08| the index entries of the key are those the new object yields", z3.ForAll(
        [n_, v_], S.M(n_, v_, key.expr) == z3.And(S.hasD(n_), YIELDS(S.fn(n_), obj.expr, v_)),
        patterns=[S.M(n_, v_, key.expr)]))
    finish(eng, tm)
    eng.cover("written")


@contract("store.Map.add", "C07 C08", [TS + ":_ThreadSafeMap.add", TS + ":_ThreadSafeMap._update_indices",
                                       TS + ":_ThreadSafeMap._delete_from_indices"])
def add(eng):
    write(eng, "add")


@contract("store.Map.update", "C07 C08", [TS + ":_ThreadSafeMap.update"])
def update(eng):
    write(eng, "update")


@contract("store.Map.delete", "C07 C08", [TS + ":_ThreadSafeMap.delete"])
def delete(eng):
    tm, _ = build(eng)
    key, obj = eng.caller_val("key"), eng.caller_val("obj", not_none=True)
    eng.ghost["key"] = lambda: key.expr
    eng.ghost["obj_old"] = lambda: eng.ghost["preX"].get(key.expr)
    update_loops(eng, tm)
    out = run(tm.delete, key, obj)
    no_raise(out, "C07,C08| delete raises nothing, also for an absent key")
    X0, X = eng.ghost["preX"], DictV(tm._items)
    eng.check("C07| after delete nothing is stored under the key", z3.Not(X.has(key.expr)))
    eng.check("C07| delete changes no other key", X0.same_but(key.expr, X))
    finish(eng, tm)
    eng.cover("deleted")


@contract("store.Map.replace", "C07 C08", [TS + ":_ThreadSafeMap.replace", TS + ":_ThreadSafeMap._update_indices"])
def replace(eng):
    tm, _ = build(eng)
    new = MDict()
    eng.havoc_container(new)
    new._pv_key = new._pv_elem = "val"
    Y = DictV(new)
    eng.assume(Y.items(lambda k, v: v != NONE))
    update_loops(eng, tm)
    outer = []

    def cur():
        return outer[-1]
    eng.ghost["key"] = lambda: cur().src.key(cur().ctx_i)
    eng.ghost["obj_new"] = lambda: Y.get(cur().src.key(cur().ctx_i))

    def match(loop):
        if "replace" not in loop.key or not isinstance(loop.src, KeysSource) or loop.owner is not tm._items:
            return False
        outer.append(loop)
        return True

    def inv(ctx):
        ctx.loop.ctx_i = ctx.i
        ctx.src.setup()
        S = St(eng.heap, tm)
        done = lambda k: z3.And(Y.has(k), ctx.src.pos(k) < ctx.i)
        full = z3.And(S.hasD(n_), done(k_), YIELDS(S.fn(n_), Y.get(k_), v_))
        return [("C08| the index so far is that of the objects indexed so far", z3.ForAll(
            [n_, v_, k_], S.M(n_, v_, k_) == full,
            patterns=[S.M(n_, v_, k_), YIELDS(S.fn(n_), Y.get(k_), v_)]))] + shape_inv(S)
    eng.loop_specs.append(LoopSpec(name="objects in replace", match=match, inv=inv))
    out = run(tm.replace, new, eng.caller_val("rv"))
    no_raise(out, "C07,C08| replace raises nothing")
    eng.check("C07| after replace the store holds exactly the new content", Y.same(DictV(tm._items)))
    finish(eng, tm)
    eng.cover("replaced")


@contract("store.Map.__init__", "C07 C08", [TS + ":_ThreadSafeMap.__init__", TS + ":new_thread_safe_store"])
def init(eng):
    m, ix = mod(TS), mod("cache.index")
    need(m, "new_thread_safe_store")
    D = ix.Indexers()
    eng.havoc_container(D)
    D._pv_key = D._pv_elem = "val"
    tm = m.new_thread_safe_store(D, ix.Indices())
    instance(tm, ("_lock", "_items", "_indexers", "_indices"))
    eng.check("C07| a new store is empty", z3.ForAll([k_], z3.Not(DictV(tm._items).has(k_))))
    eng.check("C08| a new store uses the given indexers", z3.BoolVal(tm._indexers is D))
    S = St(eng.heap, tm)
    for nm, f in index_inv(S):
        eng.check("C07,C08| initially: " + nm.split("|")[-1], f)


def reads(eng, name, f, tags="C08"):
    out = run(f)
    same(eng, tmof(eng), f"{tags}| {name} changes nothing")
    return out


def tmof(eng):
    return eng.ghost["tm"]


def read_setup(eng):
    tm, arb = build(eng)
    eng.ghost["tm"] = tm
    return tm


def lookup(eng, method, objects):
    tm = read_setup(eng)
    name, value = eng.caller_val("index_name"), eng.caller_val("index_value")
    out = run(getattr(tm, method), name, value)
    same(eng, tm, f"C08| {method} changes nothing")
    S = eng.ghost["S"]
    nm, v = name.expr, value.expr
    if not out.ok:
        eng.check(f"C08| {method} fails only for an unknown index", z3.And(
            z3.Not(S.hasD(nm)), z3.BoolVal(isinstance(out.exc, KeyError))))
        eng.cover("unknown index")
        return
    eng.check(f"C08| {method} of an unknown index fails", S.hasD(nm))
    r = out.value
    if not isinstance(r, MList):
        raise Unsupported(f"{method} returns {type(r).__name__}")
    matches = lambda k: z3.And(S.hasX(k), YIELDS(S.fn(nm), S.valX(k), v))
    exact(eng, method, r, S, matches, objects)
    eng.cover("found")


def exact(eng, method, r, S, matches, objects):
    """The list r holds exactly the matching objects (or keys), each once."""
    what = "objects" if objects else "keys"
    val = (lambda k: S.valX(k)) if objects else (lambda k: k)
    i = eng.fresh("ri", _I)
    eng.assume(z3.And(r.lo <= i, i < r.hi))
    x = z3.Select(r.el, i)
    eng.check(f"C08| {method} returns only matching {what}",
              z3.Not(z3.ForAll([k_], z3.Not(z3.And(matches(k_), x == val(k_))), patterns=[S.hasX(k_)])))
    k = eng.fresh("mk", V)
    eng.assume(matches(k))
    j = z3.Int("j!ex")
    src = getattr(getattr(r, "_pv_comp", None), "src", None)
    if isinstance(src, KeysSource):      # a term for the prover to start from
        eng.assume(eng.fresh("hint", z3.BoolSort()) == z3.Select(src.has0, k))
    eng.check(f"C08| {method} returns every matching {what[:-1]}", z3.Not(z3.ForAll(
        [j], z3.Implies(z3.And(r.lo <= j, j < r.hi), z3.Select(r.el, j) != val(k)), patterns=[z3.Select(r.el, j)])))
    if objects:
        a, b = z3.Const("a!inj", V), z3.Const("b!inj", V)
        eng.assume(z3.ForAll([a, b], z3.Implies(z3.And(S.hasX(a), S.hasX(b), a != b), S.valX(a) != S.valX(b)),
                             patterns=[z3.MultiPattern(S.valX(a), S.valX(b))]))
    i2 = eng.fresh("ri2", _I)
    eng.assume(z3.And(r.lo <= i2, i2 < r.hi, i2 != i))
    eng.check(f"C08| {method} returns nothing twice", x != z3.Select(r.el, i2))


@contract("store.Map.by_index", "C08", [TS + ":_ThreadSafeMap.by_index"])
def by_index(eng):
    lookup(eng, "by_index", True)


@contract("store.Map.index_keys", "C08", [TS + ":_ThreadSafeMap.index_keys"])
def index_keys(eng):
    lookup(eng, "index_keys", False)


@contract("store.Map.index", "C08", [TS + ":_ThreadSafeMap.index"])
def index(eng):
    tm = read_setup(eng)
    name, obj = eng.caller_val("index_name"), eng.caller_val("obj", not_none=True)
    out = run(tm.index, name, obj)
    same(eng, tm, "C08| index changes nothing")
    S = eng.ghost["S"]
    nm, o = name.expr, obj.expr
    if not out.ok:
        eng.check("C08| index fails only for an unknown index", z3.And(
            z3.Not(S.hasD(nm)), z3.BoolVal(isinstance(out.exc, KeyError))))
        eng.cover("unknown index")
        return
    eng.check("C08| index of an unknown index fails", S.hasD(nm))
    r = out.value
    if not isinstance(r, MList):
        raise Unsupported("index returns another type")
    share = z3.Function("share", V, V, z3.BoolSort())     # two objects have an index value in common
    common = z3.Function("common", V, V, V)
    a, b = z3.Const("a!sh", V), z3.Const("b!sh", V)
    f = S.fn(nm)
    eng.assume(z3.ForAll([b], z3.Implies(share(o, b), z3.And(YIELDS(f, o, common(o, b)), YIELDS(f, b, common(o, b)))),
                         patterns=[share(o, b)]))
    eng.assume(z3.ForAll([b, v_], z3.Implies(z3.And(YIELDS(f, o, v_), YIELDS(f, b, v_)), share(o, b)),
                         patterns=[YIELDS(f, b, v_)]))
    exact(eng, "index", r, S, lambda k: z3.And(S.hasX(k), share(o, S.valX(k))), True)
    eng.cover("found")


@contract("store.Map.list_index_func_values", "C08", [TS + ":_ThreadSafeMap.list_index_func_values"])
def list_values(eng):
    tm = read_setup(eng)
    name = eng.caller_val("index_name")
    out = run(tm.list_index_func_values, name)
    same(eng, tm, "C08| list_index_func_values changes nothing")
    no_raise(out, "C08| list_index_func_values raises nothing")
    S, nm, r = eng.ghost["S"], name.expr, out.value
    if not isinstance(r, MList):
        raise Unsupported("another type")
    i = eng.fresh("ri", _I)
    eng.assume(z3.And(r.lo <= i, i < r.hi))
    x = z3.Select(r.el, i)
    some = z3.Select(z3.Select(S.has, S.st(nm, x)), core_member(S, nm, x))
    eng.check("C08| each value listed is yielded by some stored object", z3.Implies(S.hasD(nm), z3.And(
        some, S.hasX(core_member(S, nm, x)), YIELDS(S.fn(nm), S.valX(core_member(S, nm, x)), x))))
    k, v = eng.fresh("mk", V), eng.fresh("mv", V)
    eng.assume(z3.And(S.hasD(nm), S.hasX(k), YIELDS(S.fn(nm), S.valX(k), v)))
    j = z3.Int("j!ex")
    eng.check("C08| every value some stored object yields is listed", z3.Not(z3.ForAll(
        [j], z3.Implies(z3.And(r.lo <= j, j < r.hi), z3.Select(r.el, j) != v), patterns=[z3.Select(r.el, j)])))
    i2 = eng.fresh("ri2", _I)
    eng.assume(z3.And(r.lo <= i2, i2 < r.hi, i2 != i))
    eng.check("C08| no value is listed twice", x != z3.Select(r.el, i2))
    eng.cover("listed")


def core_member(S, n, v):
    from pydv.core import MEMBER
    return MEMBER(z3.Select(S.has, S.st(n, v)))


@contract("store.Map.add_indexers", "C08", [TS + ":_ThreadSafeMap.add_indexers"])
def add_indexers(eng):
    tm = read_setup(eng)
    ix = mod("cache.index")
    new = ix.Indexers()
    eng.havoc_container(new)
    new._pv_key = new._pv_elem = "val"
    NEW = DictV(new)
    eng.on_suspend_old = eng.on_suspend
    old = eng.on_suspend

    def susp(tag, prim):
        old(tag, prim)
        eng.ghost["preD"] = DictV(tm._indexers)
    eng.ghost["preD"] = DictV(tm._indexers)
    eng.on_suspend = susp
    out = run(tm.add_indexers, new)
    D0, D, X = eng.ghost["preD"], DictV(tm._indexers), eng.ghost["preX"]
    S = St(eng.heap, tm)
    if out.exc is not None and not out.cancelled():
        a = eng.fresh("any", V)
        eng.check("C08| indexers are refused only for a non-empty store or an existing name", z3.Not(z3.And(
            z3.ForAll([k_], z3.Not(X.has(k_)), patterns=[X.has(k_)]),
            z3.ForAll([k_], z3.Not(z3.And(D0.has(k_), NEW.has(k_))), patterns=[D0.has(k_), NEW.has(k_)]))))
        eng.check("C08| refused indexers change nothing", D0.same(D))
        same(eng, tm, "C08| refused indexers change nothing")
        eng.cover("refused")
        return
    eng.check("C08| indexers are accepted only by an empty store", z3.ForAll([k_], z3.Not(X.has(k_))))
    eng.check("C08| indexers are accepted only under new names",
              z3.ForAll([k_], z3.Not(z3.And(D0.has(k_), NEW.has(k_)))))
    eng.check("C08| accepted indexers take part from then on", z3.ForAll([k_], z3.And(
        D.has(k_) == z3.Or(D0.has(k_), NEW.has(k_)),
        z3.Implies(NEW.has(k_), D.get(k_) == NEW.get(k_)),
        z3.Implies(z3.And(D0.has(k_), z3.Not(NEW.has(k_))), D.get(k_) == D0.get(k_)))))
    finish(eng, tm)
    eng.cover("accepted")


@contract("store.Map.get", "C07", [TS + ":_ThreadSafeMap.get", TS + ":_ThreadSafeMap.list", TS + ":_ThreadSafeMap.list_keys"])
def get(eng):
    tm = read_setup(eng)
    k = eng.caller_val("key")
    X = eng.ghost["preX"]
    which = eng.choose(3)
    if which == 0:
        out = run(tm.get, k)
        no_raise(out, "C07| get raises nothing")
        eng.check("C07| get returns what is stored under the key, None if nothing is",
                  eng.enc(out.value) == z3.If(X.has(k.expr), X.get(k.expr), NONE))
    else:
        out = run(tm.list if which == 1 else tm.list_keys)
        nm = "list" if which == 1 else "list_keys"
        no_raise(out, f"C07| {nm} raises nothing")
        r = out.value
        if not isinstance(r, MList):
            raise Unsupported("another type")
        listing(eng, nm, r, X, which == 1)
    same(eng, tm, "C07| reading changes nothing")
    eng.cover("read")


def listing(eng, nm, r, X, objects, tag="C07"):
    val = (lambda k: X.get(k)) if objects else (lambda k: k)
    i = eng.fresh("ri", _I)
    eng.assume(z3.And(r.lo <= i, i < r.hi))
    x = eng.fresh("rx", V)
    eng.assume(x == z3.Select(r.el, i))
    eng.check(f"{tag}| {nm} returns only what is stored",
              z3.Not(z3.ForAll([k_], z3.Not(z3.And(X.has(k_), x == val(k_))), patterns=[X.has(k_)])))
    k = eng.fresh("mk", V)
    eng.assume(X.has(k))
    j = z3.Int("j!ex")
    eng.check(f"{tag}| {nm} returns everything stored", z3.Not(z3.ForAll(
        [j], z3.Implies(z3.And(r.lo <= j, j < r.hi), z3.Select(r.el, j) != val(k)), patterns=[z3.Select(r.el, j)])))
    if objects:
        a, b = z3.Const("a!inj", V), z3.Const("b!inj", V)
        eng.assume(z3.ForAll([a, b], z3.Implies(z3.And(X.has(a), X.has(b), a != b), X.get(a) != X.get(b)),
                             patterns=[z3.MultiPattern(X.get(a), X.get(b))]))
    i2 = eng.fresh("ri2", _I)
    eng.assume(z3.And(r.lo <= i2, i2 < r.hi, i2 != i))
    eng.check(f"{tag}| {nm} returns nothing twice", x != z3.Select(r.el, i2))


# ---------------------------------------------------------------- _Cache
class Storage:
    """The thread safe store seen through its contract: calls are recorded."""
    METHODS = ("add", "update", "delete", "replace", "resync", "index", "index_keys", "list_index_func_values",
               "by_index", "add_indexers")
    SYNC = ("get", "list", "list_keys", "get_indexers")
    _pv_model = True

    def __init__(self, eng):
        self.eng, self.calls = eng, []

    def __getattr__(self, name):
        if name.startswith("_"):
            raise AttributeError(name)
        if name in self.SYNC:
            def f(*a):
                r = self.eng.val(name + "_result")
                self.calls.append((name, a, r))
                return r
            return f
        if name in self.METHODS:
            async def g(*a):
                r = self.eng.val(name + "_result")
                self.calls.append((name, a, r))
                self.eng.suspend("storage." + name)
                return r
            return g
        raise AttributeError(name)


def cache(eng):
    m = mod(ST)
    need(m, "_Cache", "StoreKeyError")
    st = Storage(eng)
    kf = eng.caller_val("key_func", not_none=True)

    def call(fn, *args):
        if not fn.expr.eq(kf.expr) or len(args) != 1:
            return NotImplemented
        o = eng.enc(args[0])
        if eng.fork(KEYFAIL(o)):
            raise KeyFuncError
        return eng.dec(KEY(o))
    eng.hooks["call"] = call
    c = m._Cache(st, kf)
    instance(c, ("_cache_storage", "_key_func"))
    return m, c, st


def key_error(eng, m, out, o, st, name):
    eng.check(f"C07| {name} fails only with StoreKeyError, when the key function fails",
              z3.And(z3.BoolVal(isinstance(out.exc, m.StoreKeyError)), KEYFAIL(o)))
    if isinstance(out.exc, m.StoreKeyError):
        eng.check(f"C07| the StoreKeyError of {name} carries the object", eng.enc(out.exc.obj) == o)
    eng.check(f"C07| {name} leaves the store alone when the key function fails", z3.BoolVal(not st.calls))
    eng.cover("key function fails")


@contract("store.Cache.write", "C07", [ST + ":_Cache.add", ST + ":_Cache.update", ST + ":_Cache.delete"])
def cache_write(eng):
    m, c, st = cache(eng)
    op = ("add", "update", "delete")[eng.choose(3)]
    o = eng.caller_val("obj", not_none=True)
    out = run(getattr(c, op), o)
    if not out.ok:
        key_error(eng, m, out, o.expr, st, op)
        return
    ok = len(st.calls) == 1 and (st.calls[0][0] == op or {st.calls[0][0], op} == {"add", "update"})
    eng.check(f"C07| {op} performs exactly one {op} in the underlying map", z3.BoolVal(ok))
    if ok:
        a = st.calls[0][1]
        eng.check(f"C07| {op} passes the object and its key on",
                  z3.And(eng.enc(a[0]) == KEY(o.expr), eng.enc(a[1]) == o.expr))
    eng.check(f"C07| {op} does not ignore a failing key function", z3.Not(KEYFAIL(o.expr)))
    eng.cover("written")


@contract("store.Cache.get", "C07", [ST + ":_Cache.get", ST + ":_Cache.get_by_key", ST + ":_Cache.list", ST + ":_Cache.list_keys"])
def cache_get(eng):
    m, c, st = cache(eng)
    op = ("get", "get_by_key", "list", "list_keys")[eng.choose(4)]
    o = eng.caller_val("obj", not_none=True)
    out = run(getattr(c, op), *([o] if op.startswith("get") else []))
    if not out.ok:
        if op == "get":
            key_error(eng, m, out, o.expr, st, op)
        else:
            no_raise(out, f"C07| {op} raises nothing")
        return
    inner = "get" if op.startswith("get") else op
    ok = len(st.calls) == 1 and st.calls[0][0] == inner
    eng.check(f"C07| {op} reads the underlying map once", z3.BoolVal(ok))
    if ok:
        eng.check(f"C07| {op} returns what the underlying map returns", eng.enc(out.value) == st.calls[0][2].expr)
        if inner == "get":
            eng.check(f"C07| {op} looks under the key asked for", eng.enc(st.calls[0][1][0]) == (
                KEY(o.expr) if op == "get" else o.expr))
    eng.cover("read")


@contract("store.Cache.replace", "C07", [ST + ":_Cache.replace"])
def cache_replace(eng):
    m, c, st = cache(eng)
    lst = MList()
    eng.havoc_container(lst)
    lst._pv_elem = "val"
    lo, hi, el = lst.lo, lst.hi, lst.el
    el_ = lambda j: z3.Select(el, j)
    j, j2 = z3.Int("j!cr"), z3.Int("j2!cr")
    eng.assume(z3.ForAll([j], z3.Implies(z3.And(lo <= j, j < hi), el_(j) != NONE), patterns=[el_(j)]))

    def last(has, val, n):
        """The dict is the last-write-wins image of the first n elements."""
        return [
            ("C07| every object's key is there", z3.ForAll([j], z3.Implies(
                z3.And(lo <= j, j < lo + n), has(KEY(el_(j)))), patterns=[el_(j)])),
            ("C07| under each key is the last object with that key", z3.ForAll([k_], z3.Implies(has(k_), z3.Not(z3.ForAll(
                [j], z3.Not(z3.And(lo <= j, j < lo + n, KEY(el_(j)) == k_, val(k_) == el_(j), z3.ForAll(
                    [j2], z3.Implies(z3.And(j < j2, j2 < lo + n), KEY(el_(j2)) != k_), patterns=[el_(j2)]))),
                patterns=[el_(j)]))), patterns=[has(k_)])),
        ]

    def inv(ctx):
        d = ctx.env("items")
        if not isinstance(d, MDict):
            raise Unsupported("replace builds its content in another form")
        D = DictV(d)
        return last(D.has, D.get, ctx.i) + [("C07| the keys so far could be computed", z3.ForAll([j], z3.Implies(
            z3.And(lo <= j, j < lo + ctx.i), z3.Not(KEYFAIL(el_(j)))), patterns=[el_(j)]))]
    eng.loop_specs.append(LoopSpec(name="objects in _Cache.replace", over=lst, inv=inv))
    out = run(c.replace, lst, eng.caller_val("rv"))
    if not out.ok:
        eng.check("C07| replace fails only with StoreKeyError", z3.BoolVal(isinstance(out.exc, m.StoreKeyError)))
        if isinstance(out.exc, m.StoreKeyError):
            x = eng.enc(out.exc.obj)
            eng.check("C07| the StoreKeyError of replace carries an object whose key fails", z3.And(KEYFAIL(x), z3.Not(
                z3.ForAll([j], z3.Implies(z3.And(lo <= j, j < hi), el_(j) != x), patterns=[el_(j)]))))
        eng.check("C07| replace leaves the store alone when a key fails", z3.BoolVal(not st.calls))
        eng.cover("key function fails")
        return
    ok = len(st.calls) == 1 and st.calls[0][0] == "replace" and isinstance(st.calls[0][1][0], MDict)
    eng.check("C07| replace performs exactly one replace in the underlying map", z3.BoolVal(ok))
    if ok:
        D = DictV(st.calls[0][1][0])
        k = eng.fresh("k", V)
        for nm, f in last(D.has, D.get, hi - lo):
            eng.check(nm + " (passed on)", f)
    eng.check("C07| replace does not ignore a failing key function", z3.ForAll([j], z3.Implies(
        z3.And(lo <= j, j < hi), z3.Not(KEYFAIL(el_(j)))), patterns=[el_(j)]))
    eng.cover("replaced")


@contract("store.Cache.index", "C08", [ST + ":_Cache.index", ST + ":_Cache.index_keys", ST + ":_Cache.by_index",
                                       ST + ":_Cache.list_index_func_values", ST + ":_Cache.add_indexers"])
def cache_index(eng):
    m, c, st = cache(eng)
    ops = (("index", 2), ("index_keys", 2), ("by_index", 2), ("list_index_func_values", 1), ("add_indexers", 1))
    op, n = ops[eng.choose(len(ops))]
    args = [eng.caller_val("arg") for _ in range(n)]
    out = run(getattr(c, op), *args)
    no_raise(out, f"C08| {op} raises nothing of its own")
    ok = len(st.calls) == 1 and st.calls[0][0] == op and len(st.calls[0][1]) == n
    eng.check(f"C08| {op} asks the underlying map", z3.BoolVal(ok))
    if ok:
        eng.check(f"C08| {op} passes its arguments on", z3.And(
            [eng.enc(a) == b.expr for a, b in zip(st.calls[0][1], args)]))
        if op != "add_indexers":
            eng.check(f"C08| {op} returns the answer", eng.enc(out.value) == st.calls[0][2].expr)
    eng.cover("asked")


@contract("store.new", "C07 C08", [ST + ":new_store", ST + ":new_indexer"])
def new(eng):
    m, ts, ix = mod(ST), mod(TS), mod("cache.index")
    need(m, "new_store", "new_indexer")
    kf = eng.caller_val("key_func", not_none=True)
    D = ix.Indexers()
    for out, idx in ((run(m.new_store, kf), None), (run(m.new_indexer, kf, D), D)):
        no_raise(out, "C07,C08| a store can be built")
        c = out.value
        instance(c, ("_cache_storage", "_key_func"))
        eng.check("C07,C08| a store keeps its objects in a map under the given key function", z3.BoolVal(
            type(c._cache_storage) is ts._ThreadSafeMap and c._key_func is kf))
        if idx is not None:
            eng.check("C08| an indexer uses the given index functions", z3.BoolVal(c._cache_storage._indexers is D))


@contract("store.Map.rest", "C07 C08", [TS + ":_ThreadSafeMap.get_indexers", TS + ":_ThreadSafeMap.resync"])
def rest(eng):
    tm = read_setup(eng)
    if eng.choose(2):
        out = run(tm.get_indexers)
        no_raise(out, "C08| asking for the indexers raises nothing")
        if not hasattr(out.value, "_pv_key") and out.value is not tm._indexers:
            raise Unsupported("another type")
        eng.check("C08| the indexers of a map are those it uses", DictV(out.value).same(DictV(tm._indexers)))
    else:
        out = run(tm.resync)
        no_raise(out, "C07| the resync of a map raises nothing")
    same(eng, tm, "C07| the resync of a map changes nothing")


@contract("store.Cache.rest", "C07 C08", [ST + ":_Cache.get_indexers", ST + ":_Cache.resync"])
def cache_rest(eng):
    m, c, st = cache(eng)
    if eng.choose(2):
        out = run(c.get_indexers)
        no_raise(out, "C08| asking for the indexers raises nothing")
        ok = len(st.calls) == 1 and st.calls[0][0] == "get_indexers"
        eng.check("C08| the indexers of a store are those of its map", z3.BoolVal(ok))
        if ok:
            eng.check("C08| the indexers of a store are those of its map", eng.enc(out.value) == st.calls[0][2].expr)
    else:
        out = run(c.resync)
        no_raise(out, "C07| the resync of a store raises nothing of its own")
        eng.check("C07| the resync of a store writes nothing", z3.BoolVal(all(n == "resync" for n, *_ in st.calls)))
