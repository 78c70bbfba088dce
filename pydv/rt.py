"""Runtime of the instrumented code: loop rule, comprehensions, identity, model builtins."""
import asyncio as _asyncio
import builtins
import re
import sys
import types

import z3

from . import core
from .containers import (Handle, IV, KeysSource, Lazy, ListSource, MapSource, MDict, MList, MSet, RangeSource, View,
                         merge_elem, pyint, same_shape, shape_of, source_of, zint)
from .core import (E, NONE, Poison, Sym, SymBool, SymInt, SymReal, SymStr, SymVal, TooMany, Unsupported, V, BigInt,
                   FLOAT_LIMIT, zbool)

POISON = Poison()


# ---------------------------------------------------------------- loops
class LoopSpec:
    """Invariant of a loop.  match(key, owner) selects the loops it is for; inv(ctx) lists (name, formula)."""

    def __init__(self, fn=None, over=None, inv=None, variant=None, name="loop", match=None, kind=None, monitor=False):
        self.monitor = monitor
        self.fn, self.over, self.inv, self.variant, self.name, self.match, self.kind = \
            fn, over, inv, variant, name, match, kind

    def applies(self, loop):
        if self.match is not None:
            return self.match(loop)
        if self.kind is not None and loop.kind != self.kind:
            return False
        if self.over is not None and not (loop.owner is self.over or (
                loop.owner is not None and getattr(loop.owner, "_pv_ref", None) is not None and
                getattr(self.over, "_pv_ref", None) is not None and loop.owner._pv_ref.eq(self.over._pv_ref))):
            return False
        if self.fn is not None and self.fn not in loop.key:
            return False
        return True


class LoopCtx:
    """What an invariant may talk about."""

    def __init__(self, loop, i):
        self.loop, self.i = loop, i
        self.src = loop.src
        self.n = loop.n
        self.pre = loop.pre_heap
        self.key = loop.key

    def env(self, name):
        return self.loop.local(name)

    def pre_env(self, name):
        return self.loop.pre_locals.get(name)

    def elem(self, i):
        return self.src.elem(i)


def own(f, *args):
    """Run a piece of the contract: an exception in it is the contract's, not the code's."""
    try:
        return f(*args)
    except (core.EngineSignal, Unsupported):
        raise
    except Exception as e:
        E().alive()
        raise Unsupported(f"the contract's own code failed: {type(e).__name__}: {e}") from e


class Loop:
    def __init__(self, key, src=None, concrete=None, kind="for"):
        self.key, self.src, self.items, self.kind = key, src, concrete, kind
        self.owner = src.identity() if src is not None else None
        self.havoced = {}
        self.names = []
        self.pre_locals = {}
        self.pre_py = {}
        self.frame = None
        self.mode = None
        self.n = None

    # -- write log
    def note_write(self, loc):
        name, ref = loc[0], loc[1]
        if name == "py":
            if ref >= self.serial0:
                return                       # an object created in this iteration
        elif ref is not None and ref[0] >= self.gen0:
            return
        self.pending.add(loc)

    def local(self, name):
        """Value of a local variable at the loop head."""
        if name in self.havoced:
            return self.havoced[name]
        return self.frame.f_locals.get(name)

    def h(self, *names):
        self.names = names
        if self.mode is None:                # unrolled: nothing to forget
            loc = self.frame.f_locals if self.frame is not None else {}
            return tuple(loc.get(n, POISON) for n in names)
        out = []
        for n in names:
            if n in self.havoced:
                out.append(self.havoced[n])
            elif n in self.pre_locals:
                out.append(self.pre_locals[n])
            else:
                out.append(POISON)
        return tuple(out)

    def run(self):
        eng = E()
        eng.alive()
        self.frame = sys._getframe(1)
        if self.items is not None:
            yield from self.unroll()
            return
        yield from self.cut()

    def unroll(self):
        eng = E()
        live = isinstance(self.src, ListSource)
        n = 0
        for x in self.items:
            eng.alive()
            if live and self.src.lst.clen() is not None and n >= self.src.lst.clen():
                return
            n += 1
            yield x
        if live and self.src.lst.clen() is not None and self.src.lst.clen() > n:
            while n < self.src.lst.clen():
                yield self.src.lst._at(self.src.lst.lo + n)
                n += 1

    def cut(self):
        eng = E()
        if eng.pure:
            raise Unsupported("loop over symbolic data in a pure context")
        key = self.key
        base = key
        # the same loop can be reached in several states of one path (or inlined twice)
        c = eng.loop_count.get(base, 0)
        eng.loop_count[base] = c + 1
        wkey = f"{key}@{c}" if c else key
        writes = eng.loop_writes.setdefault(wkey, set())
        specs = [s for s in eng.loop_specs if s.applies(self)]
        if specs:
            spec = specs[0]
            eng.loops_seen[key] = spec.name
        else:
            spec = LoopSpec(inv=eng.default_inv, name=key)
            eng.loops_seen[key] = None
            eng.weak_loops.add(key)
        self.spec = spec
        if eng.on_loop is not None:
            own(eng.on_loop, self, "entry")
        self.pre_heap = eng.heap.snap()
        self.pre_locals = {k: v for k, v in self.frame.f_locals.items()}
        self.n = self.src.n() if self.src is not None else None
        zero = IV(0)
        label = spec.name if spec else key
        if spec is not None and spec.inv is not None and not eng.discovering:
            for nm, f in own(spec.inv, LoopCtx(self, zero)):
                eng.check(f"{label}:entry:{nm}", f, key)
        exit_mode = self.src is not None and eng.choose(2) == 1
        self.mode = "exit" if exit_mode else "iter"
        # havoc
        self.gen0 = eng.next_gen
        eng.next_gen += 1
        self.pending = set()
        self.serial0 = len(eng.serials) + 1
        self.pre_py = {n: dict(vars(o)) for n, o in eng.serials.items()}
        for loc in sorted((l for l in writes if l[0] != "py"), key=str):
            name, ref = loc
            arr = eng.heap[name]
            for fr in eng.loop_stack:
                fr.note_write(loc)
            if ref is not None:
                r = V.ref(IV(ref[0]), IV(ref[1]))
                inner = eng.fresh("hv_" + name, arr.sort().range())
                eng.heap[name] = z3.simplify(z3.Store(arr, r, inner))
            else:
                eng.heap[name] = self._havoc_all(eng, name, arr, writes)
        for loc in sorted((l for l in writes if l[0] == "py"), key=str):
            self._havoc_py(eng, wkey, loc)
        for name in sorted({n for (k, n) in eng.loop_shapes if k == wkey and isinstance(n, str)}):
            shapes = eng.loop_shapes[(wkey, name)]
            if name not in self.pre_locals:
                continue
            k = eng.choose(len(shapes))
            self.havoced[name] = fresh_of(eng, shapes[k], name)
        size_facts(eng, writes)
        if exit_mode:
            i = self.n
        else:
            i = eng.fresh("i_loop", z3.IntSort())
            eng.assume(i >= 0)
            if self.n is not None:
                eng.assume(i < self.n)
        ctx = LoopCtx(self, i)
        if spec is not None and spec.inv is not None:
            for nm, f in own(spec.inv, ctx):
                eng.assume(f)
        if exit_mode:
            if self.src is not None and not eng.feasible():
                eng.end_path()
            return
        if not eng.feasible():
            eng.end_path()
        v0 = spec.variant(ctx) if spec is not None and spec.variant is not None else None
        eng.moments += 1
        if eng.on_loop is not None:
            own(eng.on_loop, self, "head")
        if self.src is not None:
            size0 = self.src.lst.zlen() if isinstance(self.src, ListSource) else None
        eng.loop_stack.append(self)
        try:
            yield (self.src.elem(i) if self.src is not None else None)
        finally:
            if self in eng.loop_stack:
                eng.loop_stack.remove(self)
        eng.alive()
        # back edge
        if eng.on_loop is not None:
            eng.loop_stack.append(self)          # what the contract records here belongs to the iteration
            try:
                own(eng.on_loop, self, "back")
            finally:
                if self in eng.loop_stack:
                    eng.loop_stack.remove(self)
        grown = False
        for loc in sorted(self.pending, key=str):
            if loc[0] == "py":
                obj = eng.serials[loc[1]]
                shapes = eng.loop_shapes.setdefault((wkey, loc), [norm_shape(shape_of(self.pre_py[loc[1]].get(loc[2])))])
                s = norm_shape(shape_of(vars(obj).get(loc[2])))
                if not any(same_shape(s, t) for t in shapes):
                    shapes.append(s)
                    grown = True
            if loc not in writes:
                writes.add(loc)
                grown = True
        cur = self.frame.f_locals
        for name in self.names:
            if name not in self.pre_locals:
                continue
            if name not in cur:
                continue
            new = cur[name]
            old = self.havoced.get(name, self.pre_locals[name])
            if new is old or (isinstance(new, Sym) and isinstance(old, Sym) and new.expr.eq(old.expr)):
                continue
            if isinstance(new, Poison):
                continue
            shapes = eng.loop_shapes.setdefault((wkey, name), [norm_shape(shape_of(self.pre_locals[name]))])
            s = norm_shape(shape_of(new))
            if not any(same_shape(s, t) for t in shapes):
                shapes.append(s)
                grown = True
            elif name not in self.havoced:
                grown = True
        if grown:
            eng.dead = True
            raise core.Restart
        if self.src is not None and isinstance(self.src, ListSource) and size0 is not None:
            if not eng.valid(self.src.lst.zlen() == size0):
                raise Unsupported("list changes size while it is iterated")
        if self.src is not None:
            self.src.still()
        ctx2 = LoopCtx(self, z3.simplify(i + 1))
        self.havoced = {n: cur[n] for n in self.havoced if n in cur}
        for n in self.names:
            if n in cur and n in self.pre_locals:
                self.havoced[n] = cur[n]
        if spec is not None and spec.inv is not None and not eng.discovering:
            for nm, f in own(spec.inv, ctx2):
                eng.check(f"{label}:preserved:{nm}", f, key)
        if v0 is not None:
            v1 = spec.variant(ctx2)
            eng.check(f"{label}:variant", z3.And(v0 >= 0, v1 < v0), key)
        eng.end_path()

    def _havoc_all(self, eng, name, arr, writes):
        """Every symbolic object may have changed; objects allocated on this path did not unless listed."""
        new = eng.fresh("hva_" + name, arr.sort())
        listed = {r for (n, r) in ((l[0], l[1]) for l in writes if l[0] != "py") if n == name and r is not None}
        for g in range(1, self.gen0):
            if (g, 0) not in listed:
                r = V.ref(IV(g), IV(0))
                new = z3.Store(new, r, z3.Select(arr, r))
        return z3.simplify(new)

    def _havoc_py(self, eng, wkey, loc):
        obj = eng.serials.get(loc[1])
        if obj is None or loc[2] not in vars(obj):
            return
        shapes = eng.loop_shapes.get((wkey, loc)) or [norm_shape(shape_of(vars(obj)[loc[2]]))]
        k = eng.choose(len(shapes))
        v = fresh_of(eng, shapes[k], loc[2])
        for fr in eng.loop_stack:
            fr.note_write(loc)
        object.__setattr__(obj, loc[2], v)


def size_facts(eng, writes):
    if any(loc[0] in ("size", "has") and loc[1] is None for loc in writes):
        eng.card_facts()
    for loc in writes:
        if loc[0] == "size" and loc[1] is not None:
            eng.assume(eng.heap.read("size", V.ref(IV(loc[1][0]), IV(loc[1][1]))) >= 0)
        if loc[0] == "hi" and loc[1] is not None:
            r = V.ref(IV(loc[1][0]), IV(loc[1][1]))
            eng.assume(eng.heap.read("hi", r) >= eng.heap.read("lo", r))


def norm_shape(s):
    if s[0] == "const" and not isinstance(s, str):
        return s
    return s


def fresh_of(eng, shape, base):
    if shape == "val":
        return eng.val(base)
    if shape == "int":
        return eng.int(base)
    if shape == "real":
        return eng.real(base)
    if shape == "bool":
        return eng.bool(base)
    kind = shape[0]
    if kind == "const":
        n = getattr(shape[1], "__dict__", {}).get("_pv_serial")
        if n is not None:
            o = eng.serials.get(n)
            if type(o) is not type(shape[1]):
                raise Unsupported("an object created in a loop is kept")
            return o
        return shape[1]
    if kind == "rec":
        return core.mk_tuple(shape[1], [fresh_of(eng, s, base) for s in shape[2]])
    e = eng.fresh(base, V)
    if kind == "opt":
        return eng.dec_shape(e, shape)
    return eng.dec_shape(e, shape)


def pv_for(key, it):
    E().alive()
    if isinstance(it, Poison):
        it._bad()
    src = source_of(it)
    if src is None:
        if isinstance(it, SymVal):
            h = E().hooks.get("iter")
            if h is not None:
                r = h(it)
                if r is not None:
                    return pv_for(key, r)
            raise Unsupported("iteration over an opaque value")
        return Loop(key, None, it)
    c = src.concrete()
    if c is not None:
        return Loop(key, src, c)
    return Loop(key, src)


class NativeWhile(Loop):
    """while loop: cut when a spec asks for it or anything symbolic decides it."""

    def run(self):
        eng = E()
        eng.alive()
        self.frame = sys._getframe(1)
        specs = [s for s in eng.loop_specs if s.applies(self)]
        if not specs and eng.unroll_while:
            eng.loops_seen.setdefault(self.key, "unrolled")
            n = 0
            while True:
                eng.alive()
                n += 1
                if n > eng.unroll_while:
                    raise Unsupported(f"while loop {self.key} has no invariant and does not end by itself")
                yield None
        yield from self.cut()


def pv_while(key, aiter=None):
    E().alive()
    L = NativeWhile(key, None, None, kind="async" if aiter is not None else "while")
    L.owner = aiter
    return L


def pv_aiter(it):
    return it.__aiter__()


def pv_anext(a):
    return a.__anext__()


# ---------------------------------------------------------------- displays
def pv_list(*parts):
    r = MList()
    for star, v in parts:
        if star:
            r.extend(v)
        else:
            r.append(v)
    return r


def pv_set(*parts):
    r = MSet()
    for star, v in parts:
        if star:
            r.update(v)
        else:
            r.add(v)
    return r


def pv_dict(*parts):
    r = MDict()
    for star, k, v in parts:
        if star:
            r.update(v)
        else:
            r[k] = v
    return r


# ---------------------------------------------------------------- pure evaluation on a generic element
class PureBranch:
    __slots__ = ("cond", "value", "exc", "calls")

    def __init__(self, cond, value, exc, calls=()):
        self.cond, self.value, self.exc, self.calls = cond, value, exc, calls


def pure_eval(f):
    """Evaluate f, without effects, on symbolic arguments: list of (condition, value or exception)."""
    eng = E()
    eng.alive()
    out = []
    worklist = [[]]
    saved = (eng.fork, eng.assume, eng.choose, eng.fresh)
    base = len(eng.facts)
    while worklist:
        prefix = worklist.pop()
        trace, conds = [], []
        eng.solver.push()

        def fork(cond):
            cond = zbool(cond)
            s = z3.simplify(cond)
            if z3.is_true(s):
                return True
            if z3.is_false(s):
                return False
            i = len(trace)
            if i < len(prefix):
                d = prefix[i]
            else:
                t = eng.feasible(cond)
                fl = eng.feasible(z3.Not(cond)) if t else True
                if t and fl:
                    worklist.append(trace + [False])
                d = t
            trace.append(d)
            c = cond if d else z3.Not(cond)
            conds.append(c)
            eng.solver.add(c)
            return d

        def assume(fact):
            fact = zbool(fact)
            eng.solver.add(fact)

        def choose(n):
            raise Unsupported("nondeterminism in a pure context")

        def fresh(base_, sort):
            raise Unsupported("new symbol in a pure context")
        eng.pure += 1
        outer_log, eng.call_log = eng.call_log, []
        eng.fork, eng.assume, eng.choose, eng.fresh = fork, assume, choose, fresh
        try:
            try:
                v, exc = f(), None
            except core.EngineSignal:
                raise
            except Exception as e:
                v, exc = None, e
        finally:
            eng.pure -= 1
            del eng.fork, eng.assume, eng.choose, eng.fresh
            eng.solver.pop()
            del eng.facts[base:]
            calls, eng.call_log = eng.call_log, outer_log
        out.append(PureBranch(z3.And(conds) if conds else z3.BoolVal(True), v, exc, calls))
        if len(out) > 64:
            raise Unsupported("too many branches in a pure context")
    return out


def log_forall(bs, i, n):
    """The calls made for a generic element i of 0..n-1 become one entry of the call log."""
    calls = [b.calls for b in bs if b.calls]
    if not calls:
        return
    if len(bs) > 1 and any(len(b.calls) != len(bs[0].calls) for b in bs):
        raise Unsupported("calls that depend on the element of a comprehension")
    E().call_log.append(("forall", i, IV(0), n, [c for c in bs[0].calls]))


def pure_term(f, conv=None, over=None):
    """z3 term of f() with its branches merged; the conditions under which it raises, separately."""
    bs = pure_eval(f)
    if over is not None:
        log_forall(bs, *over)
    elif any(b.calls for b in bs):
        raise Unsupported("calls in a pure context")
    conv = conv or E().enc
    good = [b for b in bs if b.exc is None]
    bad = [b for b in bs if b.exc is not None]
    if not good:
        return None, bad, None
    term = conv(good[-1].value)
    for b in reversed(good[:-1]):
        term = z3.If(b.cond, conv(b.value), term)
    shape = None
    for b in good:
        shape = merge_elem(shape, shape_of(b.value))
    return z3.simplify(term), bad, shape


class CompSource:
    """Elements elt(x) for x in src (in order), where cond(x)."""
    live = True

    def __init__(self, src, elt, cond):
        self.src, self.elt, self.cond = src, elt, cond
        self._mat = None

    def concrete(self):
        c = self.src.concrete()
        if c is None:
            return None
        return [self.elt(x) for x in c if self.cond is None or truth(self.cond(x))]

    def _generic(self, i, n):
        """(cond term, element term) for index i; raising branches become a fork now."""
        key = i.get_id()
        x = None

        def cnd():
            return truth(self.cond(self.src.elem(i)))
        ct = z3.BoolVal(True)
        if self.cond is not None:
            ct, bad, _ = pure_term(cnd, zbool)
            self._raises(bad, i, z3.BoolVal(True))
        et, bad, shape = pure_term(lambda: self.elt(self.src.elem(i)), None, (i, n))
        self._raises(bad, i, ct)
        return ct, et, shape

    def _raises(self, bad, i, extra):
        eng = E()
        if not bad:
            return
        n = self.src.n()
        for b in bad:
            c = z3.substitute(z3.And(b.cond, extra), [])
            if eng.fork(z3.Exists([i], z3.And(0 <= i, i < n, c))):
                raise b.exc

    def materialise(self):
        if self._mat is not None:
            return self._mat
        eng = E()
        n = self.src.n()
        i = z3.Int(f"i!c{eng.fresh('ci', z3.IntSort())}")
        ct, et, shape = self._generic(i, n)
        a = eng.fresh("comp", z3.ArraySort(z3.IntSort(), V))
        trig = source_trigger(self.src, i)
        if self.cond is None:
            eng.assume(n >= 0)
            eng.assume(z3.ForAll([i], z3.Implies(z3.And(0 <= i, i < n), z3.Select(a, i) == et),
                                 patterns=[z3.Select(a, i)]))
            if trig is not None:
                eng.assume(forall_src(i, z3.Implies(z3.And(0 <= i, i < n), z3.Select(a, i) == et), trig))
            self._mat = (a, n, shape)
            return self._mat
        m = eng.fresh("compn", z3.IntSort())
        f = z3.Function(f"sel!{m}", z3.IntSort(), z3.IntSort())
        g = z3.Function(f"inv!{m}", z3.IntSort(), z3.IntSort())
        j = z3.Int("j!c")
        sub = lambda t: z3.substitute(t, (i, f(j)))
        eng.assume(z3.And(0 <= m, m <= n))
        eng.assume(z3.ForAll([j], z3.Implies(z3.And(0 <= j, j < m), z3.And(
            0 <= f(j), f(j) < n, sub(ct), z3.Select(a, j) == sub(et), g(f(j)) == j)), patterns=[z3.Select(a, j)]))
        eng.assume(forall_src(i, z3.Implies(z3.And(0 <= i, i < n, ct), z3.And(
            0 <= g(i), g(i) < m, f(g(i)) == i, z3.Select(a, g(i)) == et)), trig if trig is not None else g(i)))
        k = z3.Int("k!c")
        eng.assume(z3.ForAll([j, k], z3.Implies(z3.And(0 <= j, j < k, k < m), f(j) < f(k)),
                             patterns=[z3.MultiPattern(f(j), f(k))]))
        self._mat = (a, m, shape)
        self.sel, self.inv = f, g
        return self._mat

    def n(self):
        return self.src.n() if self.cond is None else self.materialise()[1]

    def elem(self, i):
        if self.cond is None:
            return self.elt(self.src.elem(i))
        a, _, shape = self.materialise()
        return E().dec(z3.Select(a, i), shape)

    def elem_v(self, i):
        a, _, _ = self.materialise()
        return z3.Select(a, i)

    def elem_shape(self):
        return self.materialise()[2]

    def as_array(self):
        a, n, _ = self.materialise()
        return a, n

    def identity(self):
        return self.src.identity()

    def still(self):
        self.src.still()


def source_trigger(src, i):
    """A term over i that occurs whenever element i of the source is talked about."""
    while isinstance(src, CompSource) and src.cond is None and src._mat is None:
        src = src.src
    try:
        t = src.elem_v(i)
    except (AttributeError, Unsupported):
        return None
    while z3.is_app(t) and t.num_args() and not z3.is_select(t):
        t = t.arg(0)
    if not z3.is_select(t):
        return None
    s = z3.Solver()
    vs = z3.z3util.get_vars(t) if hasattr(z3, "z3util") else []
    return t if any(v.eq(i) for v in vs) or not vs else None


def forall_src(i, body, trig):
    """ForAll i. body, triggered by trig; an index lo + i is shifted so that any ground index matches."""
    if z3.is_select(trig):
        idx = trig.arg(1)
        if z3.is_add(idx) and sum(1 for c in idx.children() if c.eq(i)) == 1:
            rest = [c for c in idx.children() if not c.eq(i)]
            j = z3.Int(f"{i}!sh")
            return z3.ForAll([j], z3.substitute(body, (i, j - z3.Sum(rest))), patterns=[z3.Select(trig.arg(0), j)])
    return z3.ForAll([i], body, patterns=[trig])


def truth(x):
    return bool(x)


def pv_comp(elt, kind, key, it, cond, it2=None, cond2=None):
    eng = E()
    eng.alive()
    if it2 is not None:
        outer = source_of(it)
        xs = it if outer is None else outer.concrete()
        if xs is None:
            if kind == "set" and cond is None and cond2 is None:
                eng.constructs.add("union")
                return union_comp(outer, it2, elt)
            raise Unsupported("nested comprehension over symbolic data")
        items = []
        for x in xs:
            if cond is not None and not truth(cond(x)):
                continue
            inner = it2(x)
            s = source_of(inner)
            ys = inner if s is None else s.concrete()
            if ys is None:
                raise Unsupported("nested comprehension over symbolic data")
            for y in ys:
                if cond2 is None or truth(cond2(x, y)):
                    items.append(elt(x, y))
        return build(kind, items)
    src = source_of(it)
    if src is None and isinstance(it, SymVal):
        h = eng.hooks.get("iter")
        r = h(it) if h is not None else None
        if r is None:
            raise Unsupported("iteration over an opaque value")
        src = source_of(r)
    if src is None:
        if kind == "gen":
            return (elt(x) for x in it if cond is None or truth(cond(x)))
        return build(kind, [elt(x) for x in it if cond is None or truth(cond(x))])
    c = src.concrete()
    if c is not None:
        if kind == "gen":
            return (elt(x) for x in c if cond is None or truth(cond(x)))
        return build(kind, [elt(x) for x in c if cond is None or truth(cond(x))])
    cs = CompSource(src, elt, cond)
    eng.constructs.add(kind + (" if" if cond is not None else ""))
    if kind == "gen":
        return Lazy(cs)
    if kind == "list":
        a, n = cs.as_array()
        r = MList()
        h = eng.heap
        h.write("el", r._pv_ref, a)
        h.write("hi", r._pv_ref, n)
        r._pv_elem = cs.elem_shape()
        r._pv_comp = cs
        return r
    if kind == "set":
        r = MSet()
        a, n = cs.as_array()
        r._from_seq(a, n, cs.elem_shape())
        return r
    return dict_comp(cs)


def union_comp(outer, inner, elt):
    """{y for x in outer for y in inner(x)} where inner(x) is a set or dict."""
    eng = E()
    n = outer.n()
    i, e = z3.Int(f"i!u{eng.fresh('ui', z3.IntSort())}"), z3.Const("e!u", V)
    bs = pure_eval(lambda: inner(outer.elem(i)))
    has = z3.BoolVal(False)
    elem = None
    for b in reversed(bs):
        if b.exc is not None or b.calls:
            raise Unsupported("nested comprehension with calls or exceptions")
        v = b.value
        if isinstance(v, View) and v.kind == "keys":
            v = v.d
        if not isinstance(v, (MSet, MDict)):
            raise Unsupported("nested comprehension over lists")
        y = eng.val("y")
        if elt(None, y) is not y:
            raise Unsupported("nested comprehension with a mapped element")
        has = z3.If(b.cond, z3.Select(v.has, e), has)
        elem = (v._pv_elem if isinstance(v, MSet) else v._pv_key) or elem
    r = MSet()
    a = eng.fresh("union", z3.ArraySort(V, z3.BoolSort()))
    m = eng.fresh("union_n", z3.IntSort())
    w = z3.Function(f"from!{a}", V, z3.IntSort())
    eng.assume(z3.ForAll([e], z3.Implies(z3.Select(a, e), z3.And(
        0 <= w(e), w(e) < n, z3.substitute(has, (i, w(e))))), patterns=[z3.Select(a, e)]))
    trig = source_trigger(outer, i)
    body = z3.Implies(z3.And(0 <= i, i < n, has), z3.Select(a, e))
    eng.assume(z3.ForAll([i, e], body, patterns=[z3.MultiPattern(trig, z3.Select(a, e))])
               if trig is not None else z3.ForAll([i, e], body))
    eng.heap.write("has", r._pv_ref, a)
    eng.heap.write("size", r._pv_ref, m)
    eng.assume(m >= 0)
    r._pv_elem = elem or "val"
    return r


def dict_comp(cs):
    eng = E()
    a, n = cs.as_array()
    sh = cs.elem_shape()
    r = MDict()
    has = eng.fresh("dc_has", z3.ArraySort(V, z3.BoolSort()))
    val = eng.fresh("dc_val", z3.ArraySort(V, V))
    m = eng.fresh("dc_n", z3.IntSort())
    where = z3.Function(f"where!{m}", V, z3.IntSort())
    k, i = z3.Const("k!dc", V), z3.Int("i!dc")
    key, v = V.f0, V.f1
    eng.assume(z3.ForAll([k], z3.Implies(z3.Select(has, k), z3.And(
        0 <= where(k), where(k) < n, key(z3.Select(a, where(k))) == k, z3.Select(val, k) == v(z3.Select(a, where(k))))),
        patterns=[z3.Select(has, k)]))
    eng.assume(z3.ForAll([i], z3.Implies(z3.And(0 <= i, i < n), z3.And(
        z3.Select(has, key(z3.Select(a, i))), i <= where(key(z3.Select(a, i))))), patterns=[z3.Select(a, i)]))
    trig = source_trigger(cs.src, i) if cs.cond is None else None
    if trig is not None:
        eng.assume(forall_src(i, z3.Implies(z3.And(0 <= i, i < n), z3.And(
            z3.Select(has, key(z3.Select(a, i))), i <= where(key(z3.Select(a, i))))), trig))
    eng.assume(z3.And(0 <= m, m <= n, z3.Implies(n > 0, m > 0)))
    h = eng.heap
    h.write("has", r._pv_ref, has)
    h.write("val", r._pv_ref, val)
    h.write("size", r._pv_ref, m)
    if sh is not None and isinstance(sh, tuple) and sh[0] == "rec":
        r._pv_key, r._pv_elem = sh[2]
    else:
        r._pv_key = r._pv_elem = "val"
    r._pv_where, r._pv_comp = where, cs
    return r


def build(kind, items):
    if kind == "list":
        return MList(items)
    if kind == "set":
        return MSet(items)
    if kind == "dict":
        r = MDict()
        for k, v in items:
            r[k] = v
        return r
    return iter(items)


# ---------------------------------------------------------------- identity, strings, casts
def pv_is(a, b):
    if isinstance(a, Poison) or isinstance(b, Poison):
        raise Unsupported("use of a variable left over from an earlier iteration")
    if a is b:
        return True
    if isinstance(a, SymVal) or isinstance(b, SymVal):
        if isinstance(a, (SymStr, SymInt, SymReal)) or isinstance(b, (SymStr, SymInt, SymReal)):
            raise Unsupported("identity of numbers or strings")
        return SymBool(z3.simplify(E().enc(a) == E().enc(b)))
    ra, rb = getattr(a, "_pv_ref", None), getattr(b, "_pv_ref", None)
    if ra is not None and rb is not None and z3.is_expr(ra) and z3.is_expr(rb):
        return SymBool(z3.simplify(ra == rb))
    if a is None or b is None:
        return False
    if isinstance(a, SymBool) or isinstance(b, SymBool):
        if isinstance(a, (bool, SymBool)) and isinstance(b, (bool, SymBool)):
            return SymBool(zbool(a) == zbool(b))
        return False
    if isinstance(a, tuple) and isinstance(b, tuple) and type(a) is type(b) and len(a) == len(b):
        # tuples rebuilt from terms have no identity of their own
        return SymBool(z3.simplify(E().enc(a) == E().enc(b)))
    return False


PYSTR = z3.Function("pystr", V, z3.StringSort())


def to_str(x):
    if isinstance(x, core.SymStrSub):
        return SymStr(x.expr)
    if isinstance(x, (str, SymStr)):
        return builtins.str(x) if isinstance(x, str) and type(x) is not str else x
    if isinstance(x, Sym):
        if isinstance(x, SymVal):
            e = z3.simplify(x.expr)
            if z3.is_app(e) and e.decl().name() == "str2v":
                return SymStr(e.arg(0))
        return SymStr(PYSTR(E().enc(x)))
    if isinstance(x, Handle) or isinstance(x, View):
        return "<container>"
    if isinstance(x, tuple) and any(isinstance(a, Sym) for a in x):
        return "<tuple>"
    return builtins.str(x)


def pv_fstr(*parts):
    out = ""
    for p in parts:
        if isinstance(p, str):
            s = p
        else:
            v, conv, spec = p
            if spec not in (None, ""):
                s = "<formatted>" if isinstance(v, Sym) else format(v, spec)
            elif conv in (-1, 115):
                s = to_str(v)
            elif isinstance(v, Sym):
                s = "<repr>"
            else:
                s = repr(v)
        if isinstance(out, str) and isinstance(s, str):
            out = out + s
        else:
            a = out if isinstance(out, SymStr) else SymStr(z3.StringVal(out))
            out = a + s
    return out


def is_symstr(*xs):
    return any(isinstance(x, Sym) for x in xs)


def pv_join(sep, *a):
    """sep.join(xs)"""
    if len(a) != 1 or not isinstance(sep, (str, SymStr)):
        return sep.join(*a)
    src = source_of(a[0])
    xs = a[0] if src is None else src.concrete()
    if xs is None:
        raise Unsupported("join of symbolic data")
    xs = builtins.list(xs)
    if not is_symstr(sep, *xs):
        return sep.join(xs)
    out = SymStr(z3.StringVal(""))
    for k, x in enumerate(xs):
        if isinstance(x, SymVal):
            raise Unsupported("join of opaque values")
        if not isinstance(x, (str, SymStr)):
            raise TypeError("sequence item: expected str instance")
        out = out + sep + x if k else out + x
    return SymStr(z3.simplify(out.expr))


def pv_format(fmt, *a, **kw):
    """fmt.format(...)"""
    if not isinstance(fmt, str) or not is_symstr(*a, *kw.values()):
        return fmt.format(*a, **kw)
    import string
    parts, auto = [], 0
    for text, field, spec, conv in string.Formatter().parse(fmt):
        parts.append(text)
        if field is None:
            continue
        if field == "":
            v, auto = a[auto], auto + 1
        elif field.isdigit():
            v = a[builtins.int(field)]
        elif field in kw:
            v = kw[field]
        else:
            raise Unsupported("format field")
        parts.append((v, ord(conv) if conv else -1, spec))
    return pv_fstr(*parts)


def pv_mod(a, b):
    """a % b"""
    if not isinstance(a, str):
        return a % b
    args = b if isinstance(b, tuple) else (b,)
    if not any(isinstance(x, (Sym, Handle)) for x in args):
        return a % b
    pieces = a.split("%s")
    if len(pieces) != len(args) + 1 or any("%" in p for p in pieces):
        raise Unsupported("% formatting")
    out = [pieces[0]]
    for x, p in zip(args, pieces[1:]):
        out += [(x, -1, None), p]
    return pv_fstr(*out)


def pv_str(*a, **kw):
    if len(a) == 1 and not kw:
        return to_str(a[0])
    return builtins.str(*a, **kw)


def pv_int(x=0, *a):
    if isinstance(x, SymInt):
        return x
    if isinstance(x, SymBool):
        return x._int()
    if isinstance(x, SymReal):
        e = x.expr
        return SymInt(z3.If(e >= 0, z3.ToInt(e), -z3.ToInt(-e)))
    if isinstance(x, (SymStr, SymVal)):
        raise Unsupported("int() of an opaque value")
    return builtins.int(x, *a)


def pv_float(x=0.0):
    if isinstance(x, SymReal):
        return x
    if isinstance(x, SymInt):
        if x.big and E().fork(x.expr >= FLOAT_LIMIT):
            raise OverflowError("int too large to convert to float")
        return SymReal(z3.ToReal(x.expr))
    if isinstance(x, Sym):
        raise Unsupported("float() of an opaque value")
    return builtins.float(x)


def pv_bool(x=False):
    if isinstance(x, SymBool):
        return x
    if isinstance(x, SymVal):
        return bool(x)
    return builtins.bool(x)


def pv_sig():
    """First statement of every exception handler: the verifier's own signals pass through."""
    e = sys.exc_info()[1]
    if isinstance(e, core.EngineSignal):
        raise e
    model_error(e)
    if isinstance(e, GeneratorExit):
        raise e


HERE = __file__.rsplit("/", 1)[0] + "/"


def model_error(e):
    """Exceptions that come from a gap in the models, not from the code: outside the fragment."""
    if isinstance(e, z3.Z3Exception):
        raise Unsupported(f"solver term: {e}")
    tb = e.__traceback__
    while tb is not None and tb.tb_next is not None:
        tb = tb.tb_next
    if tb is not None and isinstance(e, (NameError, AssertionError)) and tb.tb_frame.f_code.co_filename.startswith(HERE):
        raise Unsupported(f"the verifier failed: {e}")
    if isinstance(e, AttributeError):
        o = getattr(e, "obj", None)
        if isinstance(o, SymVal):
            return
        if type(o).__module__.startswith("pydv.") or getattr(type(o), "_pv_model", False) or \
                getattr(o, "__pv_model__", False):
            raise Unsupported(f"the model of {type(o).__name__} has no {e.name}")
    if isinstance(e, (TypeError, ValueError)) and any(
            w in str(e) for w in ("Sym", "MList", "MDict", "MSet", "Lazy", "View", "Poison", "MDeque")):
        raise Unsupported(f"model value: {e}")
    if isinstance(e, TypeError):
        from .spec import Stub
        names, todo = set(), [Stub]
        while todo:
            todo += (sub := todo.pop().__subclasses__())
            names |= {c.__name__ for c in sub}
        if names & set(re.findall(r"'(\w+)'", str(e))):
            raise Unsupported(f"an object of the contract: {e}")
    if isinstance(e, TypeError) and ("positional argument" in str(e) or "unexpected keyword" in str(e)):
        raise Unsupported(f"call with other arguments: {e}")


def pv_enter(q):
    eng = core.ENGINE
    if eng is not None:
        eng.alive()
        eng.functions[q] = eng.functions.get(q, 0) + 1


# ---------------------------------------------------------------- builtins
class _Missing:
    pass


def b_len(x):
    if isinstance(x, SymStr):
        return SymInt(z3.Length(x.expr))
    if isinstance(x, (Handle, View)):
        return x.__len__()
    if isinstance(x, (SymVal, Lazy)):
        h = E().hooks.get("len")
        if h is not None:
            return h(x)
        raise Unsupported("len of an opaque value")
    if isinstance(x, TooMany):
        raise Unsupported("len of a long split")
    m = getattr(type(x), "__len__", None)
    if m is not None and not isinstance(x, (str, bytes, tuple, list, dict, set)):
        return m(x)
    return builtins.len(x)


def b_tuple(x=()):
    if isinstance(x, (tuple, builtins.list)):
        return builtins.tuple(x)
    src = source_of(x)
    if src is None:
        return builtins.tuple(x)
    c = src.concrete()
    return builtins.tuple(c) if c is not None else MList(x)


_CLS = {}


def real_cls(c):
    if c is b_tuple:
        return tuple
    if c is pv_str:
        return str
    return c


def b_isinstance(x, cls):
    if isinstance(cls, tuple):
        return any(truth(b_isinstance(x, c)) for c in cls)
    cls = real_cls(cls)
    if isinstance(x, SymVal):
        return E().isinstance_v(x, cls)
    if isinstance(x, SymStr):
        return issubclass(getattr(x, "pv_cls", str), cls)
    if isinstance(x, SymBool):
        return issubclass(bool, cls)
    if isinstance(x, SymInt):
        return issubclass(int, cls)
    if isinstance(x, SymReal):
        return issubclass(float, cls)
    if isinstance(x, Poison):
        x._bad()
    return builtins.isinstance(x, cls)


def b_issubclass(c, cls):
    return builtins.issubclass(c, real_cls(cls))


def _extreme(args, kw, less, name):
    key = kw.get("key")
    default = kw.get("default", _Missing)
    if len(args) == 1:
        it = args[0]
        src = source_of(it)
        if src is not None and src.concrete() is None:
            if key is not None:
                raise Unsupported("min/max with key over symbolic data")
            return _extreme_sym(src, default, less, name)
        xs = builtins.list(it if src is None else src.concrete())
    else:
        xs = builtins.list(args)
    if not xs:
        if default is _Missing:
            raise ValueError(f"{name}() iterable argument is empty")
        return default
    if key is not None or not all(isinstance(x, (int, float, SymInt, SymReal, SymBool)) for x in xs):
        best = xs[0]
        for x in xs[1:]:
            a, b = (key(x), key(best)) if key else (x, best)
            if truth(less(a, b)):
                best = x
        return best
    if not any(isinstance(x, Sym) for x in xs):
        return builtins.min(xs) if name == "min" else builtins.max(xs)
    inf = [x for x in xs if isinstance(x, float) and x in (float("inf"), float("-inf"))]
    if inf:
        best = xs[0]
        for x in xs[1:]:
            if truth(less(x, best)):
                best = x
        return best
    real = any(isinstance(x, (SymReal, float)) for x in xs)
    e = core._zn(xs[0], real)
    for x in xs[1:]:
        y = core._zn(x, real)
        e = z3.If(y < e if name == "min" else y > e, y, e)
    e = z3.simplify(e)
    return SymReal(e) if real else SymInt(e)


def _extreme_sym(src, default, less, name):
    eng = E()
    n = src.n()
    if eng.fork(n <= 0):
        if default is _Missing:
            raise ValueError(f"{name}() iterable argument is empty")
        return default
    i = z3.Int(f"i!mm{eng.fresh('mi', z3.IntSort())}")
    kinds = set()

    def conv(v):
        if isinstance(v, (SymReal, float)):
            kinds.add("real")
        elif isinstance(v, (SymInt, int)):
            kinds.add("int")
        else:
            raise Unsupported("min/max of opaque values")
        return core._zn(v, True)
    term, bad, _ = pure_term(lambda: src.elem(i), conv, (i, n))
    for b in bad:
        if eng.fork(z3.Exists([i], z3.And(0 <= i, i < n, b.cond))):
            raise b.exc
    m = eng.fresh(name, z3.RealSort())
    at = eng.fresh("at", z3.IntSort())
    eng.assume(z3.And(0 <= at, at < n, m == z3.substitute(term, (i, at))))
    cmp = (m <= term) if name == "min" else (m >= term)
    trig = source_trigger(src, i)
    q = z3.Implies(z3.And(0 <= i, i < n), cmp)
    eng.assume(forall_src(i, q, trig) if trig is not None else z3.ForAll([i], q))
    return SymReal(m) if "real" in kinds else SymInt(z3.ToInt(m))


def b_min(*a, **kw):
    return _extreme(a, kw, lambda x, y: x < y, "min")


def b_max(*a, **kw):
    return _extreme(a, kw, lambda x, y: x > y, "max")


def _quant(it, want):
    """any (want=True) / all (want=False)."""
    src = source_of(it)
    if src is None or src.concrete() is not None:
        for x in (it if src is None else src.concrete()):
            if truth(x) == want:
                return want
        return not want
    eng = E()
    base, cond = src, None
    n = src.n()
    i = z3.Int(f"i!q{eng.fresh('qi', z3.IntSort())}")
    term, bad, _ = pure_term(lambda: truth(src.elem(i)), zbool, (i, n))
    for b in bad:
        if eng.fork(z3.Exists([i], z3.And(0 <= i, i < n, b.cond))):
            raise b.exc
    t = term if want else z3.Not(term)
    if eng.fork(z3.Exists([i], z3.And(0 <= i, i < n, t))):
        w = eng.fresh("wit", z3.IntSort())
        eng.assume(z3.And(0 <= w, w < n, z3.substitute(t, (i, w))))
        return want
    trig = source_trigger(src, i)
    q = z3.Implies(z3.And(0 <= i, i < n), z3.Not(t))
    if trig is not None:
        eng.assume(forall_src(i, q, trig))
    else:
        eng.assume(z3.ForAll([i], q))
    return not want


def b_any(it):
    return _quant(it, True)


def b_all(it):
    return _quant(it, False)


def b_sum(it, start=0):
    src = source_of(it)
    if src is not None and src.concrete() is None:
        raise Unsupported("sum over symbolic data")
    t = start
    for x in (it if src is None else src.concrete()):
        t = t + x
    return t


def b_enumerate(it, start=0):
    src = source_of(it)
    if src is None:
        return builtins.enumerate(it, start)
    c = src.concrete()
    if c is not None:
        return builtins.enumerate(c, start)
    return Lazy(MapSource(src, lambda i, x: (i + start, x)))


def b_map(f, *its):
    if len(its) != 1:
        return builtins.map(f, *its)
    src = source_of(its[0])
    if src is None:
        return builtins.map(f, its[0])
    c = src.concrete()
    if c is not None:
        return builtins.map(f, c)
    return Lazy(CompSource(src, f, None))


def b_filter(f, it):
    src = source_of(it)
    if src is None:
        return builtins.filter(f, it)
    c = src.concrete()
    if c is not None:
        return builtins.filter(f, c)
    return Lazy(CompSource(src, lambda x: x, f or (lambda x: x)))


def b_zip(*its):
    out = []
    for it in its:
        src = source_of(it)
        c = it if src is None else src.concrete()
        if c is None:
            raise Unsupported("zip of symbolic data")
        out.append(c)
    return builtins.zip(*out)


def b_range(*a):
    if any(isinstance(x, Sym) for x in a):
        if len(a) == 1:
            return Lazy(RangeSource(0, a[0]))
        if len(a) == 2:
            return Lazy(RangeSource(a[0], a[1]))
        raise Unsupported("range step")
    return builtins.range(*a)


def b_sorted(it, key=None, reverse=False):
    src = source_of(it)
    if src is not None and src.concrete() is None:
        raise Unsupported("sorted of symbolic data")
    xs = builtins.list(it if src is None else src.concrete())
    if any(isinstance(x, Sym) for x in xs):
        raise Unsupported("sorted of symbolic data")
    return MList(builtins.sorted(xs, key=key, reverse=reverse))


def b_reversed(it):
    src = source_of(it)
    if src is None:
        return builtins.reversed(it)
    c = src.concrete()
    if c is None:
        n = src.n()
        return Lazy(MapIndex(src, lambda i: z3.simplify(n - 1 - i)))
    return iter(c[::-1])


class MapIndex:
    live = True

    def __init__(self, src, f):
        self.src, self.f = src, f

    def concrete(self):
        return None

    def n(self):
        return self.src.n()

    def elem(self, i):
        return self.src.elem(self.f(i))

    def elem_v(self, i):
        return self.src.elem_v(self.f(i))

    def elem_shape(self):
        return self.src.elem_shape()

    def identity(self):
        return self.src.identity()

    def still(self):
        self.src.still()

    def as_array(self):
        eng = E()
        a = eng.fresh("mi", z3.ArraySort(z3.IntSort(), V))
        i = z3.Int("i!mx")
        eng.assume(z3.ForAll([i], z3.Select(a, i) == self.elem_v(i), patterns=[z3.Select(a, i)]))
        return a, self.n()


class SymIter:
    """iter() over symbolic data: only next() once."""

    def __init__(self, src):
        self.src, self.pos = src, 0

    def __iter__(self):
        return self


def b_iter(x, *a):
    if a:
        raise Unsupported("iter with a sentinel")
    src = source_of(x)
    if src is None:
        return builtins.iter(x)
    c = src.concrete()
    return builtins.iter(c) if c is not None else SymIter(src)


def b_next(it, *default):
    if isinstance(it, Lazy):
        it = SymIter(it.src)
    if isinstance(it, SymIter):
        n = it.src.n()
        if E().fork(n > it.pos):
            r = it.src.elem(IV(it.pos))
            it.pos += 1
            return r
        if default:
            return default[0]
        raise StopIteration
    return builtins.next(it, *default)


def b_abs(x):
    return x.__abs__() if isinstance(x, Sym) else builtins.abs(x)


def b_callable(x):
    if isinstance(x, SymVal):
        return SymBool(z3.Function("callable", V, z3.BoolSort())(x.expr))
    return builtins.callable(x)


def b_round(x, n=None):
    if isinstance(x, Sym):
        raise Unsupported("round")
    return builtins.round(x, n) if n is not None else builtins.round(x)


def b_print(*a, **kw):
    return None


def b_repr(x):
    return "<repr>" if isinstance(x, (Sym, Handle)) else builtins.repr(x)


def b_id(x):
    raise Unsupported("id()")


def b_hash(x):
    if isinstance(x, (Sym, Handle)):
        raise Unsupported("hash()")
    return builtins.hash(x)


from .loader import patch_class  # noqa: E402

class Fields(dict):
    """The fields of an object, as vars() and __dict__ show them; changing them that way is not handled."""

    def _no(self, *a, **k):
        raise Unsupported("fields changed through __dict__")
    __setitem__ = __delitem__ = update = pop = popitem = setdefault = clear = __ior__ = _no


def pv_fields(o):
    if isinstance(o, (type, types.ModuleType)) or getattr(o, "_pv_model", False):
        return o.__dict__
    if not hasattr(o, "__dict__") or isinstance(o, core.Sym):
        raise Unsupported(f"fields of {type(o).__name__}")
    return Fields((k, v) for k, v in o.__dict__.items() if not k.startswith("_pv_"))


def pv_star(x):
    """The value of a starred argument: its elements, or a stand-in for all of them."""
    if type(x) is SymVal:
        return [core.StarSeq(x)]
    src = source_of(x)
    if src is None:
        return x
    c = src.concrete()
    return [core.StarSeq(x)] if c is None else c


def pv_unstar(args):
    if not any(type(a) is core.StarSeq for a in args):
        return args
    if len(args) == 1:
        return args[0]._pv_seq
    raise Unsupported("an argument list of unknown length among other arguments")


BUILTINS = {
    "__pv_star__": pv_star, "__pv_unstar__": pv_unstar,
    "__pv_fields__": pv_fields, "vars": pv_fields,
    "__pv_enter__": pv_enter, "__pv_for__": pv_for, "__pv_while__": pv_while, "__pv_aiter__": pv_aiter,
    "__pv_anext__": pv_anext, "__pv_list__": pv_list, "__pv_set__": pv_set, "__pv_dict__": pv_dict, "__pv_comp__": pv_comp,
    "__pv_is__": pv_is, "__pv_join__": pv_join, "__pv_format__": pv_format, "__pv_mod__": pv_mod, "__pv_fstr__": pv_fstr, "__pv_sig__": pv_sig, "__pv_class__": patch_class, "__pv_str__": pv_str,
    "__pv_int__": pv_int, "__pv_float__": pv_float, "__pv_bool__": pv_bool,
    "list": MList, "dict": MDict, "set": MSet, "frozenset": MSet, "tuple": b_tuple, "len": b_len,
    "isinstance": b_isinstance, "issubclass": b_issubclass, "min": b_min, "max": b_max, "any": b_any, "all": b_all,
    "sum": b_sum, "enumerate": b_enumerate, "map": b_map, "filter": b_filter, "zip": b_zip, "range": b_range,
    "sorted": b_sorted, "reversed": b_reversed, "iter": b_iter, "next": b_next, "abs": b_abs, "callable": b_callable,
    "round": b_round, "print": b_print, "repr": b_repr, "id": b_id, "hash": b_hash,
}
