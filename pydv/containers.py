"""Model containers (list, deque, dict, set and subclasses), heap objects with symbolic content.

A container is a reference (z3 value of sort V) into the heap arrays of the engine: lists are
el[ref][lo..hi), dicts has/val/size, sets has/size.  The Python-level objects here are handles; the
real code uses them through the ordinary container operations.
"""
import z3

from . import core
from .core import (E, NONE, Poison, Sym, SymBool, SymInt, SymReal, SymStr, SymVal, Unsupported, V, zbool)

IV = z3.IntVal


def zint(x):
    if isinstance(x, SymBool):
        x = x._int()
    if isinstance(x, SymInt):
        return x.expr
    if isinstance(x, bool):
        return IV(int(x))
    if isinstance(x, int):
        return IV(x)
    if z3.is_expr(x):
        return x
    raise TypeError(f"not an int: {type(x).__name__}")


def pyint(e):
    e = z3.simplify(e)
    return e.as_long() if z3.is_int_value(e) else SymInt(e)


def shape_of(x):
    if x is None:
        return ("const", None)
    if isinstance(x, (bool, SymBool)):
        return "bool"
    if isinstance(x, (int, SymInt)):
        return "int"
    if isinstance(x, (float, SymReal)):
        return "real"
    if isinstance(x, SymVal):
        return "val"
    if isinstance(x, MList):
        return ("list", type(x), x._pv_elem)
    if isinstance(x, MDict):
        return ("dict", type(x), x._pv_key, x._pv_elem)
    if isinstance(x, MSet):
        return ("set", type(x), x._pv_elem)
    if isinstance(x, tuple):
        return ("rec", type(x), tuple(shape_of(a) for a in x))
    sh = getattr(type(x), "_pv_symshape", None)
    if sh is not None:
        return sh
    return ("const", x)


def same_shape(a, b):
    if isinstance(a, str) or isinstance(b, str):
        return a == b
    if a[0] != b[0]:
        return False
    if a[0] == "const":
        x, y = a[1], b[1]
        if x is not y and type(x) is type(y) and getattr(x, "_pv_serial", None) is not None:
            return x._pv_serial == getattr(y, "_pv_serial", None)       # the same object of another path
        return a[1] is b[1] or (type(a[1]) is type(b[1]) and isinstance(a[1], str) and a[1] == b[1])
    if a[0] == "rec":
        return a[1] is b[1] and len(a[2]) == len(b[2]) and all(same_shape(x, y) for x, y in zip(a[2], b[2]))
    return a[1] is b[1] if a[0] in ("list", "dict", "set") else a == b


def merge_elem(old, new):
    """Element shape of a container after storing something of shape `new`."""
    if new[0] == "const" and new[1] is not None:
        new = "val"
    if old is None:
        return new
    if old == ("const", None):
        return new if isinstance(new, tuple) and new[0] == "opt" else ("opt", new) if new != old else old
    if new == ("const", None):
        return old if isinstance(old, tuple) and old[0] == "opt" else ("opt", old)
    base = old[1] if isinstance(old, tuple) and old[0] == "opt" else old
    if new == "val" or base == "val":
        return "val" if base == old else ("opt", "val")
    if not same_shape(base, new):
        if isinstance(base, tuple) and isinstance(new, tuple) and base[0] == new[0] == "rec" and base[1] is new[1] \
                and len(base[2]) == len(new[2]):
            m = ("rec", base[1], tuple(merge_elem(x, y) for x, y in zip(base[2], new[2])))
            return m if base is old else ("opt", m)
        if {base, new} == {"int", "real"}:
            return "val"
        return "val"
    if isinstance(base, tuple) and base[0] in ("list", "set") and base[2] is None:
        return new
    return old


class Handle:
    """Common part of the container handles."""
    _pv_model = True

    def __hash__(self):
        raise TypeError(f"unhashable type: '{type(self).__name__}'")

    def _rd(self, name):
        E().alive()
        return E().heap.read(name, self._pv_ref)

    def _wr(self, name, value):
        E().alive()
        E().log_write(name, self._pv_ref)
        E().heap.write(name, self._pv_ref, value)

    def _learn(self, x):
        old = self._pv_elem
        if isinstance(x, Handle) and x._pv_elem is None and isinstance(old, tuple):
            sh = old[1] if old[0] == "opt" else old
            if sh[0] in ("list", "set") and sh[1] is type(x):
                x._pv_elem = sh[2]
            elif sh[0] == "dict" and sh[1] is type(x):
                x._pv_key, x._pv_elem = sh[2], sh[3]
        self._pv_elem = merge_elem(self._pv_elem, shape_of(x))
        return E().enc(x)

    def _alloc(self):
        eng = E()
        object.__setattr__(self, "_pv_ref", eng.new_ref())
        eng.register(self._pv_ref, self)

    def __repr__(self):
        return f"<{type(self).__name__} {self._pv_ref}>"


class MList(Handle):
    def __init__(self, iterable=None):
        self._alloc()
        self._pv_elem = None
        h = E().heap
        h.write("lo", self._pv_ref, IV(0))
        h.write("hi", self._pv_ref, IV(0))
        h.write("el", self._pv_ref, z3.K(z3.IntSort(), NONE))
        if iterable is not None:
            self._fill(iterable)

    def _fill(self, it):
        h = E().heap
        if isinstance(it, MList):
            for n in ("lo", "hi", "el"):
                h.write(n, self._pv_ref, it._rd(n))
            self._pv_elem = it._pv_elem
            return
        src = source_of(it)
        if src is not None and src.concrete() is None:
            arr, n = src.as_array()
            h.write("lo", self._pv_ref, IV(0))
            h.write("hi", self._pv_ref, n)
            h.write("el", self._pv_ref, arr)
            self._pv_elem = src.elem_shape()
            return
        for x in (it if src is None else src.concrete()):
            self.append(x)

    # -- reading
    @property
    def lo(self):
        return self._rd("lo")

    @property
    def hi(self):
        return self._rd("hi")

    @property
    def el(self):
        return self._rd("el")

    def zlen(self):
        return z3.simplify(self.hi - self.lo)

    def clen(self):
        e = self.zlen()
        return e.as_long() if z3.is_int_value(e) else None

    def __len__(self):
        return pyint(self.zlen())

    def __bool__(self):
        return E().fork(self.hi > self.lo)

    def _at(self, zi):
        return E().dec(z3.Select(self.el, z3.simplify(zi)), self._pv_elem)

    def _index(self, i):
        i = zint(i)
        n = self.zlen()
        if E().fork(i < 0):
            i = i + n
        if not E().fork(z3.And(i >= 0, i < n)):
            raise IndexError("list index out of range")
        return z3.simplify(self.lo + i)

    def __getitem__(self, i):
        if isinstance(i, slice):
            return self._slice(i)
        if not isinstance(i, (int, SymInt)):
            raise TypeError("list indices must be integers or slices")
        return self._at(self._index(i))

    def _slice(self, s):
        if s.step is not None and s.step != 1:
            if s.step == -1 and s.start is None and s.stop is None and self.clen() is not None:
                return type(self)([self._at(self.lo + i) for i in range(self.clen())][::-1])
            raise Unsupported("slice step")
        n = self.zlen()

        def bound(b, default):
            if b is None:
                return default
            b = zint(b)
            b = z3.If(b < 0, z3.If(b + n < 0, IV(0), b + n), z3.If(b > n, n, b))
            return z3.simplify(b)
        a, b = bound(s.start, IV(0)), bound(s.stop, n)
        b = z3.simplify(z3.If(b < a, a, b))
        r = MList()       # slicing a list subclass gives a plain list
        if isinstance(self, MDeque):
            raise TypeError("sequence index must be integer, not 'slice'")
        h = E().heap
        h.write("lo", r._pv_ref, z3.simplify(self.lo + a))
        h.write("hi", r._pv_ref, z3.simplify(self.lo + b))
        h.write("el", r._pv_ref, self.el)
        r._pv_elem = self._pv_elem
        return r

    def __contains__(self, x):
        return E().fork(self.has_z(E().enc(x)))

    def has_z(self, x, heap=None):
        c = self.clen()
        if c is not None and c <= 6:
            return z3.Or([z3.Select(self.el, self.lo + k) == x for k in range(c)])
        i = z3.Int("i!in")
        return z3.Exists([i], z3.And(self.lo <= i, i < self.hi, z3.Select(self.el, i) == x))

    def __iter__(self):
        c = self.clen()
        if c is None:
            raise Unsupported("iteration over a list of symbolic length outside a loop")
        for k in range(c):
            yield self._at(self.lo + k)

    def __eq__(self, o):
        if not isinstance(o, MList):
            return False
        if self._pv_ref.eq(o._pv_ref):
            return True
        a, b = self.clen(), o.clen()
        if a is not None and b is not None:
            if a != b:
                return False
            return SymBool(z3.And([z3.Select(self.el, self.lo + k) == z3.Select(o.el, o.lo + k) for k in range(a)]))
        i = z3.Int("i!eq")
        return SymBool(z3.And(self.zlen() == o.zlen(), z3.ForAll([i], z3.Implies(
            z3.And(0 <= i, i < self.zlen()), z3.Select(self.el, self.lo + i) == z3.Select(o.el, o.lo + i)))))

    def __ne__(self, o):
        r = self.__eq__(o)
        return SymBool(z3.Not(r.expr)) if isinstance(r, SymBool) else not r

    __hash__ = Handle.__hash__

    def __add__(self, o):
        if not isinstance(o, MList):
            return NotImplemented
        r = MList(self)
        r.extend(o)
        return r

    def __iadd__(self, o):
        self.extend(o)
        return self

    def __mul__(self, k):
        raise Unsupported("list repetition")

    # -- writing
    def append(self, x):
        e = self._learn(x)
        hi = self.hi
        self._wr("el", z3.Store(self.el, hi, e))
        self._wr("hi", z3.simplify(hi + 1))

    def appendleft(self, x):
        e = self._learn(x)
        lo = z3.simplify(self.lo - 1)
        self._wr("el", z3.Store(self.el, lo, e))
        self._wr("lo", lo)

    def extend(self, it):
        src = source_of(it)
        if src is None or src.concrete() is not None:
            for x in (it if src is None else src.concrete()):
                self.append(x)
            return
        arr, n = src.as_array()
        eng = E()
        new = eng.fresh("cat", z3.ArraySort(z3.IntSort(), V))
        i = z3.Int("i!cat")
        el, hi = self.el, self.hi
        eng.assume(z3.ForAll([i], z3.Select(new, i) == z3.If(i < hi, z3.Select(el, i), z3.Select(arr, i - hi)),
                             patterns=[z3.Select(new, i)]))
        self._pv_elem = merge_elem(self._pv_elem, src.elem_shape() or "val")
        self._wr("el", new)
        self._wr("hi", z3.simplify(hi + n))

    def pop(self, i=-1):
        if not E().fork(self.hi > self.lo):
            raise IndexError("pop from empty list")
        if isinstance(i, int) and i == -1:
            hi = z3.simplify(self.hi - 1)
            r = self._at(hi)
            self._wr("hi", hi)
            return r
        if isinstance(i, int) and i == 0:
            r = self._at(self.lo)
            self._wr("lo", z3.simplify(self.lo + 1))
            return r
        p = self._index(i)
        r = self._at(p)
        self._remove_at(p)
        return r

    def _remove_at(self, p):
        eng = E()
        new = eng.fresh("rm", z3.ArraySort(z3.IntSort(), V))
        i = z3.Int("i!rm")
        el = self.el
        eng.assume(z3.ForAll([i], z3.Select(new, i) == z3.If(i < p, z3.Select(el, i), z3.Select(el, i + 1)),
                             patterns=[z3.Select(new, i)]))
        self._wr("el", new)
        self._wr("hi", z3.simplify(self.hi - 1))

    def popleft(self):
        return MList.pop(self, 0)

    def insert(self, i, x):
        if isinstance(i, int) and i == 0:
            return self.appendleft(x)
        if not isinstance(i, (int, SymInt)):
            raise TypeError
        e = self._learn(x)
        n = self.zlen()
        p = zint(i)
        p = z3.simplify(self.lo + z3.If(p < 0, z3.If(p + n < 0, IV(0), p + n), z3.If(p > n, n, p)))
        eng = E()
        new = eng.fresh("ins", z3.ArraySort(z3.IntSort(), V))
        k = z3.Int("i!ins")
        el = self.el
        eng.assume(z3.ForAll([k], z3.Select(new, k) == z3.If(k < p, z3.Select(el, k), z3.If(
            k == p, e, z3.Select(el, k - 1))), patterns=[z3.Select(new, k)]))
        self._wr("el", new)
        self._wr("hi", z3.simplify(self.hi + 1))

    def __setitem__(self, i, x):
        if isinstance(i, slice):
            raise Unsupported("slice assignment")
        p = self._index(i)
        self._wr("el", z3.Store(self.el, p, self._learn(x)))

    def __delitem__(self, i):
        if isinstance(i, slice):
            if i.start is None and i.stop is None:
                return self.clear()
            if i.start is None and i.step is None:
                r = self._slice(slice(i.stop, None))
                self._wr("lo", r.lo)
                return None
            raise Unsupported("slice deletion")
        p = self._index(i)
        if z3.is_true(z3.simplify(p == self.lo)):
            self._wr("lo", z3.simplify(self.lo + 1))
        else:
            self._remove_at(p)

    def index(self, x):
        e = E().enc(x)
        if not E().fork(self.has_z(e)):
            raise ValueError(f"{x!r} is not in list")
        j = E().fresh("idx", z3.IntSort())
        i = z3.Int("i!ix")
        E().assume(z3.And(self.lo <= j, j < self.hi, z3.Select(self.el, j) == e))
        E().assume(z3.ForAll([i], z3.Implies(z3.And(self.lo <= i, i < j), z3.Select(self.el, i) != e),
                             patterns=[z3.Select(self.el, i)]))
        return pyint(j - self.lo)

    def remove(self, x):
        j = self.index(x)
        self._remove_at(z3.simplify(self.lo + zint(j)))

    def clear(self):
        self._wr("lo", IV(0))
        self._wr("hi", IV(0))

    def copy(self):
        return type(self)(self) if isinstance(self, MDeque) else MList(self)

    __copy__ = copy

    def reverse(self):
        raise Unsupported("list.reverse")

    def sort(self, **kw):
        raise Unsupported("list.sort")

    def count(self, x):
        raise Unsupported("list.count")


class MDeque(MList):
    def __init__(self, iterable=None, maxlen=None):
        if maxlen is not None:
            raise Unsupported("deque maxlen")
        super().__init__(iterable)

    def pop(self):
        if not E().fork(self.hi > self.lo):
            raise IndexError("pop from an empty deque")
        return super().pop(-1)


_MISSING = object()


class MDict(Handle):
    def __init__(self, *a, **kw):
        self._alloc()
        self._pv_key = None
        self._pv_elem = None
        h = E().heap
        h.write("has", self._pv_ref, z3.K(V, z3.BoolVal(False)))
        h.write("val", self._pv_ref, z3.K(V, NONE))
        h.write("size", self._pv_ref, IV(0))
        if E().ordered:
            h.write("ord", self._pv_ref, z3.K(V, IV(0)))
            h.write("top", self._pv_ref, IV(0))
        self.update(*a, **kw)

    def _hk(self, k):
        if isinstance(k, Handle):
            raise TypeError(f"unhashable type: '{type(k).__name__}'")
        self._pv_key = merge_elem(self._pv_key, shape_of(k))
        return E().enc(k)

    @property
    def has(self):
        return self._rd("has")

    @property
    def vals(self):
        return self._rd("val")

    @property
    def zsize(self):
        return self._rd("size")

    def zlen(self):
        return self.zsize

    def __len__(self):
        return pyint(self.zsize)

    def __bool__(self):
        return nonempty(self.has, self.zsize)

    def __contains__(self, k):
        if isinstance(k, Handle):
            raise TypeError(f"unhashable type: '{type(k).__name__}'")
        return self._in(E().enc(k))

    def _in(self, e):
        return E().fork(z3.simplify(z3.Select(self.has, e)))

    def _val(self, e):
        return E().dec(z3.Select(self.vals, e), self._pv_elem)

    def __missing__(self, k):
        raise KeyError(k)

    def __getitem__(self, k):
        e = E().enc(k)
        if not self._in(e):
            return self.__missing__(k)
        return self._val(e)

    def get(self, k, default=None):
        e = E().enc(k)
        return self._val(e) if self._in(e) else default

    def __setitem__(self, k, v):
        e = self._hk(k)
        x = self._learn(v)
        was = z3.simplify(z3.Select(self.has, e))
        if E().ordered:
            o, t = self._rd("ord"), self._rd("top")
            self._wr("ord", z3.Store(o, e, z3.If(was, z3.Select(o, e), t)))
            self._wr("top", z3.simplify(t + 1))
        self._wr("size", z3.simplify(z3.If(was, self.zsize, self.zsize + 1)))
        self._wr("has", z3.Store(self.has, e, z3.BoolVal(True)))
        self._wr("val", z3.Store(self.vals, e, x))

    def order_fact(self):
        """Every key present was inserted before the next one will be."""
        k = z3.Const("k!of", V)
        has, o, t = name_array(self.has), name_array(self._rd("ord")), self._rd("top")
        return z3.ForAll([k], z3.Implies(z3.Select(has, k), z3.Select(o, k) < t),
                         patterns=[z3.Select(has, k), z3.Select(o, k)])

    def _del(self, e):
        E().assume(self.zsize >= 1)
        self._wr("size", z3.simplify(self.zsize - 1))
        self._wr("has", z3.Store(self.has, e, z3.BoolVal(False)))

    def __delitem__(self, k):
        e = E().enc(k)
        if not self._in(e):
            raise KeyError(k)
        self._del(e)

    def pop(self, k, default=_MISSING):
        e = E().enc(k)
        if not self._in(e):
            if default is _MISSING:
                raise KeyError(k)
            return default
        v = self._val(e)
        self._del(e)
        return v

    def setdefault(self, k, default=None):
        e = E().enc(k)
        if default is not None:
            self._learn(default)
        if self._in(e):
            return self._val(e)
        self[k] = default
        return default

    def clear(self):
        self._wr("has", z3.K(V, z3.BoolVal(False)))
        self._wr("size", IV(0))

    def update(self, *a, **kw):
        for o in a:
            if isinstance(o, MDict):
                self._update(o)
            elif isinstance(o, dict):
                for k, v in o.items():
                    self[k] = v
            elif isinstance(o, SymVal):
                raise Unsupported("update from an opaque mapping")
            else:
                for k, v in o:
                    self[k] = v
        for k, v in kw.items():
            self[k] = v

    def _update(self, o):
        eng = E()
        self._pv_elem = merge_elem(self._pv_elem, o._pv_elem or "val") if o._pv_elem is not None else self._pv_elem
        self._pv_key = o._pv_key if self._pv_key is None else self._pv_key
        if z3.is_true(z3.simplify(self.zsize == 0)) and z3.simplify(self.has).eq(z3.K(V, z3.BoolVal(False))):
            self._wr("has", o.has)
            self._wr("val", o.vals)
            self._wr("size", o.zsize)
            if eng.ordered:
                self._wr("ord", o._rd("ord"))
                self._wr("top", o._rd("top"))
            return
        if eng.ordered:
            raise Unsupported("insertion order after update")
        h2 = eng.fresh("upd_has", z3.ArraySort(V, z3.BoolSort()))
        v2 = eng.fresh("upd_val", z3.ArraySort(V, V))
        k = z3.Const("k!upd", V)
        eng.assume(z3.ForAll([k], z3.Select(h2, k) == z3.Or(z3.Select(self.has, k), z3.Select(o.has, k)),
                             patterns=[z3.Select(h2, k)]))
        eng.assume(z3.ForAll([k], z3.Select(v2, k) == z3.If(z3.Select(o.has, k), z3.Select(o.vals, k),
                                                             z3.Select(self.vals, k)), patterns=[z3.Select(v2, k)]))
        n = eng.fresh("upd_n", z3.IntSort())
        eng.assume(z3.And(n >= self.zsize, n >= o.zsize, n <= self.zsize + o.zsize))
        self._wr("has", h2)
        self._wr("val", v2)
        self._wr("size", n)

    def __or__(self, o):
        r = MDict(self)
        r.update(o)
        return r

    def keys(self):
        return View(self, "keys")

    def values(self):
        return View(self, "values")

    def items(self):
        return View(self, "items")

    def copy(self):
        return MDict(self)

    __copy__ = copy

    def __iter__(self):
        return iter(View(self, "keys"))

    def __eq__(self, o):
        if not isinstance(o, MDict):
            return False
        if self._pv_ref.eq(o._pv_ref):
            return True
        k = z3.Const("k!eq", V)
        return SymBool(z3.ForAll([k], z3.And(z3.Select(self.has, k) == z3.Select(o.has, k), z3.Implies(
            z3.Select(self.has, k), z3.Select(self.vals, k) == z3.Select(o.vals, k)))))

    def __ne__(self, o):
        r = self.__eq__(o)
        return SymBool(z3.Not(r.expr)) if isinstance(r, SymBool) else not r

    __hash__ = Handle.__hash__

    def popitem(self):
        raise Unsupported("popitem")


class MCounter(MDict):
    def __missing__(self, k):
        return 0

    def __delitem__(self, k):
        e = E().enc(k)
        if self._in(e):
            self._del(e)

    def update(self, *a, **kw):
        if a or kw:
            raise Unsupported("Counter.update")


class MDefaultDict(MDict):
    def __init__(self, factory=None, *a):
        super().__init__(*a)
        self._factory = factory

    def __missing__(self, k):
        if self._factory is None:
            raise KeyError(k)
        v = self._factory()
        self[k] = v
        return v


def nonempty(has, size):
    """Fork on emptiness, with the facts that connect size and membership."""
    eng = E()
    s = z3.simplify(size)
    if z3.is_int_value(s):
        return s.as_long() > 0
    k = z3.Const("k!ne", V)
    if eng.fork(size > 0):
        w = eng.fresh("member", V)
        eng.assume(z3.Select(has, w))
        return True
    eng.assume(size == 0)
    has = name_array(has)
    eng.assume(z3.ForAll([k], z3.Not(z3.Select(has, k)), patterns=[z3.Select(has, k)]))
    return False


def name_array(a):
    """A constant equal to the array (patterns over store chains do not match reliably)."""
    if z3.is_const(a) or (z3.is_app(a) and a.decl().kind() == z3.Z3_OP_SELECT and z3.is_const(a.arg(0))):
        return a
    c = E().fresh("arr", a.sort())
    E().assume(c == a)
    return c


def pattern_ok(arr):
    return not z3.is_quantifier(arr)


class View:
    def __init__(self, d, kind):
        self.d, self.kind = d, kind

    def __len__(self):
        return pyint(self.d.zsize)

    def __bool__(self):
        return bool(self.d)

    def __contains__(self, x):
        if self.kind == "keys":
            return x in self.d
        raise Unsupported("in values()/items()")

    def _set(self):
        s = MSet()
        h = E().heap
        h.write("has", s._pv_ref, self.d.has)
        h.write("size", s._pv_ref, self.d.zsize)
        s._pv_elem = self.d._pv_key
        return s

    def __and__(self, o):
        return self._set() & o

    def __or__(self, o):
        return self._set() | o

    def __sub__(self, o):
        return self._set() - o

    def isdisjoint(self, o):
        return self._set().isdisjoint(o)

    def __iter__(self):
        c = source_of(self).concrete()
        if c is None:
            raise Unsupported("iteration over a symbolic dict outside a loop")
        return iter(c)


class MSet(Handle):
    def __init__(self, iterable=None):
        self._alloc()
        self._pv_elem = None
        h = E().heap
        h.write("has", self._pv_ref, z3.K(V, z3.BoolVal(False)))
        h.write("size", self._pv_ref, IV(0))
        if iterable is not None:
            self.update(iterable)

    has = MDict.has
    zsize = MDict.zsize
    zlen = MDict.zlen
    __len__ = MDict.__len__
    __bool__ = MDict.__bool__
    __contains__ = MDict.__contains__
    _in = MDict._in
    _del = MDict._del

    def _hk(self, k):
        if isinstance(k, Handle):
            raise TypeError(f"unhashable type: '{type(k).__name__}'")
        return self._learn(k)

    def add(self, k):
        e = self._hk(k)
        was = z3.simplify(z3.Select(self.has, e))
        self._wr("size", z3.simplify(z3.If(was, self.zsize, self.zsize + 1)))
        self._wr("has", z3.Store(self.has, e, z3.BoolVal(True)))

    def remove(self, k):
        e = E().enc(k)
        if not self._in(e):
            raise KeyError(k)
        self._del(e)

    def discard(self, k):
        e = E().enc(k)
        if self._in(e):
            self._del(e)

    def clear(self):
        self._wr("has", z3.K(V, z3.BoolVal(False)))
        self._wr("size", IV(0))

    def pop(self):
        if not self:
            raise KeyError("pop from an empty set")
        w = E().fresh("popped", V)
        E().assume(z3.Select(self.has, w))
        self._del(w)
        return E().dec(w, self._pv_elem)

    def _combine(self, o, op, bounds):
        eng = E()
        if isinstance(o, View) and o.kind == "keys":
            o = o._set()
        if not isinstance(o, MSet):
            o = MSet(o)
        new = eng.fresh("set", z3.ArraySort(V, z3.BoolSort()))
        k = z3.Const("k!set", V)
        a, b = name_array(self.has), name_array(o.has)
        for p in (new, a, b):
            if not z3.is_const_array(p):
                eng.assume(z3.ForAll([k], z3.Select(new, k) == op(z3.Select(a, k), z3.Select(b, k)),
                                     patterns=[z3.Select(p, k)]))
        n = eng.fresh("setn", z3.IntSort())
        eng.assume(bounds(n, self.zsize, o.zsize))
        eng.assume(z3.Implies(n == 0, z3.ForAll([k], z3.Not(z3.Select(new, k)), patterns=[z3.Select(new, k)])))
        w = eng.fresh("member", V)
        eng.assume(z3.Implies(n > 0, z3.Select(new, w)))
        return new, n, o

    def _new(self, new, n, o):
        r = MSet()
        E().heap.write("has", r._pv_ref, new)
        E().heap.write("size", r._pv_ref, n)
        r._pv_elem = self._pv_elem or o._pv_elem
        return r

    def __or__(self, o):
        new, n, o = self._combine(o, z3.Or, lambda n, a, b: z3.And(n >= a, n >= b, n <= a + b))
        return self._new(new, n, o)

    def __and__(self, o):
        new, n, o = self._combine(o, z3.And, lambda n, a, b: z3.And(n >= 0, n <= a, n <= b))
        return self._new(new, n, o)

    def __sub__(self, o):
        new, n, o = self._combine(o, lambda a, b: z3.And(a, z3.Not(b)), lambda n, a, b: z3.And(n >= 0, n <= a, n >= a - b))
        return self._new(new, n, o)

    union, intersection, difference = __or__, __and__, __sub__

    def isdisjoint(self, o):
        return not (self & o)

    def update(self, *its):
        for it in its:
            src = source_of(it)
            if src is not None and src.concrete() is None:
                if isinstance(it, MSet) or (isinstance(it, View) and it.kind == "keys") or isinstance(it, MDict):
                    s = it if isinstance(it, MSet) else (it._set() if isinstance(it, View) else View(it, "keys")._set())
                    if self._fresh_empty():
                        self._wr("has", s.has)
                        self._wr("size", s.zsize)
                    else:
                        new, n, _ = self._combine(s, z3.Or, lambda n, a, b: z3.And(n >= a, n >= b, n <= a + b))
                        self._wr("has", new)
                        self._wr("size", n)
                    self._pv_elem = merge_elem(self._pv_elem, s._pv_elem or "val")
                    continue
                self._from_seq(*src.as_array(), src.elem_shape())
                continue
            for x in (it if src is None else src.concrete()):
                self.add(x)

    def _fresh_empty(self):
        return z3.is_true(z3.simplify(self.zsize == 0))

    def _from_seq(self, arr, n, shape):
        """Add the elements arr[0..n)."""
        eng = E()
        new = eng.fresh("setof", z3.ArraySort(V, z3.BoolSort()))
        where = z3.Function(f"where!{eng.fresh('w', z3.IntSort())}", V, z3.IntSort())
        k, i = z3.Const("k!sq", V), z3.Int("i!sq")
        old = self.has
        eng.assume(z3.ForAll([k], z3.Implies(z3.Select(new, k), z3.Or(z3.Select(old, k), z3.And(
            0 <= where(k), where(k) < n, z3.Select(arr, where(k)) == k))), patterns=[z3.Select(new, k)]))
        eng.assume(z3.ForAll([i], z3.Implies(z3.And(0 <= i, i < n), z3.Select(new, z3.Select(arr, i))),
                             patterns=[z3.Select(arr, i)]))
        eng.assume(z3.ForAll([k], z3.Implies(z3.Select(old, k), z3.Select(new, k)), patterns=[z3.Select(new, k)]))
        m = eng.fresh("setn", z3.IntSort())
        eng.assume(z3.And(m >= self.zsize, m <= self.zsize + n, z3.Implies(n > 0, m > 0)))
        self._pv_elem = merge_elem(self._pv_elem, shape or "val")
        self._wr("has", new)
        self._wr("size", m)

    def __ior__(self, o):
        self.update(o)
        return self

    def copy(self):
        return MSet(self)

    __copy__ = copy

    def __iter__(self):
        c = source_of(self).concrete()
        if c is None:
            raise Unsupported("iteration over a symbolic set outside a loop")
        return iter(c)

    def __eq__(self, o):
        if not isinstance(o, MSet):
            return False
        k = z3.Const("k!eq", V)
        return SymBool(z3.ForAll([k], z3.Select(self.has, k) == z3.Select(o.has, k)))

    def __ne__(self, o):
        r = self.__eq__(o)
        return SymBool(z3.Not(r.expr)) if isinstance(r, SymBool) else True

    __hash__ = Handle.__hash__


# ---------------------------------------------------------------- iteration sources
class ListSource:
    live = True

    def __init__(self, lst):
        self.lst = lst

    def concrete(self):
        c = self.lst.clen()
        return None if c is None else [self.lst._at(self.lst.lo + k) for k in range(c)]

    def n(self):
        return self.lst.zlen()

    def elem(self, i):
        return self.lst._at(self.lst.lo + i)

    def elem_v(self, i):
        return z3.Select(self.lst.el, z3.simplify(self.lst.lo + i))

    def elem_shape(self):
        return self.lst._pv_elem

    def as_array(self):
        l = self.lst
        if z3.is_true(z3.simplify(l.lo == 0)):
            return l.el, l.hi
        eng = E()
        a = eng.fresh("shift", z3.ArraySort(z3.IntSort(), V))
        i = z3.Int("i!sh")
        el = name_array(l.el)
        eng.assume(z3.ForAll([i], z3.Select(a, i) == z3.Select(el, i + l.lo), patterns=[z3.Select(a, i)]))
        eng.assume(z3.ForAll([i], z3.Select(el, i) == z3.Select(a, i - l.lo), patterns=[z3.Select(el, i)]))
        return a, l.zlen()

    def identity(self):
        return self.lst

    def still(self):
        pass


def store_chain(has):
    """Keys of an array that is a chain of stores over the empty set, when they are all literal values."""
    keys, e = {}, z3.simplify(has)
    order = []
    while z3.is_app(e) and e.decl().kind() == z3.Z3_OP_STORE:
        k, b = e.arg(1), e.arg(2)
        if not is_value(k) or not (z3.is_true(b) or z3.is_false(b)):
            return None
        if k.get_id() not in keys:
            keys[k.get_id()] = z3.is_true(b)
            order.append(k)
        e = e.arg(0)
    if z3.is_app(e) and e.decl().kind() == z3.Z3_OP_CONST_ARRAY and z3.is_false(e.arg(0)):
        return [k for k in reversed(order) if keys[k.get_id()]]
    return None


def is_value(e):
    if z3.is_int_value(e) or z3.is_rational_value(e):
        return True
    return z3.is_app(e) and e.decl().kind() == z3.Z3_OP_DT_CONSTRUCTOR and all(is_value(c) for c in e.children())


class KeysSource:
    """Iteration over a dict (keys, values, items) or a set: an arbitrary enumeration of its members."""
    live = False

    def __init__(self, owner, kind):
        self.owner, self.kind = owner, kind
        self.enum = None
        self.has0 = owner.has
        self.size0 = owner.zsize
        self.ord0 = owner._rd("ord") if E().ordered and isinstance(owner, MDict) else None

    def concrete(self):
        if z3.is_true(z3.simplify(self.owner.zsize == 0)):
            return []
        ks = store_chain(self.owner.has)
        if ks is None:
            return None
        return [self._wrap(k) for k in ks]

    def _wrap(self, k):
        key_shape = self.owner._pv_key if isinstance(self.owner, MDict) else self.owner._pv_elem
        if self.kind == "keys":
            return E().dec(k, key_shape)
        v = self.owner._val(k)
        return v if self.kind == "values" else (E().dec(k, key_shape), v)

    def setup(self):
        if self.enum is not None:
            return
        eng = E()
        self.enum = eng.fresh("enum", z3.ArraySort(z3.IntSort(), V))
        self.pos = z3.Function(f"pos!{self.enum}", V, z3.IntSort())
        i, k = z3.Int("i!en"), z3.Const("k!en", V)
        n = self.size0
        named = name_array(self.has0)
        eng.assume(n >= 0)
        eng.assume(z3.ForAll([i], z3.Implies(z3.And(0 <= i, i < n), z3.And(
            z3.Select(named, z3.Select(self.enum, i)), self.pos(z3.Select(self.enum, i)) == i)),
            patterns=[z3.Select(self.enum, i)]))
        eng.assume(z3.ForAll([k], z3.Implies(z3.Select(named, k), z3.And(
            0 <= self.pos(k), self.pos(k) < n, z3.Select(self.enum, self.pos(k)) == k)),
            patterns=[z3.Select(named, k)]))
        if self.ord0 is not None:
            j, o = z3.Int("j!en"), name_array(self.ord0)
            eng.assume(z3.ForAll([i, j], z3.Implies(z3.And(0 <= i, i < j, j < n), z3.Select(
                o, z3.Select(self.enum, i)) < z3.Select(o, z3.Select(self.enum, j))),
                patterns=[z3.MultiPattern(z3.Select(self.enum, i), z3.Select(self.enum, j))]))

    def n(self):
        self.setup()
        return self.size0

    def key(self, i):
        self.setup()
        return z3.Select(self.enum, i)

    def elem(self, i):
        return self._wrap(self.key(i))

    def elem_v(self, i):
        k = self.key(i)
        if self.kind == "keys":
            return k
        if self.kind == "values":
            return z3.Select(self.owner.vals, k)
        return V.rec(IV(core.tag_of(tuple, 2)), k, z3.Select(self.owner.vals, k), NONE, NONE)

    def elem_shape(self):
        key_shape = self.owner._pv_key if isinstance(self.owner, MDict) else self.owner._pv_elem
        if self.kind == "keys":
            return key_shape
        if self.kind == "values":
            return self.owner._pv_elem
        return ("rec", tuple, (key_shape, self.owner._pv_elem))

    def as_array(self):
        self.setup()
        if self.kind == "keys":
            return self.enum, self.size0
        eng = E()
        a = eng.fresh("vals", z3.ArraySort(z3.IntSort(), V))
        i = z3.Int("i!va")
        eng.assume(z3.ForAll([i], z3.Select(a, i) == self.elem_v(i), patterns=[z3.Select(a, i)]))
        eng.assume(z3.ForAll([i], z3.Select(a, i) == self.elem_v(i), patterns=[z3.Select(self.enum, i)]))
        return a, self.size0

    def identity(self):
        return self.owner

    def still(self):
        if E().fork(self.owner.zsize != self.size0):
            raise RuntimeError("container changed size during iteration")


class MapSource:
    """enumerate / map-like wrappers over another source."""
    live = True

    def __init__(self, base, f):
        self.base, self.f = base, f

    def concrete(self):
        c = self.base.concrete()
        return None if c is None else [self.f(i, x) for i, x in enumerate(c)]

    def n(self):
        return self.base.n()

    def elem(self, i):
        return self.f(pyint(i), self.base.elem(i))

    def identity(self):
        return self.base.identity()

    def elem_shape(self):
        return None

    def as_array(self):
        raise Unsupported("symbolic enumerate as a sequence")

    def still(self):
        self.base.still()


class Lazy:
    """A lazily mapped symbolic iterable."""

    def __init__(self, src):
        self.src = src

    def __iter__(self):
        c = self.src.concrete()
        if c is None:
            raise Unsupported("iteration over symbolic data outside a loop")
        return iter(c)


class RangeSource:
    live = False

    def __init__(self, a, b):
        self.a, self.b = zint(a), zint(b)

    def concrete(self):
        n = z3.simplify(self.b - self.a)
        if z3.is_int_value(n):
            return [pyint(self.a + k) for k in range(max(0, n.as_long()))]
        return None

    def n(self):
        return z3.If(self.b > self.a, self.b - self.a, IV(0))

    def elem(self, i):
        return pyint(self.a + i)

    def identity(self):
        return None

    def elem_shape(self):
        return "int"

    def still(self):
        pass

    def as_array(self):
        raise Unsupported("range as a sequence")


def source_of(x):
    if isinstance(x, MList):
        return ListSource(x)
    if isinstance(x, MDict):
        return KeysSource(x, "keys")
    if isinstance(x, MSet):
        return KeysSource(x, "keys")
    if isinstance(x, View):
        return KeysSource(x.d, x.kind)
    if isinstance(x, Lazy):
        return x.src
    return None


# ---------------------------------------------------------------- handles by shape
def handle_for(e, shape):
    kind = shape[0]
    if kind == "list":
        h = shape[1].__new__(shape[1])
        object.__setattr__(h, "_pv_ref", e)
        h._pv_elem = shape[2]
        E().assume(h.lo <= h.hi)
        return h
    if kind == "dict":
        h = shape[1].__new__(shape[1])
        object.__setattr__(h, "_pv_ref", e)
        h._pv_key, h._pv_elem = shape[2], shape[3]
        E().assume(h.zsize >= 0)
        return h
    if kind == "set":
        h = shape[1].__new__(shape[1])
        object.__setattr__(h, "_pv_ref", e)
        h._pv_elem = shape[2]
        E().assume(h.zsize >= 0)
        return h
    if kind == "obj":
        return shape[1](e)
    raise Unsupported(f"handle of shape {shape}")


_SYMCLS = {}


def sym_class(cls, fields, name=None):
    """A subclass of the real class whose instances are symbolic: attributes live in the heap arrays."""
    key = (cls, name)
    c = _SYMCLS.get(key)
    if c is not None:
        c._pv_fields.update(fields)
        return c

    def make(e):
        o = object.__new__(sub)
        object.__setattr__(o, "_pv_ref", e)
        return o

    def getattr_(self, attr):
        if attr.startswith("__"):
            raise AttributeError(attr)
        if attr not in type(self)._pv_fields:
            raise Unsupported(f"field {type(self).__mro__[1].__name__}.{attr} has no declared shape")
        sh = type(self)._pv_fields[attr]
        return E().dec(E().heap.read("a:" + attr, self._pv_ref), sh)

    def setattr_(self, attr, value):
        eng = E()
        eng.alive()
        if attr not in type(self)._pv_fields:
            raise Unsupported(f"field {type(self).__mro__[1].__name__}.{attr} has no declared shape")
        eng.log_write("a:" + attr, self._pv_ref)
        eng.heap.write("a:" + attr, self._pv_ref, eng.enc(value))

    def eq_(self, o):
        if not hasattr(o, "_pv_ref") and not isinstance(o, SymVal):
            return False
        return SymBool(z3.simplify(self._pv_ref == E().enc(o)))

    sub = type(cls)(f"Sym{cls.__name__}", (cls,), {
        "__getattr__": getattr_, "__setattr__": setattr_, "__eq__": eq_, "__hash__": object.__hash__,
        "_pv_fields": dict(fields), "_pv_is_symobj": True})
    sub._pv_symshape = ("obj", make)
    sub._pv_make = staticmethod(make)
    _SYMCLS[key] = sub
    return sub
