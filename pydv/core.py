"""Path-exploring verification-condition generator: engine, symbolic scalars, fork/check/assume.

A contract is a Python function run again and again, once per path (re-execution along a decision
prefix).  The code under contract is the real source of /repo, mechanically instrumented (loader.py)
and executed by CPython on symbolic values.  Every branch on a symbolic condition forks the path,
every loop over symbolic data is cut by an invariant, every await that may suspend is cut by the
rely/guarantee of the contract, and every `check` is one proof obligation discharged by z3.
"""
import os
import time
from fractions import Fraction

import z3

z3.set_param("auto_config", False)
z3.set_param("smt.mbqi", False)

# The universe of Python values as the verifier sees them.  lit: interned Python literals/objects;
# ref: heap objects (gen = allocation time, so a new object differs from everything that existed);
# rec: NamedTuple/tuple instances (tag = class); opq: everything else (caller-supplied objects).
_V = z3.Datatype("V")
_V.declare("lit", ("litn", z3.IntSort()))
_V.declare("int_", ("ival", z3.IntSort()))
_V.declare("real_", ("rval", z3.RealSort()))
_V.declare("ref", ("gen", z3.IntSort()), ("rid", z3.IntSort()))
_V.declare("rec", ("tag", z3.IntSort()), ("f0", _V), ("f1", _V), ("f2", _V), ("f3", _V))
_V.declare("opq", ("opqn", z3.IntSort()))
V = _V.create()
NONE = V.lit(z3.IntVal(0))
FIELDS = (V.f0, V.f1, V.f2, V.f3)


class EngineSignal(BaseException):
    pass


class PathEnd(EngineSignal):
    pass


class Restart(EngineSignal):
    pass


class Unsupported(EngineSignal):
    """The code left the fragment the verifier handles."""


class Vacuous(EngineSignal):
    pass


ENGINE = None  # the engine of the current run (one per process at a time)


def E():
    return ENGINE


def z(x):
    """Python number/bool/Sym* -> z3 expr."""
    if isinstance(x, Sym):
        return x.expr
    if isinstance(x, bool):
        return z3.BoolVal(x)
    if isinstance(x, int):
        return z3.IntVal(x)
    if isinstance(x, float):
        if x == float("inf") or x == float("-inf") or x != x:
            raise Unsupported("non-finite float")
        return z3.RealVal(repr(x) if "e" not in repr(x) else str(Fraction(x)))
    if isinstance(x, Fraction):
        return z3.RealVal(str(x))
    if z3.is_expr(x):
        return x
    raise Unsupported(f"no z3 value for {type(x).__name__}")


class Sym:
    __slots__ = ("expr", "__weakref__")

    def __init__(self, expr):
        self.expr = expr

    def __hash__(self):
        raise Unsupported("hash of a symbolic value")

    def __repr__(self):
        return f"<{type(self).__name__} {self.expr}>"

    def __str__(self):
        return repr(self)

    def __format__(self, spec):
        return repr(self)

    def __copy__(self):
        return self

    def __deepcopy__(self, memo):
        return self


class SymBool(Sym):
    __slots__ = ()

    def __bool__(self):
        return E().fork(self.expr)

    def __eq__(self, o):
        if isinstance(o, (bool, SymBool)):
            return SymBool(self.expr == z(o))
        return False

    def __ne__(self, o):
        r = self.__eq__(o)
        return SymBool(z3.Not(r.expr)) if isinstance(r, SymBool) else True

    __hash__ = Sym.__hash__

    def __and__(self, o):
        return SymBool(z3.And(self.expr, z(o)))

    __rand__ = __and__

    def __or__(self, o):
        return SymBool(z3.Or(self.expr, z(o)))

    __ror__ = __or__

    def __invert__(self):
        raise Unsupported("~bool")

    # bool arithmetic
    def _int(self):
        return SymInt(z3.If(self.expr, z3.IntVal(1), z3.IntVal(0)))

    def __add__(self, o):
        return self._int() + o

    __radd__ = __add__


def _num(o):
    return isinstance(o, (SymInt, SymReal, int, float, Fraction, SymBool))


def _isreal(o):
    return isinstance(o, (SymReal, float, Fraction))


def _zn(o, real):
    if isinstance(o, SymBool):
        o = o._int()
    e = z(o) if not isinstance(o, bool) else z3.IntVal(int(o))
    if real and e.sort() == z3.IntSort():
        e = z3.ToReal(e)
    return e


class SymNum(Sym):
    __slots__ = ()

    def _bin(self, o, f, swap=False):
        if not _num(o):
            return NotImplemented
        real = _isreal(self) or _isreal(o)
        if isinstance(o, float) and o in (float("inf"), float("-inf")):
            raise Unsupported("infinite float")
        a, b = _zn(self, real), _zn(o, real)
        if swap:
            a, b = b, a
        return (SymReal if real else SymInt)(z3.simplify(f(a, b)))

    def _conv(self, o):
        """A Python int beyond the float range raises OverflowError when mixed with a float."""
        for a, b in ((self, o), (o, self)):
            if _isreal(a) and isinstance(b, SymInt) and getattr(b, "big", False):
                if E().fork(z3.Or(b.expr >= FLOAT_LIMIT, b.expr <= -FLOAT_LIMIT)):
                    raise OverflowError("int too large to convert to float")

    def __add__(self, o):
        self._conv(o)
        return self._bin(o, lambda a, b: a + b)

    def __radd__(self, o):
        self._conv(o)
        return self._bin(o, lambda a, b: a + b, True)

    def __sub__(self, o):
        self._conv(o)
        return self._bin(o, lambda a, b: a - b)

    def __rsub__(self, o):
        self._conv(o)
        return self._bin(o, lambda a, b: a - b, True)

    def __mul__(self, o):
        self._conv(o)
        r = self._bin(o, lambda a, b: a * b)
        if isinstance(r, SymInt) and (getattr(self, "big", False) or getattr(o, "big", False)):
            r = BigInt(r.expr)
        return r

    def __rmul__(self, o):
        self._conv(o)
        r = self._bin(o, lambda a, b: a * b, True)
        if isinstance(r, SymInt) and (getattr(self, "big", False) or getattr(o, "big", False)):
            r = BigInt(r.expr)
        return r

    def __truediv__(self, o):
        if not _num(o):
            return NotImplemented
        a, b = _zn(self, True), _zn(o, True)
        if E().fork(b == 0):
            raise ZeroDivisionError("division by zero")
        return SymReal(a / b)

    def __rtruediv__(self, o):
        if not _num(o):
            return NotImplemented
        a, b = _zn(o, True), _zn(self, True)
        if E().fork(b == 0):
            raise ZeroDivisionError("division by zero")
        return SymReal(a / b)

    def __floordiv__(self, o):
        raise Unsupported("//")

    def __mod__(self, o):
        raise Unsupported("%")

    def __neg__(self):
        return type(self)(z3.simplify(-self.expr))

    def __pos__(self):
        return self

    def __abs__(self):
        return type(self)(z3.If(self.expr >= 0, self.expr, -self.expr))

    def __pow__(self, o):
        raise Unsupported("symbolic base of **")

    def __rpow__(self, base):
        if isinstance(self, SymInt) and isinstance(base, int) and base == 2:
            return E().pow2(self)
        if isinstance(self, SymInt) and isinstance(base, float) and base == 2.0:
            p = E().pow2(self)
            if E().fork(p.expr >= FLOAT_LIMIT):
                raise OverflowError("(34, 'Numerical result out of range')")
            return SymReal(z3.ToReal(p.expr))
        raise Unsupported("** with a symbolic exponent")

    def __rlshift__(self, base):
        if isinstance(self, SymInt) and isinstance(base, int):
            r = E().pow2(self)
            return r if base == 1 else r * base
        raise Unsupported("<<")

    def _cmp(self, o, f):
        if o is None or not _num(o):
            return NotImplemented
        if isinstance(o, float) and o == float("inf"):
            return bool(f(0, 1))
        if isinstance(o, float) and o == float("-inf"):
            return bool(f(0, -1))
        real = _isreal(self) or _isreal(o)
        return SymBool(z3.simplify(f(_zn(self, real), _zn(o, real))))

    def __lt__(self, o):
        return self._cmp(o, lambda a, b: a < b)

    def __le__(self, o):
        return self._cmp(o, lambda a, b: a <= b)

    def __gt__(self, o):
        return self._cmp(o, lambda a, b: a > b)

    def __ge__(self, o):
        return self._cmp(o, lambda a, b: a >= b)

    def __eq__(self, o):
        r = self._cmp(o, lambda a, b: a == b)
        return False if r is NotImplemented else r

    def __ne__(self, o):
        r = self._cmp(o, lambda a, b: a != b)
        return True if r is NotImplemented else r

    __hash__ = Sym.__hash__

    def __bool__(self):
        return E().fork(self.expr != 0)

    def __index__(self):
        raise Unsupported("symbolic number used as an index")

    def __int__(self):
        raise Unsupported("int() of a symbolic number")

    def __float__(self):
        raise Unsupported("float() of a symbolic number")


class SymInt(SymNum):
    __slots__ = ()
    big = False


class BigInt(SymInt):
    """An unbounded Python int that may exceed the float range."""
    __slots__ = ()
    big = True


class SymReal(SymNum):
    __slots__ = ()


FLOAT_LIMIT = z3.IntVal(2 ** 1024)


_STR = z3.StringSort()
BEFORE, AFTER, RBEFORE, RAFTER = (z3.Function(n, _STR, _STR, _STR) for n in ("before", "after", "rbefore", "rafter"))


def halves(s, sep):
    """What is before and after the first `sep` in s (one character, which s contains)."""
    a, b = BEFORE(s, sep), AFTER(s, sep)
    E().assume(z3.And(s == z3.Concat(a, sep, b), z3.Not(z3.Contains(a, sep))))
    return a, b


def rhalves(s, sep):
    """What is before and after the last `sep` in s; with only one in s, the same as the first."""
    a, b = RBEFORE(s, sep), RAFTER(s, sep)
    E().assume(z3.And(s == z3.Concat(a, sep, b), z3.Not(z3.Contains(b, sep))))
    c, d = halves(s, sep)
    E().assume(z3.Implies(z3.Not(z3.Contains(d, sep)), z3.And(a == c, b == d)))
    return a, b


class SymStr(Sym):
    """z3 string."""
    __slots__ = ()

    def __eq__(self, o):
        if isinstance(o, (str, SymStr)):
            return SymBool(self.expr == zs(o))
        return False

    def __ne__(self, o):
        if isinstance(o, (str, SymStr)):
            return SymBool(self.expr != zs(o))
        return True

    __hash__ = Sym.__hash__

    def __bool__(self):
        return E().fork(z3.Length(self.expr) > 0)

    def __add__(self, o):
        if not isinstance(o, (str, SymStr)):
            return NotImplemented
        return SymStr(z3.Concat(self.expr, zs(o)))

    def __radd__(self, o):
        if not isinstance(o, (str, SymStr)):
            return NotImplemented
        return SymStr(z3.Concat(zs(o), self.expr))

    def __contains__(self, o):
        return SymBool(z3.Contains(self.expr, zs(o)))

    def startswith(self, o):
        return SymBool(z3.PrefixOf(zs(o), self.expr))

    def endswith(self, o):
        return SymBool(z3.SuffixOf(zs(o), self.expr))

    def _find(self, sep):
        return z3.IndexOf(self.expr, zs(sep), z3.IntVal(0))

    def find(self, sep):
        return SymInt(self._find(sep))

    def count(self, sep):
        """0, 1 or 'more', forked."""
        return self._parts(sep, 2)[1]

    def _parts(self, sep, limit):
        """Split at most `limit` occurrences off the left, forking on their existence."""
        parts, rest, n = [], self.expr, 0
        seplen = z3.Length(zs(sep))
        while n < limit:
            if not E().fork(z3.Contains(rest, zs(sep))):
                break
            a, b = halves(rest, zs(sep))
            parts.append(SymStr(a))
            rest = b
            n += 1
        return parts + [SymStr(rest)], n

    def split(self, sep=None, maxsplit=-1):
        if sep is None or len(sep) != 1:
            raise Unsupported("split")
        limit = maxsplit if maxsplit >= 0 else 3
        parts, n = self._parts(sep, limit)
        if maxsplit < 0 and n >= 3:
            # more than enough parts for any fixed-size unpacking; the tail stays unsplit
            return TooMany(parts)
        from . import containers
        return containers.MList(parts)

    def partition(self, sep):
        parts, n = self._parts(sep, 1)
        return (parts[0], sep, parts[1]) if n else (self, "", "")

    def rpartition(self, sep):
        if not E().fork(z3.Contains(self.expr, zs(sep))):
            return ("", "", self)
        if len(sep) != 1:
            raise Unsupported("rpartition")
        a, b = rhalves(self.expr, zs(sep))
        return (SymStr(a), sep, SymStr(b))

    def _uf(self, name, *args):
        """A string method the verifier knows nothing about but that it is a function."""
        f = z3.Function("str." + name + "(" + ",".join(map(repr, args)) + ")", z3.StringSort(), z3.StringSort())
        if any(isinstance(a, Sym) for a in args):
            raise Unsupported(f"str.{name}")
        return SymStr(f(self.expr))

    def lower(self):
        return self._uf("lower")

    def upper(self):
        return self._uf("upper")

    def casefold(self):
        return self._uf("casefold")

    def capitalize(self):
        return self._uf("capitalize")

    def title(self):
        return self._uf("title")

    def strip(self, *a):
        return self._uf("strip", *a)

    def lstrip(self, *a):
        return self._uf("lstrip", *a)

    def rstrip(self, *a):
        return self._uf("rstrip", *a)

    def replace(self, *a):
        return self._uf("replace", *a)

    def removeprefix(self, p):
        n = z3.Length(zs(p))
        return SymStr(z3.If(z3.PrefixOf(zs(p), self.expr), z3.SubString(self.expr, n, z3.Length(self.expr) - n), self.expr))

    def removesuffix(self, p):
        n = z3.Length(zs(p))
        return SymStr(z3.If(z3.SuffixOf(zs(p), self.expr), z3.SubString(self.expr, 0, z3.Length(self.expr) - n), self.expr))

    def __len__(self):
        raise Unsupported("len of symbolic string outside the model builtins")

    def __str__(self):
        return "<SymStr>"


class SymStrSub(SymStr):
    """An instance of a str subclass; pv_cls is that class."""
    __slots__ = ("pv_cls",)

    def __init__(self, expr, cls):
        super().__init__(expr)
        self.pv_cls = cls


class TooMany:
    def __init__(self, parts):
        self.parts = parts

    def __iter__(self):
        return iter(self.parts)

    def __getitem__(self, i):
        if isinstance(i, int) and 0 <= i < 3:
            return self.parts[i]
        raise Unsupported("index into long split")


def zs(x):
    if isinstance(x, SymStr):
        return x.expr
    if isinstance(x, str):
        return z3.StringVal(x)
    raise Unsupported("not a string")


class SymVal(Sym):
    """An opaque Python value: an object the code only passes on, compares, or looks attributes up in."""
    __slots__ = ()

    def __eq__(self, o):
        c = E().eq_v(self, o)
        if c is None:
            return NotImplemented
        return SymBool(c)

    def __ne__(self, o):
        c = E().eq_v(self, o)
        if c is None:
            return NotImplemented
        return SymBool(z3.Not(c))

    __hash__ = Sym.__hash__

    def __bool__(self):
        return E().fork(z3.And(self.expr != NONE, z3.Or(V.is_rec(self.expr), TRUTHY(self.expr))))

    def __getattr__(self, name):
        if name.startswith("__"):
            raise AttributeError(name)
        return E().getattr_v(self, name)

    def __setattr__(self, name, value):
        if name == "expr":
            object.__setattr__(self, name, value)
        else:
            E().setattr_v(self, name, value)

    def __getitem__(self, k):
        return E().getitem_v(self, k)

    def __setitem__(self, k, v):
        return E().setitem_v(self, k, v)

    def __contains__(self, k):
        return E().contains_v(self, k)

    def get(self, k, default=None):
        """dict.get on an opaque mapping (or what the contract says .get is)."""
        h = E().hooks.get("get")
        if h is not None:
            r = h(self, k, default)
            if r is not NotImplemented:
                return r
        return E().get_v(self, k, default)

    def __call__(self, *a, **kw):
        E().alive()
        h = E().hooks.get("call")
        if h is not None:
            r = h(self, *a, **kw)
            if r is not NotImplemented:
                return r
        raise Unsupported("call of an opaque value")

    def __iter__(self):
        raise Unsupported("iteration over an opaque value")


class StarSeq:
    """Stands for the elements of a sequence of unknown length among the arguments of a call."""
    _pv_model = True

    def __init__(self, seq):
        object.__setattr__(self, "_pv_seq", seq)

    def _no(self, *a, **kw):
        raise Unsupported("an argument list of unknown length")

    def __getattr__(self, name):
        raise Unsupported("an argument list of unknown length")

    __setattr__ = __iter__ = __len__ = __bool__ = __eq__ = __ne__ = __call__ = __getitem__ = __contains__ = __await__ = _no
    __lt__ = __le__ = __gt__ = __ge__ = __add__ = __radd__ = __hash__ = _no


class Obligation:
    __slots__ = ("name", "status", "where", "model", "reason", "secs", "backend", "path")

    def __init__(self, name, status, where="", model=None, reason="", secs=0.0, backend="z3", path=()):
        self.name, self.status, self.where = name, status, where
        self.model, self.reason, self.secs, self.backend, self.path = model, reason, secs, backend, path


_INT, _BOOL = z3.IntSort(), z3.BoolSort()
HEAP_SORTS = {
    "lo": z3.ArraySort(V, _INT), "hi": z3.ArraySort(V, _INT), "el": z3.ArraySort(V, z3.ArraySort(_INT, V)),
    "has": z3.ArraySort(V, z3.ArraySort(V, _BOOL)), "val": z3.ArraySort(V, z3.ArraySort(V, V)),
    "size": z3.ArraySort(V, _INT),
    "ord": z3.ArraySort(V, z3.ArraySort(V, _INT)), "top": z3.ArraySort(V, _INT),     # insertion order of dicts
}
ATTR_SORT = z3.ArraySort(V, V)
HASATTR_SORT = z3.ArraySort(V, _BOOL)


def heap_sort(name):
    if name in HEAP_SORTS:
        return HEAP_SORTS[name]
    return HASATTR_SORT if name.startswith("?") else ATTR_SORT


class Heap(dict):
    """name -> z3 array; 'a:NAME' is the attribute NAME, '?a:NAME' whether it exists."""

    def __missing__(self, name):
        c = z3.Const(f"H0[{name}]", heap_sort(name))
        self[name] = c
        return c

    def read(self, name, ref):
        return z3.simplify(z3.Select(self[name], ref))

    def write(self, name, ref, value):
        self[name] = z3.simplify(z3.Store(self[name], ref, value))

    def snap(self):
        return Heap(self)


class Engine:
    def __init__(self, name, timeout_ms=8000, max_paths=6000, deadline=None, second=False, max_fail=6, focus=None, patience=1):
        self.name = name
        self.patience = patience    # more than 1 on a second attempt at a contract that was left unproved
        self.timeout_ms = timeout_ms
        self.max_paths = max_paths
        self.deadline = deadline
        self.max_fail = max_fail
        self.focus = focus
        self.obligations = []
        self.loop_writes = {}       # loop key -> set of written heap locations
        self.loop_shapes = {}       # (loop key, local name) -> list of shapes
        self.loops_seen = {}
        self.paths = 0
        self.complete_paths = 0
        self.functions = {}         # qualname -> times entered
        self.solver_time = 0.0
        self.solver_calls = 0
        self.feas_time, self.feas_calls = 0.0, 0
        self.covers = {}
        self.want_covers = set()
        self.second = second
        self.assumed = set()
        self.weak_loops = set()
        self.constructs = set()     # kinds of comprehensions met, see contracts/constructs.json
        self.tag = ""
        self.discovering = self.grown = False

    # ------------------------------------------------------------ exploration
    def explore(self, body):
        global ENGINE
        prev, ENGINE = ENGINE, self
        try:
            n = 0
            while True:
                try:
                    self._explore_once(body)
                    break
                except Restart:
                    # learn what the loops write before proving anything
                    while True:
                        n += 1
                        if n > 60:
                            raise Unsupported("loop write sets do not stabilise")
                        self.discovering, self.grown = True, False
                        try:
                            self._explore_once(body)
                        finally:
                            self.discovering = False
                        if not self.grown:
                            break
        finally:
            ENGINE = prev
        return self.obligations

    def _explore_once(self, body):
        self.obligations = []
        self.paths = self.complete_paths = 0
        self.worklist = [[]]
        self.covers = {}
        failed = 0
        while self.worklist:
            prefix = self.worklist.pop()
            if self.paths >= self.max_paths:
                raise Unsupported(f"more than {self.max_paths} paths")
            if self.deadline and time.time() > self.deadline:
                raise Unsupported("out of time")
            self.paths += 1
            self._start_path(prefix)
            try:
                body(self)
                self.complete_paths += 1
            except PathEnd:
                pass
            except Restart:
                if not self.discovering:
                    raise
                self.grown = True
            except Unsupported:
                if not self.discovering:
                    raise
            finally:
                self.dead = True
            if self._enough():
                break

    def _enough(self):
        """Stop exploring: enough failures of the property in question, or of anything."""
        bad = [o for o in self.obligations if o.status != "proved"]
        mine = [o for o in bad if self.focus is None or "|" not in o.name or self.focus in o.name.split("|")[0]]
        return len(mine) >= self.max_fail or len(bad) >= 5 * self.max_fail or \
            sum(1 for o in bad if o.status == "unproved") >= self.max_fail

    def _start_path(self, prefix):
        self.prefix = prefix
        self.trace = []
        self.facts = []
        self.solver = z3.SimpleSolver()
        self.solver.set("mbqi", False)
        self.dead = False
        self.fresh_n = {}
        self.lits = {}              # python key -> literal number
        self.lit_objs = {0: None}
        self.lit_truthy = set()
        self.handles = {}           # ref expr id -> handle
        self.known_cls = {}
        self._keep = []
        self.heap = Heap()
        self.next_gen = 1
        self.ghost = {}
        self.on_suspend = None
        self.on_loop = None
        self.loop_specs = []
        self.loop_stack = []
        self.loop_count = {}
        self.pure = 0
        self.cancel_enabled = False
        self.locks_held = []
        self.tasks = []
        self.moments = 0            # how often control was given up
        self.hooks = {}
        self.obj_eq = False         # == of opaque values is an arbitrary relation that contains identity
        self.ordered = False        # track the insertion order of dicts
        self.use_cvc5 = False       # let cvc5 try what z3 cannot decide (strings)
        self.stubs = {}
        self.pow2_done = set()
        self.serials = {}
        self.force_cancel = False
        self.forced = 0
        self.cancelled = False
        self.default_inv = None
        self.unroll_while = 0
        self.log = []               # ghost trace of calls to stubs
        self.call_log = []          # calls made through contract hooks (also from comprehensions)

    # ------------------------------------------------------------ facts
    def alive(self):
        if self.dead:
            raise PathEnd

    @property
    def replaying(self):
        return len(self.trace) < len(self.prefix)

    def assume(self, fact):
        self.alive()
        fact = zbool(fact)
        if z3.is_true(fact):
            return
        self.facts.append(fact)
        self.solver.add(fact)

    def _query(self, extra, timeout):
        t = time.time()
        self.solver.push()
        self.solver.add(extra)
        self.solver.set("timeout", timeout)
        try:
            r = self.solver.check()
            m = self.solver.model() if r == z3.sat else None
            reason = self.solver.reason_unknown() if r == z3.unknown else ""
        except z3.Z3Exception as e:
            r, m, reason = z3.unknown, None, str(e)
        self.solver.pop()
        self.solver_time += time.time() - t
        self.solver_calls += 1
        return r, m, reason

    def feasible(self, cond=True, timeout=60):
        t = time.time()
        r = self._query(zbool(cond), (min(timeout, 12) if self.discovering else timeout) * self.patience)[0]
        self.feas_time += time.time() - t
        self.feas_calls += 1
        return r != z3.unsat

    def valid(self, cond, timeout=1000):
        return self._query(z3.Not(zbool(cond)), timeout)[0] == z3.unsat

    def end_path(self):
        self.dead = True
        raise PathEnd

    def fork(self, cond):
        self.alive()
        cond = zbool(cond)
        s = z3.simplify(cond)
        if z3.is_true(s):
            return True
        if z3.is_false(s):
            return False
        i = len(self.trace)
        if i < len(self.prefix):
            d = self.prefix[i]
        else:
            t = self.feasible(cond)
            f = self.feasible(z3.Not(cond)) if t else True
            if t and f:
                self.worklist.append(self.trace + [False])
            d = t
        self.trace.append(d)
        self.assume(cond if d else z3.Not(cond))
        return d

    def choose(self, n):
        """Nondeterministic choice 0..n-1."""
        self.alive()
        if n <= 1:
            return 0
        i = len(self.trace)
        if i < len(self.prefix):
            d = self.prefix[i]
        else:
            d = 0
            for k in range(n - 1, 0, -1):
                self.worklist.append(self.trace + [k])
        self.trace.append(d)
        return d

    # ------------------------------------------------------------ obligations
    def check(self, name, goal, where=""):
        """Proof obligation: the current path implies goal (conjunctions are split)."""
        self.alive()
        goal = zbool(goal)
        if z3.is_and(goal):
            ok = True
            for g in goal.children():
                ok = self.check(name, g, where) and ok
            return ok
        if self.replaying or self.discovering:       # discharged on the path this one branched off
            self.assume(goal)
            return True
        t = time.time()
        model = reason = None
        backend = "z3"
        if z3.is_true(z3.simplify(goal)):
            status, backend = "proved", "simplifier"
        else:
            r, m, reason = self._query(z3.Not(goal), 1500 if self.use_cvc5 else self.timeout_ms)
            if r == z3.unknown and self.use_cvc5:
                from . import cvc5_backend
                if cvc5_backend.solve(self.facts, goal, self.timeout_ms) == "unsat":
                    r, backend = z3.unsat, "cvc5"
            if r == z3.unknown:
                r, backend, m = self.retry(goal, r, backend, m)
            if r == z3.unsat:
                status = "proved"
                if self.second and backend == "z3":
                    from . import cvc5_backend
                    backend = "z3+" + cvc5_backend.check(self.facts, goal)
            else:
                status = "refuted" if r == z3.sat else "unproved"
                model = str(m)[:1500] if m is not None else None
        ob = Obligation(name, status, where, model, reason or "", time.time() - t, backend, tuple(self.trace))
        self.obligations.append(ob)
        if os.environ.get("PYDV_TRACE"):
            print(("ok  " if status == "proved" else "FAIL"), name, where, f"{ob.secs:.2f}", flush=True)
            if status != "proved" and os.environ.get("PYDV_DUMP"):
                with open(os.environ["PYDV_DUMP"], "w") as fh:
                    s = z3.SimpleSolver()
                    s.add(*self.facts)
                    s.add(z3.Not(goal))
                    fh.write("; " + name + "\n" + s.to_smt2())
                print("GOAL", goal)
        self.facts.append(goal)
        self.solver.add(goal)
        return status == "proved"

    def retry(self, goal, r, backend, m):
        """z3 gave up: fresh solvers with other seeds and more time, so that an obligation does not fail by bad luck."""
        for seed, factor in ((7, 1), (23, 2)):
            if self.deadline and time.time() > self.deadline:
                break
            if sum(1 for o in self.obligations if o.status != "proved") >= 2:
                break
            t = time.time()
            s = z3.Solver()
            s.set("timeout", int(self.timeout_ms * factor))
            s.set("random_seed", seed)
            s.add(*self.facts)
            s.add(z3.Not(goal))
            try:
                r = s.check()
            except z3.Z3Exception:
                r = z3.unknown
            self.solver_time += time.time() - t
            self.solver_calls += 1
            if r == z3.unsat:
                return r, backend, None
            if r == z3.sat:
                return r, backend, s.model()
        return z3.unknown, backend, m

    def cover(self, name):
        """A point that must be reachable on some path (vacuity guard)."""
        self.want_covers.add(name)
        if self.replaying or self.discovering or self.covers.get(name):
            return
        if self.feasible(True, 3000):
            self.covers[name] = self.covers.get(name, 0) + 1

    def fail(self, name, where=""):
        self.check(name, z3.BoolVal(False), where)

    # ------------------------------------------------------------ fresh symbols
    def fresh(self, base, sort):
        n = self.fresh_n.get(base, 0)
        self.fresh_n[base] = n + 1
        return z3.Const(f"{base}!{n}", sort)

    def val(self, base="v"):
        return SymVal(self.fresh(base, V))

    def int(self, base="n"):
        return SymInt(self.fresh(base, z3.IntSort()))

    def real(self, base="r"):
        return SymReal(self.fresh(base, z3.RealSort()))

    def bool(self, base="b"):
        return SymBool(self.fresh(base, z3.BoolSort()))

    def str(self, base="s"):
        return SymStr(self.fresh(base, z3.StringSort()))

    def caller_val(self, base="obj", not_none=False):
        """A value supplied by the caller: not one of the verifier's own heap objects."""
        v = self.val(base)
        self.assume(z3.Implies(V.is_ref(v.expr), V.gen(v.expr) < self.next_gen))
        if not_none:
            self.assume(v.expr != NONE)
        return v

    # ------------------------------------------------------------ V encoding
    def lit(self, key, obj, truthy):
        n = self.lits.get(key)
        if n is None:
            n = self.lits[key] = len(self.lits) + 1
            self.lit_objs[n] = obj
            self.assume(TRUTHY(V.lit(z3.IntVal(n))) == z3.BoolVal(bool(truthy)))
        return V.lit(z3.IntVal(n))

    def enc(self, x):
        """Python value -> z3 V."""
        self.alive()
        if x is None:
            return NONE
        if type(x) is StarSeq:
            raise Unsupported("an argument list of unknown length")
        r = getattr(x, "_pv_ref", None) if not isinstance(x, Sym) else None
        if r is not None and not isinstance(x, type):
            return r
        if isinstance(x, SymVal):
            return x.expr
        if isinstance(x, bool):
            return self.lit(("bool", x), x, x)
        if isinstance(x, SymBool):
            return z3.If(x.expr, self.enc(True), self.enc(False))
        if isinstance(x, SymInt):
            return V.int_(x.expr)
        if isinstance(x, int):
            return V.int_(z3.IntVal(x))
        if isinstance(x, SymReal):
            return V.real_(x.expr)
        if isinstance(x, float):
            if x in (float("inf"), float("-inf")) or x != x:
                return self.lit(("float", str(x)), x, True)
            return V.real_(z(x))
        if isinstance(x, str):
            return self.lit((type(x).__qualname__, str(x)), x, len(x) > 0)
        if isinstance(x, SymStr):
            e = STR2V(x.expr)
            self.assume(z3.And(V2STR(e) == x.expr, V.is_opq(e)))
            return e
        if isinstance(x, tuple):
            if len(x) > 4:
                raise Unsupported("tuple of more than 4 fields as a value")
            args = [self.enc(a) for a in x] + [NONE] * (4 - len(x))
            return V.rec(z3.IntVal(tag_of(type(x), len(x))), *args)
        return self.lit(("obj", id(x)), x, truthy_of(x))

    def dec(self, expr, shape=None):
        """z3 V -> Python value, guided by what the term is, else by the shape."""
        e = z3.simplify(expr)
        if e.num_args() <= 5 and z3.is_app(e):
            d = e.decl()
            if d.eq(V.lit) and z3.is_int_value(e.arg(0)):
                return self.lit_objs[e.arg(0).as_long()]
            if d.eq(V.int_):
                a = e.arg(0)
                return a.as_long() if z3.is_int_value(a) else SymInt(a)
            if d.eq(V.real_):
                return SymReal(e.arg(0))
            if d.eq(V.rec) and z3.is_int_value(e.arg(0)):
                cls, n = TAGS[e.arg(0).as_long()]
                sh = shape[2] if shape and shape[0] == "rec" and len(shape[2]) == n else [None] * n
                return mk_tuple(cls, [self.dec(e.arg(i + 1), sh[i]) for i in range(n)])
            if d.eq(V.ref):
                h = self.handles.get(e.get_id())
                if h is not None:
                    return h
            if d.name() == "str2v":
                return SymStr(e.arg(0))
        if shape is None or shape == "val":
            return SymVal(e)
        return self.dec_shape(e, shape)

    def dec_shape(self, e, shape):
        if shape == "int":
            return SymInt(z3.simplify(V.ival(e)))
        if shape == "real":
            return SymReal(z3.simplify(V.rval(e)))
        if shape == "bool":
            return SymBool(e == self.enc(True))
        kind = shape[0]
        if kind == "opt":
            if self.fork(e == NONE):
                return None
            return self.dec(e, shape[1])
        if kind == "rec":
            cls, fs = shape[1], shape[2]
            return mk_tuple(cls, [self.dec(FIELDS[i](e), fs[i]) for i in range(len(fs))])
        if kind in ("list", "dict", "set", "obj"):
            self.assume(z3.And(V.is_ref(e), V.gen(e) < self.next_gen))
            return self.handle(e, shape)
        if kind == "fn":
            return shape[1](self, e)
        raise Unsupported(f"shape {shape}")

    def handle(self, e, shape):
        from . import containers
        h = self.handles.get(e.get_id())
        if h is not None:
            return h
        h = containers.handle_for(e, shape)
        self.handles[e.get_id()] = h
        self._keep.append(e)
        return h

    def new_ref(self):
        r = V.ref(z3.IntVal(self.next_gen), z3.IntVal(0))
        self.next_gen += 1
        return r

    def register(self, ref, handle):
        self.handles[ref.get_id()] = handle
        self._keep.append(ref)

    # ------------------------------------------------------------ equality, truth, class of opaque values
    def eq_v(self, a, b):
        if self.obj_eq and isinstance(a, SymVal) and isinstance(b, SymVal):
            return z3.Or(a.expr == b.expr, OBJ_EQ(a.expr, b.expr))
        if isinstance(b, (SymVal, type(None), bool, int, float, str, SymInt, SymReal, SymStr, SymBool, tuple)):
            return self.enc(a) == self.enc(b)
        return self.enc(a) == self.enc(b)

    def isinstance_v(self, v, cls):
        known = self.known_cls.setdefault(v.expr.get_id(), [])
        self._keep.append(v.expr)
        for c, pos in known:
            if pos and issubclass(c, cls):
                return True
            if pos and not issubclass(cls, c):
                return False
            if not pos and issubclass(cls, c):
                return False
        if cls is type(None):
            return self.fork(v.expr == NONE)
        if issubclass(cls, tuple) and hasattr(cls, "_fields"):
            p = z3.And(V.is_rec(v.expr), V.tag(v.expr) == tag_of(cls, len(cls._fields)))
        else:
            p = z3.And(inst_pred(cls)(v.expr), v.expr != NONE, z3.Not(V.is_rec(v.expr)))
        r = self.fork(p)
        known.append((cls, r))
        return r

    def _record(self, v):
        for c, pos in self.known_cls.get(v.expr.get_id(), []):
            if pos and issubclass(c, tuple) and hasattr(c, "_fields"):
                return c
        return None

    # ------------------------------------------------------------ attributes and items of opaque values
    def _slot_read(self, v, name, exc):
        h = self.heap
        if not self.fork(h.read("?a:" + name, v.expr)):
            raise exc
        return self.dec(h.read("a:" + name, v.expr), self.hooks.get("shape:" + name))

    def getattr_v(self, v, name):
        self.alive()
        rec = self._record(v)
        if rec is not None and name in rec._fields:
            return self.dec(FIELDS[rec._fields.index(name)](v.expr))
        h = self.hooks.get("getattr")
        if h is not None:
            r = h(v, name)
            if r is not NotImplemented:
                return r
        return self._slot_read(v, name, AttributeError(name))

    def setattr_v(self, v, name, value):
        self.alive()
        self.log_write("a:" + name, v.expr)
        self.heap.write("a:" + name, v.expr, self.enc(value))
        self.heap.write("?a:" + name, v.expr, z3.BoolVal(True))

    def _itemname(self, k):
        if not isinstance(k, (str, int)):
            raise Unsupported("symbolic key into an opaque value")
        return f"[{k}]"

    def getitem_v(self, v, k):
        self.alive()
        rec = self._record(v)
        if rec is not None and isinstance(k, int):
            return self.dec(FIELDS[k](v.expr))
        h = self.hooks.get("getitem")
        if h is not None:
            r = h(v, k)
            if r is not NotImplemented:
                return r
        return self._slot_read(v, self._itemname(k), KeyError(k))

    def setitem_v(self, v, k, val):
        self.setattr_v(v, self._itemname(k), val)

    def contains_v(self, v, k):
        return self.fork(self.heap.read("?a:" + self._itemname(k), v.expr))

    def get_v(self, v, k, default):
        h = self.hooks.get("getitem")
        if h is not None:
            r = h(v, k)
            if r is not NotImplemented:
                return r
        if not self.contains_v(v, k):
            return default
        return self.dec(self.heap.read("a:" + self._itemname(k), v.expr), self.hooks.get(f"shape:[{k}]"))

    # ------------------------------------------------------------ write log (for loop frames)
    def serial(self, obj):
        n = vars(obj).get("_pv_serial")
        if n is None or self.serials.get(n) is not obj:
            n = len(self.serials) + 1
            object.__setattr__(obj, "_pv_serial", n)
            self.serials[n] = obj
        return n

    def havoc_container(self, h):
        """Arbitrary new content of a model container (interference of other tasks)."""
        from . import containers
        r = h._pv_ref
        names = ("lo", "hi", "el") if isinstance(h, containers.MList) else (
            ("has", "val", "size") if isinstance(h, containers.MDict) else ("has", "size"))
        if self.ordered and isinstance(h, containers.MDict):
            names += ("ord", "top")
        for n in names:
            self.log_write(n, r)
            self.heap.write(n, r, self.fresh("sh_" + n, self.heap[n].sort().range()))
        if isinstance(h, containers.MList):
            self.assume(h.lo <= h.hi)
        else:
            self.assume(h.zsize >= 0)
            if self.ordered and isinstance(h, containers.MDict):
                self.assume(h.order_fact())

    def havoc_symbolic(self, names=("has", "val", "size")):
        """Arbitrary new content of every container that was not allocated on this path."""
        for name in names:
            arr = self.heap[name]
            new = self.fresh("hvs_" + name, arr.sort())
            for g in range(1, self.next_gen):
                r = V.ref(z3.IntVal(g), z3.IntVal(0))
                new = z3.Store(new, r, z3.Select(arr, r))
            for fr in self.loop_stack:
                fr.note_write((name, None))
            self.heap[name] = z3.simplify(new)
        if "size" in names:
            self.card_facts()

    def card_facts(self):
        """The size of every dict and set agrees with its membership."""
        from .containers import name_array
        has, size = name_array(self.heap["has"]), name_array(self.heap["size"])
        s, k = z3.Const("s!cf", V), z3.Const("k!cf", V)
        self.assume(z3.ForAll([s, k], z3.Implies(z3.Select(z3.Select(has, s), k), z3.Select(size, s) >= 1),
                              patterns=[z3.Select(z3.Select(has, s), k)]))
        self.assume(z3.ForAll([s], z3.And(z3.Select(size, s) >= 0, z3.Implies(
            z3.Select(size, s) >= 1, z3.Select(z3.Select(has, s), MEMBER(z3.Select(has, s))))),
            patterns=[z3.Select(size, s)]))

    def log_write(self, name, ref, obj=None):
        if self.pure:
            raise Unsupported("side effect in a pure context")
        if name == "py":
            loc = ("py", self.serial(obj), ref)
        else:
            r = z3.simplify(ref)
            const = z3.is_app(r) and r.decl().eq(V.ref) and z3.is_int_value(r.arg(0)) and z3.is_int_value(r.arg(1))
            if const:
                loc = (name, (r.arg(0).as_long(), r.arg(1).as_long()))
            else:
                loc = (name, None)
        for fr in self.loop_stack:
            fr.note_write(loc)

    # ------------------------------------------------------------ powers of two
    def pow2(self, n):
        """2**n for n >= 0, by axioms instantiated at the exponents that occur."""
        if isinstance(n, int):
            return 2 ** n
        e = z3.simplify(n.expr)
        if z3.is_int_value(e):
            return 2 ** e.as_long()
        if self.fork(e < 0):
            raise Unsupported("negative exponent")
        self.pow2_axioms(e)
        return BigInt(POW2(e))

    def pow2_axioms(self, e):
        self.assume(POW2(e) >= 1)
        self.assume(POW2(e + 1) == 2 * POW2(e))
        self.assume(z3.Implies(e == 0, POW2(e) == 1))
        self.assume(z3.Implies(e >= 1024, POW2(e) >= FLOAT_LIMIT))
        self.assume(z3.Implies(e < 1024, POW2(e) < FLOAT_LIMIT))

    # ------------------------------------------------------------ suspension
    def suspend(self, tag="await", prim=None):
        """The running coroutine gives up control here (or may do so)."""
        self.alive()
        if self.pure:
            raise Unsupported("await in a pure context")
        self.moments += 1
        if self.on_suspend is not None:
            self.on_suspend(tag, prim)
        if self.force_cancel and self.choose(2) == 1:
            import asyncio
            self.forced += 1
            raise asyncio.CancelledError
        if self.cancel_enabled and self.choose(2) == 1:
            import asyncio
            self.cancelled = True
            raise asyncio.CancelledError


def zbool(x):
    if isinstance(x, Sym):
        x = x.expr
    if isinstance(x, bool):
        return z3.BoolVal(x)
    if not z3.is_expr(x):
        raise Unsupported(f"not a formula: {x!r}")
    return x


def truthy_of(x):
    try:
        return True if isinstance(x, type) or callable(x) else bool(x)
    except TypeError:
        return True


TAGS = []
_TAG = {}


def tag_of(cls, n):
    key = (cls.__module__, cls.__qualname__, n)
    t = _TAG.get(key)
    if t is None:
        t = _TAG[key] = len(TAGS)
        TAGS.append((cls, n))
    else:
        TAGS[t] = (cls, n)
    return t


def mk_tuple(cls, vals):
    return cls(*vals) if hasattr(cls, "_fields") else tuple(vals)


TRUTHY = z3.Function("truthy", V, z3.BoolSort())
STR2V = z3.Function("str2v", z3.StringSort(), V)
V2STR = z3.Function("v2str", V, z3.StringSort())
MEMBER = z3.Function("member_of", z3.ArraySort(V, z3.BoolSort()), V)
OBJ_EQ = z3.Function("eq", V, V, z3.BoolSort())
POW2 = z3.Function("pow2", z3.IntSort(), z3.IntSort())
_INST = {}


def inst_pred(cls):
    key = f"{cls.__module__}.{cls.__qualname__}"
    if cls.__module__ == "pydv.containers" and cls.__name__ in ("MDict", "MList", "MSet"):
        key = "builtins." + cls.__name__[1:].lower()
    f = _INST.get(key)
    if f is None:
        f = _INST[key] = z3.Function(f"is<{key}>", V, z3.BoolSort())
    return f


class Poison:
    """A local variable whose value at this point of an arbitrary iteration is not tracked."""
    _pv_poison = True

    def _bad(self, *a, **k):
        raise Unsupported("use of a variable left over from an earlier iteration")

    __getattr__ = __bool__ = __eq__ = __ne__ = __call__ = __iter__ = __getitem__ = __await__ = _bad
    __len__ = __contains__ = __add__ = __sub__ = __lt__ = __gt__ = __le__ = __ge__ = _bad
    __hash__ = object.__hash__
