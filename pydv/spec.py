"""Contracts: registry, running code under contract, monitors (shared state between tasks), state snapshots."""
import inspect
import time

import z3

from . import aio, core, containers
from .containers import IV, MDict, MList, MSet, pyint, zint
from .core import E, NONE, SymBool, SymInt, SymReal, SymVal, Unsupported, V, zbool
from .loader import World
from .rt import LoopSpec  # noqa: F401

REGISTRY = {}


class Contract:
    def __init__(self, name, props, fn, functions, opts):
        self.name, self.props, self.fn, self.functions, self.opts = name, props, fn, functions, opts


def contract(name, props, functions=(), **opts):
    """Register a contract.  props: the properties it has obligations for; functions: code under contract."""
    def deco(fn):
        if name in REGISTRY:
            raise ValueError(f"two contracts named {name}")
        REGISTRY[name] = Contract(name, tuple(props.split()), fn, tuple(functions), opts)
        return fn
    return deco


_WORLD = []


def world():
    if not _WORLD:
        _WORLD.append(World())
    return _WORLD[0]


def mod(name):
    try:
        return world().load("aiok8s." + name)
    except ImportError as e:
        raise Unsupported(f"module {name}: {e}")


def need(obj, *names):
    """The contract talks about these members; if they are gone it cannot be applied."""
    for n in names:
        if not hasattr(obj, n):
            raise Unsupported(f"{getattr(obj, '__name__', type(obj).__name__)} has no {n}")


class Outcome:
    def __init__(self, value=None, exc=None):
        self.value, self.exc = value, exc

    @property
    def ok(self):
        return self.exc is None

    def cancelled(self):
        import asyncio
        return isinstance(self.exc, asyncio.CancelledError)


def run(f, *args, **kw):
    """Call code under contract; the outcome is a value or the exception it raised."""
    try:
        r = f(*args, **kw) if callable(f) else f
        if inspect.iscoroutine(r):
            r = aio.run_coro(r)
        return Outcome(r)
    except core.EngineSignal:
        raise
    except BaseException as e:
        E().alive()
        from .rt import model_error
        model_error(e)
        return Outcome(None, e)


def no_raise(out, name):
    """Obligation: the call did not raise (other than by cancellation)."""
    if out.exc is not None and not out.cancelled():
        E().check(f"{name}", z3.BoolVal(False), f"raised {type(out.exc).__name__}: {out.exc}")
        E().end_path()


def instance(obj, fields, optional=()):
    """The object has exactly the data the contract knows of (constructor run, nothing unknown in it)."""
    have = {k for k in vars(obj) if not k.startswith("_pv_")}
    missing = set(fields) - have
    unknown = have - set(fields) - set(optional)
    if missing or unknown:
        raise Unsupported(f"{type(obj).__name__}: fields missing {sorted(missing)}, unknown {sorted(unknown)}")
    E().ghost.setdefault("instances", []).append((obj, set(fields) | set(optional)))
    return obj


def _no_new_fields(eng):
    """State the contract does not know of may not appear later either."""
    for obj, fields in eng.ghost.get("instances", ()):
        new = {k for k in vars(obj) if not k.startswith("_pv_") and not hasattr(type(obj), k)} - fields
        if new:
            raise Unsupported(f"{type(obj).__name__}: unknown fields {sorted(new)} appear")


class Stub:
    """An object the code under contract is given; using it in a way the contract does not know makes the
    contract inapplicable (it does not make the code wrong)."""
    _pv_model = True

    def __new__(cls, *a, **kw):
        o = object.__new__(cls)
        E().serial(o)
        return o

    def __getattr__(self, name):
        if name.startswith("__") or name.startswith("_pv"):
            raise AttributeError(name)
        raise Unsupported(f"{type(self).__name__} of the contract has no {name}")


def bool_locals(ctx):
    """[(value at the loop head, value before the loop)] of the function's boolean variables."""
    out = []
    for n, pre in ctx.loop.pre_locals.items():
        if isinstance(pre, (bool, SymBool)):
            out.append((ctx.env(n), pre))
    return out


def follow(ctx, fact):
    """Invariant: each boolean variable that was False (True) before the loop says whether fact holds (does not)."""
    out = []
    for b, pre in bool_locals(ctx):
        if isinstance(pre, bool) and isinstance(b, (bool, SymBool)):
            t = z3.BoolVal(b) if isinstance(b, bool) else zbool(b)
            out.append(t == (z3.Not(fact) if pre else fact))
    return z3.And(out) if out else z3.BoolVal(True)


class patched:
    """Replace attributes of a module by the contracts of what they name, for one path."""

    def __init__(self, m, **kw):
        self.m, self.kw = m, kw

    def __enter__(self):
        need(self.m, *self.kw)
        self.old = {n: getattr(self.m, n) for n in self.kw}
        for n, v in self.kw.items():
            setattr(self.m, n, v)

    def __exit__(self, *a):
        for n, v in self.old.items():
            setattr(self.m, n, v)


def setf(obj, name, value):
    object.__setattr__(obj, name, value)


# ---------------------------------------------------------------- snapshots of containers
class ListV:
    def __init__(self, h):
        self.lo, self.hi, self.el = h.lo, h.hi, h.el

    def len(self):
        return self.hi - self.lo

    def at(self, k):
        return z3.Select(self.el, z3.simplify(self.lo + k))

    def _peel(self):
        """el as stores over a base array: ([(index, value)], base)."""
        el, out = z3.simplify(self.el), []
        while z3.is_app(el) and el.decl().kind() == z3.Z3_OP_STORE:
            out.append((el.arg(1), el.arg(2)))
            el = el.arg(0)
        return out, el

    def forall(self, f, name="i"):
        i = z3.Int(f"{name}!fa")
        stores, base = self._peel()
        out, rest = [], [self.lo <= i, i < self.hi]
        for k, (j, v) in enumerate(stores):
            out.append(z3.Implies(z3.And([self.lo <= j, j < self.hi] + [j != j2 for j2, _ in stores[:k]]), f(v, j)))
            rest.append(i != j)
        if z3.is_app(base) and base.decl().kind() == z3.Z3_OP_CONST_ARRAY:
            body = z3.ForAll([i], z3.Implies(z3.And(rest), f(base.arg(0), i)))
        else:
            body = z3.ForAll([i], z3.Implies(z3.And(rest), f(z3.Select(base, i), i)), patterns=[z3.Select(base, i)])
        return z3.And(out + [body]) if out else body

    def exists(self, f, name="i"):
        return z3.Not(self.forall(lambda e, i: z3.Not(f(e, i)), name))

    def has(self, x):
        return self.exists(lambda e, i: e == x)

    def distinct(self):
        i, j = z3.Int("i!d"), z3.Int("j!d")
        return z3.ForAll([i, j], z3.Implies(z3.And(self.lo <= i, i < j, j < self.hi),
                                            z3.Select(self.el, i) != z3.Select(self.el, j)),
                         patterns=[z3.MultiPattern(z3.Select(self.el, i), z3.Select(self.el, j))])

    def same(self, o):
        i = z3.Int("i!sm")
        return z3.And(self.len() == o.len(), z3.ForAll([i], z3.Implies(
            z3.And(0 <= i, i < self.len()), z3.Select(self.el, self.lo + i) == z3.Select(o.el, o.lo + i))))

    def appended(self, x, o):
        """o is self with x appended."""
        i = z3.Int("i!ap")
        return z3.And(o.len() == self.len() + 1, z3.Select(o.el, o.hi - 1) == x, z3.ForAll([i], z3.Implies(
            z3.And(0 <= i, i < self.len()), z3.Select(self.el, self.lo + i) == z3.Select(o.el, o.lo + i))))

    def popped(self, x, o):
        """o is self without its first element x."""
        i = z3.Int("i!pp")
        return z3.And(self.len() >= 1, o.len() == self.len() - 1, z3.Select(self.el, self.lo) == x, z3.ForAll(
            [i], z3.Implies(z3.And(0 <= i, i < o.len()),
                            z3.Select(self.el, self.lo + i + 1) == z3.Select(o.el, o.lo + i))))


class SetV:
    def __init__(self, h):
        self.m, self.size = h.has, h.zsize

    def has(self, x):
        return z3.Select(self.m, x)

    def forall(self, f):
        k = z3.Const("k!sf", V)
        return z3.ForAll([k], z3.Implies(z3.Select(self.m, k), f(k)), patterns=[z3.Select(self.m, k)])

    def same(self, o):
        return self.m == o.m

    def added(self, x, o):
        return o.m == z3.Store(self.m, x, z3.BoolVal(True))

    def removed(self, x, o):
        return o.m == z3.Store(self.m, x, z3.BoolVal(False))


class DictV(SetV):
    def __init__(self, h):
        self.m, self.size, self.v = h.has, h.zsize, h.vals

    def get(self, k):
        return z3.Select(self.v, k)

    def items(self, f):
        k = z3.Const("k!di", V)
        return z3.ForAll([k], z3.Implies(z3.Select(self.m, k), f(k, z3.Select(self.v, k))),
                         patterns=[z3.Select(self.m, k), z3.Select(self.v, k)])

    def same(self, o):
        k = z3.Const("k!ds", V)
        return z3.And(self.m == o.m, z3.ForAll([k], z3.Implies(z3.Select(self.m, k), z3.Select(self.v, k) ==
                                                               z3.Select(o.v, k))))

    def same_but(self, key, o):
        """o agrees with self on every key other than `key`."""
        k = z3.Const("k!db", V)
        return z3.ForAll([k], z3.Implies(k != key, z3.And(z3.Select(self.m, k) == z3.Select(o.m, k), z3.Implies(
            z3.Select(self.m, k), z3.Select(self.v, k) == z3.Select(o.v, k)))))


def view(x):
    if isinstance(x, MList):
        return ListV(x)
    if isinstance(x, MDict):
        return DictV(x)
    if isinstance(x, MSet):
        return SetV(x)
    return x


class State:
    """Snapshot: attributes are z3 terms (scalars) or ListV/SetV/DictV."""

    def __init__(self, d):
        self.__dict__.update(d)


def term(x):
    if isinstance(x, core.Sym):
        return x.expr
    if isinstance(x, bool):
        return z3.BoolVal(x)
    if isinstance(x, int):
        return IV(x)
    if isinstance(x, float):
        return core.z(x)
    if z3.is_expr(x):
        return x
    return E().enc(x)


class Monitor:
    """State shared between tasks, its invariant and what other tasks may do to it.

    fields: name -> ('c', getter) (model container, havocked in place), ('py', obj, attr, make) (an attribute,
            replaced by make()) or ('x', snapshot, havoc); locks: name -> lock that protects it.
    inv(S): [(name, formula)];  rely(S, T): facts about any step of other tasks;  guar(S, T): obligations on
    each uninterrupted segment of the code under contract.
    """

    def __init__(self, eng, fields, inv, rely=None, guar=None, locks=None, after=None):
        self.eng, self.fields, self.inv, self.rely, self.guar = eng, fields, inv, rely, guar
        self.locks = locks or {}
        self.after = after
        self.released = None
        if self.locks:
            eng.hooks["acquired"], eng.hooks["release"] = self._acquired, self._release
        self.segments = []
        eng.on_suspend = self.on_suspend
        eng.on_loop = self.on_loop

    def on_loop(self, loop, when):
        """A loop whose body may wait: the loop head is a point where others may have run."""
        if not getattr(loop.spec, "monitor", False):
            return
        if when in ("entry", "back"):
            T = self.snap()
            if self.guar is not None:
                for n, f in self.guar(self.seg, T):
                    self.eng.check(f"{n}", f, f"segment ending at loop {loop.key}")
            self.segments.append((self.seg, T))
        else:
            self.seg = self.snap()

    def snap(self):
        d = {}
        for n, f in self.fields.items():
            if f[0] == "c":
                d[n] = view(f[1]())
            elif f[0] == "x":
                d[n] = f[1]()
            else:
                d[n] = term(getattr(f[1], f[2]))
        return State(d)

    def start(self):
        """Begin: an arbitrary state satisfying the invariant."""
        self.havoc(first=True)
        for n, f in self.inv(self.snap()):
            self.eng.assume(f)
        self.seg = self.snap()
        return self.seg

    # fields that belong to a lock change only while it is held
    def _unchanged(self, S, lk, when):
        T = self.snap()
        for n, l in self.locks.items():
            if l is lk:
                a, b = getattr(S, n), getattr(T, n)
                self.eng.check(f"{n} changes only under its lock", a.same(b) if hasattr(a, "same") else a == b, when)

    def _acquired(self, lk):
        self._unchanged(self.released or self.seg, lk, "before the lock was taken")

    def _release(self, lk):
        self.released = self.snap()

    def havoc(self, first=False):
        eng = self.eng
        self.released = None
        for n, f in self.fields.items():
            lk = self.locks.get(n)
            if lk is not None and not first and any(l is lk for l in eng.locks_held):
                continue
            if f[0] == "c":
                eng.havoc_container(f[1]())
            elif f[0] == "x":
                f[2]()
            else:
                setattr(f[1], f[2], f[3]())

    def end_segment(self, tag):
        eng = self.eng
        T = self.snap()
        for lk in {id(l): l for l in self.locks.values()}.values():
            if not any(l is lk for l in eng.locks_held):
                self._unchanged(self.released or self.seg, lk, f"at {tag}, not holding the lock")
        for n, f in self.inv(T):
            eng.check(f"{n}", f, f"at {tag}")
        if self.guar is not None:
            for n, f in self.guar(self.seg, T):
                eng.check(f"{n}", f, f"segment ending at {tag}")
        self.segments.append((self.seg, T))
        return T

    def on_suspend(self, tag, prim):
        eng = self.eng
        T = self.end_segment(tag)
        self.havoc()
        S = self.snap()
        for n, f in self.inv(S):
            eng.assume(f)
        if self.rely is not None:
            for f in self.rely(T, S):
                eng.assume(f)
        if self.after is not None:
            self.after(tag, prim, T, S)
        self.seg = S

    def finish(self, tag="return"):
        return self.end_segment(tag)


def implies(a, b):
    return z3.Implies(a, b)


def one_step(segments, step, stutter):
    """Some segment performs `step`, all others `stutter`."""
    opts = []
    for j in range(len(segments)):
        opts.append(z3.And([step(*s) if i == j else stutter(*s) for i, s in enumerate(segments)]))
    return z3.Or(opts) if opts else z3.BoolVal(False)


# ---------------------------------------------------------------- running one contract
class Result:
    pass


def baseline():
    import json
    import os
    p = os.path.join(os.path.dirname(os.path.dirname(os.path.abspath(__file__))), "contracts", "constructs.json")
    return json.load(open(p)) if os.path.exists(p) else {}


class Odd(ConnectionRefusedError, TimeoutError, ValueError, KeyError, IndexError, RuntimeError, EOFError, AssertionError):
    """A failure of many kinds at once: code that treats some kind of failure specially meets it."""
    status, reason, code = 410, "Gone", 410

    def __str__(self):
        return str(self.args[0]) if self.args else ""


def failure(eng, text):
    """What somebody else's code may raise: an exception of no particular kind, or of many kinds."""
    if "odd failures" not in eng.ghost:
        eng.ghost["odd failures"] = eng.choose(2) == 1      # once per path: all failures are of one sort
    return Odd(text) if eng.ghost["odd failures"] else Exception(text)


def run_contract(c, timeout_ms=8000, max_seconds=120, second=False, max_paths=6000, focus=None, patience=1):
    eng = core.Engine(c.name, timeout_ms=timeout_ms, max_paths=c.opts.get("max_paths", max_paths),
                      deadline=time.time() + max_seconds, second=second, focus=focus, patience=patience)
    t = time.time()
    r = Result()
    r.name, r.props, r.unsupported, r.error = c.name, c.props, None, None
    try:
        def body(e):
            c.fn(e)
            _no_new_fields(e)
        eng.explore(body)
    except Unsupported as e:
        r.unsupported = str(e) or "unsupported"
        import traceback
        r.trace = traceback.format_exc()
    except RecursionError as e:
        r.unsupported = "recursion"
        r.trace = ""
    except core.EngineSignal as e:
        r.unsupported = f"{type(e).__name__}"
    except Exception as e:        # the contract itself could not be applied
        import traceback
        r.unsupported = f"contract not applicable: {type(e).__name__}: {e}"
        r.trace = traceback.format_exc()
    r.obligations = eng.obligations
    r.paths, r.complete = eng.paths, eng.complete_paths
    r.functions = dict(eng.functions)
    r.solver_time, r.solver_calls = eng.solver_time, eng.solver_calls
    r.feas = (eng.feas_time, eng.feas_calls)
    r.covers, r.want_covers = dict(eng.covers), set(eng.want_covers)
    r.loops = dict(eng.loops_seen)
    r.constructs = sorted(eng.constructs)
    known = baseline().get(c.name)
    # a comprehension the contract was not written for: facts about it may be out of the prover's reach
    r.weak = sorted(eng.weak_loops) + ([] if known is None else [f"comprehension ({k})" for k in r.constructs
                                                                  if k not in known])
    r.assumed = sorted(eng.assumed)
    r.seconds = time.time() - t
    return r
