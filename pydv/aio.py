"""Models of the libraries the code runs on: asyncio, time, random, heapq, math, logging, collections, ...

They are assumed contracts (listed in the evidence): what CPython's library documents, with every
await a point where any other task may run.
"""
import asyncio as _asyncio
import collections as _collections
import inspect
import types

import z3

from . import core
from .containers import IV, MCounter, MDefaultDict, MDeque, MDict, MList, MSet, pyint, source_of, zint
from .core import E, NONE, SymBool, SymInt, SymReal, SymVal, Unsupported, V, zbool
from .loader import patch_class
from .rt import pv_for


class Prim:
    """An awaitable of the model library: may suspend, then completes when it is ready."""

    def __init__(self, kind, obj=None, *args):
        self.kind, self.obj, self.args = kind, obj, args
        self.finished = False

    def ready(self):
        """Formula: can complete in the current state."""
        return z3.BoolVal(True)

    def may_block(self):
        return True

    def effect(self):
        return None

    def finish(self):
        """Complete now; the caller knows it is ready."""
        self.finished = True
        return self.effect()

    def __await__(self):
        eng = E()
        eng.alive()
        r = zbool(self.ready())
        if self.may_block():
            if not eng.fork(r):
                eng.suspend(self.kind, self)
                eng.assume(self.ready())
        else:
            eng.suspend(self.kind, self)
            eng.assume(self.ready())
        return self.finish()
        yield

    def close(self):
        pass


class FnPrim(Prim):
    """Primitive described by functions."""

    def __init__(self, kind, ready=None, effect=None, obj=None, always=False):
        super().__init__(kind, obj)
        self._ready, self._effect, self.always = ready, effect, always

    def ready(self):
        return self._ready() if self._ready else z3.BoolVal(True)

    def may_block(self):
        return not self.always

    def effect(self):
        return self._effect() if self._effect else None


def suspending(kind, effect=None, obj=None):
    """An await that always gives up control once, then completes."""
    return FnPrim(kind, None, effect, obj, always=True)


class Deadlock(Exception):
    pass


@patch_class
class MLock:
    def __init__(self, **kw):
        self._held = False

    def locked(self):
        if self._held:
            return True
        return E().bool("locked")

    def acquire(self):
        return FnPrim("lock.acquire", None, self._got, self, always=True)

    def _got(self):
        eng = E()
        if any(l is self for l in eng.locks_held):
            eng.fail(eng.tag + "no self-deadlock: lock acquired while held by the same task")
            eng.end_path()
        eng.locks_held.append(self)
        h = eng.hooks.get("acquired")
        if h is not None:
            h(self)
        return True

    def release(self):
        eng = E()
        if not any(l is self for l in eng.locks_held):
            raise RuntimeError("Lock is not acquired.")
        h = eng.hooks.get("release")
        if h is not None:
            h(self)
        eng.locks_held[:] = [l for l in eng.locks_held if l is not self]

    async def __aenter__(self):
        await self.acquire()

    async def __aexit__(self, *exc):
        if not E().dead:
            self.release()


@patch_class
class MCondition:
    """waiting: tasks blocked in wait and not notified; woken: notified, not yet running again."""

    def __init__(self, lock=None, **kw):
        self._lk = MLock() if lock is None else lock
        self._waiting = 0
        self._woken = 0

    def locked(self):
        return self._lk.locked()

    def acquire(self):
        return self._lk.acquire()

    def release(self):
        self._lk.release()

    async def __aenter__(self):
        await self.acquire()

    async def __aexit__(self, *exc):
        if not E().dead:
            self.release()

    def _own(self):
        if not any(l is self._lk for l in E().locks_held):
            raise RuntimeError("cannot notify/wait on un-acquired lock")

    def notify(self, n=1):
        self._own()
        w, k = zint(self._waiting), zint(n)
        m = z3.simplify(z3.If(w < k, w, k))
        self._waiting = pyint(w - m)
        self._woken = pyint(zint(self._woken) + m)

    def notify_all(self):
        self._own()
        self._woken = pyint(zint(self._woken) + zint(self._waiting))
        self._waiting = 0

    def wait(self):
        self._own()
        return CondWait(self)

    async def wait_for(self, predicate):
        self._own()
        # `while not predicate(): await wait()`
        L = __import__("pydv.rt", fromlist=["x"]).pv_while("asyncio:Condition.wait_for#1")
        res = None
        for _ in L.run():
            L.h()
            res = predicate()
            if res:
                break
            await self.wait()
        return res


class CondWait(Prim):
    def __init__(self, cond):
        super().__init__("cond.wait", cond)

    def __await__(self):
        eng, c = E(), self.obj
        eng.alive()
        c._waiting = pyint(zint(c._waiting) + 1)
        h = eng.hooks.get("release")
        if h is not None:
            h(c._lk)
        eng.locks_held[:] = [l for l in eng.locks_held if l is not c._lk]
        cancelled = False
        try:
            eng.suspend("cond.wait", self)
        except _asyncio.CancelledError:
            cancelled = True
        eng.locks_held.append(c._lk)
        if cancelled:
            # a cancelled waiter may or may not have been notified
            if eng.fork(zint(c._waiting) >= 1) and eng.choose(2) == 0:
                c._waiting = pyint(zint(c._waiting) - 1)
            else:
                eng.assume(zint(c._woken) >= 1)
                c._woken = pyint(zint(c._woken) - 1)
            raise _asyncio.CancelledError
        eng.assume(zint(c._woken) >= 1)
        c._woken = pyint(zint(c._woken) - 1)
        if h is not None:
            a = eng.hooks.get("acquired")
            if a is not None:
                a(c._lk)
        return True
        yield


@patch_class
class MEvent:
    def __init__(self, **kw):
        self._value = False

    def is_set(self):
        h = E().hooks.get("event.read")
        if h is not None:
            h(self)
        return self._value

    def set(self):
        self._value = True

    def clear(self):
        self._value = False

    def wait(self):
        return FnPrim("event.wait", lambda: zbool(self._value), lambda: True, self)


@patch_class
class MQueue:
    """asyncio.Queue: items in a deque; blocked putters are not tracked individually."""

    def __init__(self, maxsize=0, **kw):
        self.maxsize = maxsize
        self._items = MDeque()

    def _room(self):
        m = zint(self.maxsize)
        return z3.Or(m <= 0, self._items.zlen() < m)

    def qsize(self):
        return self._items.__len__()

    def empty(self):
        return SymBool(z3.simplify(self._items.zlen() == 0))

    def full(self):
        return SymBool(z3.simplify(z3.Not(self._room())))

    def _append(self, item):
        h = E().hooks.get("queue.put")
        if h is not None:
            h(self, item)
        self._items.append(item)

    def put(self, item):
        return FnPrim("queue.put", self._room, lambda: self._append(item), self)

    def put_nowait(self, item):
        if not E().fork(self._room()):
            raise _asyncio.QueueFull
        self._append(item)

    def _take(self):
        r = self._items.popleft()
        h = E().hooks.get("queue.got")
        if h is not None:
            h(self, r)
        return r

    def get(self):
        return FnPrim("queue.get", lambda: self._items.zlen() > 0, self._take, self)

    def get_nowait(self):
        if not E().fork(self._items.zlen() > 0):
            raise _asyncio.QueueEmpty
        return self._take()

    def task_done(self):
        pass

    def join(self):
        return suspending("queue.join", None, self)


@patch_class
class MTask:
    """A task.  prim: what it runs.  state: pending, done, cancelled."""

    def __init__(self, prim):
        self.prim = prim
        self.state = "pending"
        self.value = None
        self.exc = None
        self.cancel_requested = False
        self.callbacks = []
        self.born = E().moments
        if inspect.iscoroutine(prim):
            self.name = prim.__qualname__
            self.args = dict(prim.cr_frame.f_locals) if prim.cr_frame is not None else {}
        else:
            self.name = getattr(prim, "kind", type(prim).__name__)
            self.args = {}
        E().tasks.append(self)

    def __hash__(self):
        return object.__hash__(self)

    def cancel(self, *a):
        if self.state != "pending":
            return False
        self.cancel_requested = True
        h = E().hooks.get("task.cancel")
        if h is not None:
            h(self)
        return True

    def done(self):
        if self.state != "pending":
            return True
        eng = E()
        h = eng.hooks.get("task.poll")
        if h is not None:
            return h(self)
        if eng.moments == self.born:
            return False                     # nobody else has run since it was created
        if eng.feasible(self.ready()) and eng.choose(2) == 1:
            eng.assume(self.ready())
            if self.cancel_requested and eng.choose(2) == 1:
                self.settle_cancelled()
            else:
                self.settle()
            return True
        return False

    def cancelled(self):
        return self.state == "cancelled"

    def result(self):
        if self.state == "cancelled":
            raise _asyncio.CancelledError
        if self.state == "pending":
            raise _asyncio.InvalidStateError("Result is not set.")
        if self.exc is not None:
            raise self.exc
        return self.value

    def exception(self):
        if self.state == "cancelled":
            raise _asyncio.CancelledError
        return self.exc

    def add_done_callback(self, f):
        self.callbacks.append(f)

    # -- model side
    def ready(self):
        if isinstance(self.prim, Prim):
            return zbool(self.prim.ready())
        return z3.BoolVal(True)

    def settle(self):
        """The task has run to its end (without being cancelled)."""
        if self.state != "pending":
            return
        h = E().hooks.get("task")
        r = NotImplemented
        if h is not None:
            r = h(self)
            if self.state != "pending":
                return                           # the contract has said how it ended
        if r is NotImplemented:
            if isinstance(self.prim, Prim):
                try:
                    r = self.prim.finish()
                except Exception as e:
                    self.exc = e
                    r = None
            else:
                raise Unsupported(f"outcome of background task {self.name} is not specified")
        self.value = r
        self.state = "done"

    def settle_cancelled(self):
        if self.state == "pending":
            self.state = "cancelled"

    def __await__(self):
        eng = E()
        eng.alive()
        if self.state == "pending":
            eng.suspend("task", self)
            if self.state == "pending":
                if self.cancel_requested:
                    self.settle_cancelled()
                else:
                    eng.assume(self.ready())
                    self.settle()
        return self.result()
        yield

    def close(self):
        c = self.prim
        if inspect.iscoroutine(c):
            c.close()


def ensure_future(x, **kw):
    if isinstance(x, MTask):
        return x
    if E().pure:                       # one for each element of a comprehension: the contract says what it stands for
        h = E().hooks.get("spawn.each")
        if h is None:
            raise Unsupported("tasks started in a comprehension over symbolic data")
        return h(x)
    h = E().hooks.get("spawn")
    t = MTask(x)
    if h is not None:
        h(t)
    return t


def create_task(x, **kw):
    return ensure_future(x)


class Gather(Prim):
    def __init__(self, ts, ret):
        super().__init__("gather")
        self.many = [t._pv_seq for t in ts if type(t) is core.StarSeq]
        self.tasks = [ensure_future(t) for t in ts if type(t) is not core.StarSeq]
        self.ret = ret

    def __await__(self):
        eng = E()
        eng.alive()
        if self.many:
            h = eng.hooks.get("gather.many")
            if h is None:
                raise Unsupported("asyncio.gather of a symbolic number of tasks")
            eng.suspend("gather", self)
            return h(self)
        if any(t.state == "pending" for t in self.tasks):
            eng.suspend("gather", self)
            for t in self.tasks:
                if t.state == "pending":
                    if t.cancel_requested:
                        t.settle_cancelled()
                    else:
                        eng.assume(t.ready())
                        t.settle()
        out = []
        for t in self.tasks:
            try:
                out.append(t.result())
            except core.EngineSignal:
                raise
            except BaseException as e:
                if not self.ret:
                    raise
                out.append(e)
        return MList(out)
        yield


def gather(*aws, return_exceptions=False):
    return Gather(aws, return_exceptions)


class Wait(Prim):
    def __init__(self, tasks, timeout, when):
        super().__init__("wait")
        src = source_of(tasks)
        ts = tasks if src is None else src.concrete()
        if ts is None:
            raise Unsupported("asyncio.wait on a symbolic number of tasks")
        self.tasks = []
        for t in ts:
            if inspect.iscoroutine(t):
                raise TypeError("Passing coroutines is forbidden, use tasks explicitly.")
            t = ensure_future(t)
            if not any(t is u for u in self.tasks):
                self.tasks.append(t)
        self.timeout, self.when = timeout, when

    def __await__(self):
        eng = E()
        eng.alive()
        if not self.tasks:
            raise ValueError("Set of Tasks/Futures is empty.")
        already = [t for t in self.tasks if t.state != "pending"]
        first = self.when != _asyncio.ALL_COMPLETED
        soon = eng.hooks.get("wait.first")
        if soon is not None or (not (already and first) and len(already) < len(self.tasks)):
            eng.suspend("wait", self)
            done = len(already)
            pend = [t for t in self.tasks if t.state == "pending"]
            # "wait.first": tasks that can go on whenever the one waiting here can (asyncio runs them before it)
            now = [t for t in pend if soon is not None and soon(t) and eng.fork(t.ready())]
            for k, t in enumerate(pend):
                must = (not first and self.timeout is None) or any(t is u for u in now)
                if must:
                    eng.assume(t.ready())
                    t.settle()
                    done += 1
                    continue
                # each task may or may not be among the completed ones
                if eng.feasible(t.ready()) and eng.choose(2) == 1:
                    eng.assume(t.ready())
                    t.settle()
                    done += 1
            if done == 0 and self.timeout is None:
                eng.end_path()
        d, p = MPySet(), MPySet()
        for t in self.tasks:
            (p if t.state == "pending" else d).add(t)
        return d, p
        yield


class MPySet(set):
    """Set of tasks (concrete)."""


def wait(tasks, timeout=None, return_when=_asyncio.ALL_COMPLETED):
    return Wait(tasks, timeout, return_when)


class WaitFor(Prim):
    def __init__(self, aw, timeout):
        super().__init__("wait_for")
        self.aw, self.timeout = aw, timeout

    def __await__(self):
        eng = E()
        eng.alive()
        h, late = eng.hooks.get("wait_for"), eng.hooks.get("wait_for.timeout")
        if h is not None:
            h(self.aw, self.timeout)
        if self.timeout is not None and eng.choose(2) == 1:
            # the inner call is cancelled at some await of its own, or does not begin
            never = core.z(self.timeout) <= 0
            if eng.feasible(never) and eng.choose(2) == 1:
                eng.assume(never)
                eng.suspend("wait_for.timeout", self)
                if late is not None:
                    late(self.aw, self.timeout)
                raise _asyncio.TimeoutError
            if inspect.iscoroutine(self.aw):
                outer = eng.force_cancel
                eng.force_cancel = True
                was = eng.forced
                try:
                    r = yield from self.aw.__await__()
                except _asyncio.CancelledError:
                    if eng.forced == was:
                        raise
                else:
                    if eng.forced == was:
                        eng.end_path()           # it was in time: the other choice
                    return r                     # it did not heed the cancellation
                finally:
                    eng.force_cancel = outer
            else:
                eng.suspend("wait_for.timeout", self)
            if late is not None:
                late(self.aw, self.timeout)
            raise _asyncio.TimeoutError
        if inspect.iscoroutine(self.aw):
            r = yield from self.aw.__await__()
        else:
            r = yield from self.aw.__await__()
        return r


def wait_for(aw, timeout):
    return WaitFor(aw, timeout)


def sleep(delay, result=None):
    def eff():
        h = E().hooks.get("slept")
        if h is not None:
            h(delay)
        return result
    return FnPrim("sleep", None, eff, (delay,), always=True)


def shield(x):
    raise Unsupported("asyncio.shield")


def _module(name, **attrs):
    m = types.ModuleType(name)
    m.__dict__.update(attrs)
    m.__pv_model__ = True
    return m


def run_coro(c):
    """Run a coroutine of the model to its end."""
    try:
        v = c.send(None)
    except StopIteration as e:
        return e.value
    raise Unsupported(f"a coroutine really suspended on {v!r}")


class _NoLogger:
    def __getattr__(self, name):
        return lambda *a, **k: None


def _now():
    eng = E()
    h = eng.hooks.get("now")
    if h is not None:
        return h()
    t = eng.real("now")
    last = eng.ghost.get("now")
    if last is not None:
        eng.assume(t.expr >= last)
    eng.ghost["now"] = t.expr
    return t


def _time_sleep(d):
    raise Unsupported("time.sleep")


def _random():
    eng = E()
    r = eng.real("rnd")
    eng.assume(z3.And(r.expr >= 0, r.expr < 1))
    return r


def _uniform(a, b):
    eng = E()
    r = eng.real("rnd")
    x, y = core._zn(a, True), core._zn(b, True)
    eng.assume(z3.And(z3.Or(r.expr >= x, r.expr >= y), z3.Or(r.expr <= x, r.expr <= y)))
    return r


def _ldexp(m, e):
    eng = E()
    if isinstance(e, int) and isinstance(m, (int, float)):
        import math
        return math.ldexp(m, e)
    p = eng.pow2(e) if isinstance(e, SymInt) else 2 ** e
    x = SymReal(core._zn(m, True) * z3.ToReal(core.z(p)))
    big = z3.ToReal(core.FLOAT_LIMIT)
    if eng.fork(z3.Or(x.expr >= big, x.expr <= -big)):
        raise OverflowError("math range error")
    return x


def _mpow(a, b):
    if isinstance(b, SymInt) and a in (2, 2.0):
        return b.__rpow__(2.0)
    import math
    if isinstance(a, core.Sym) or isinstance(b, core.Sym):
        raise Unsupported("math.pow")
    return math.pow(a, b)


class MCount:
    """itertools.count"""

    def __init__(self, start=0, step=1):
        self.n, self.step = start, step

    def __iter__(self):
        return self

    def __next__(self):
        r = self.n
        self.n = r + self.step
        return r


patch_class(MCount)


def _copy(x):
    if hasattr(x, "__copy__"):
        return x.__copy__()
    h = E().hooks.get("copy")
    if h is not None:
        r = h(x)
        if r is not NotImplemented:
            return r
    import copy
    return copy.copy(x)


def _deepcopy(x):
    h = E().hooks.get("deepcopy")
    if h is not None:
        r = h(x)
        if r is not NotImplemented:
            return r
    raise Unsupported("deepcopy")


_CACHE = {}


def model_module(name):
    if name in _CACHE:
        return _CACHE[name]
    m = _build(name)
    _CACHE[name] = m
    return m


def _build(name):
    if name == "asyncio":
        return _module(
            "asyncio", Lock=MLock, Condition=MCondition, Event=MEvent, Queue=MQueue, ensure_future=ensure_future,
            create_task=create_task, gather=gather, wait=wait, wait_for=wait_for, sleep=sleep, shield=shield,
            Task=MTask, Future=MTask, iscoroutinefunction=inspect.iscoroutinefunction, iscoroutine=inspect.iscoroutine,
            CancelledError=_asyncio.CancelledError, TimeoutError=_asyncio.TimeoutError,
            QueueFull=_asyncio.QueueFull, QueueEmpty=_asyncio.QueueEmpty,
            InvalidStateError=_asyncio.InvalidStateError, FIRST_COMPLETED=_asyncio.FIRST_COMPLETED,
            ALL_COMPLETED=_asyncio.ALL_COMPLETED, FIRST_EXCEPTION=_asyncio.FIRST_EXCEPTION)
    if name == "time":
        return _module("time", time=_now, monotonic=_now, perf_counter=_now, sleep=_time_sleep)
    if name == "random":
        return _module("random", random=_random, uniform=_uniform)
    if name == "math":
        import math
        return _module("math", ldexp=_ldexp, pow=_mpow, inf=math.inf, isinf=math.isinf, floor=math.floor,
                       ceil=math.ceil, log=math.log, log2=math.log2)
    if name == "logging":
        lg = _NoLogger()
        f = lambda *a, **k: None
        return _module("logging", getLogger=lambda *a: lg, debug=f, info=f, warning=f, error=f, exception=f,
                       critical=f, DEBUG=10, INFO=20, WARNING=30, ERROR=40)
    if name == "collections":
        return _module("collections", deque=MDeque, Counter=MCounter, defaultdict=MDefaultDict, OrderedDict=MDict,
                       namedtuple=_collections.namedtuple, abc=_collections.abc)
    if name == "itertools":
        import itertools
        return _module("itertools", count=MCount, chain=itertools.chain, islice=itertools.islice)
    if name == "copy":
        return _module("copy", copy=_copy, deepcopy=_deepcopy)
    if name == "heapq":
        from . import heap
        return _module("heapq", heappush=heap.heappush, heappop=heap.heappop, heapify=heap.heapify)
    if name == "json":
        from . import jsonm
        return jsonm.module()
    if name.split(".")[0] == "kubernetes_asyncio":
        from . import kube
        return kube.module(name)
    return None
