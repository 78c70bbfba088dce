"""Contracts of util/wait.py (C22)."""
import z3

from contracts.informer import GhostSeq, may_be_set
from pydv.aio import FnPrim, MEvent
from pydv.core import SymBool, Unsupported, V, zbool
from pydv.spec import LoopSpec, Stub, contract, failure, mod, need, no_raise, patched, run, setf, term

WT = "util.wait"
DUR = z3.Function("successive_duration", z3.IntSort(), z3.RealSort())


def real(x):
    e = term(x)
    return z3.ToReal(e) if e.sort() == z3.IntSort() else e


def bounds(d, w, f):
    """w is d stretched by at most the factor f (1 for a factor that is not positive), not shortened."""
    ff = z3.If(f > 0, f, z3.RealVal(1))
    return z3.And(w >= d, w <= d + ff * d)


@contract("wait.jitter", "C22", [WT + ":jitter"])
def jitter(eng):
    m = mod(WT)
    need(m, "jitter")
    d, f = eng.real("duration"), eng.real("factor")
    eng.assume(d.expr >= 0)
    out = run(m.jitter, d, f)
    no_raise(out, "C22| jitter raises nothing")
    eng.check("C22| jitter only lengthens, by at most the factor", bounds(d.expr, real(out.value), f.expr))
    eng.cover("jittered")


def config(eng, m):
    """Any configuration with a number of steps that is not negative."""
    need(m, "Backoff")
    d, f, j, c, n = eng.real("d"), eng.real("factor"), eng.real("jitter"), eng.real("cap"), eng.int("steps")
    eng.assume(z3.And(d.expr >= 0, f.expr >= 0, j.expr >= 0, c.expr >= 0, n.expr >= 0))
    out = run(lambda: m.Backoff(steps=n, duration=d, factor=f, jitter=j, cap=c))
    no_raise(out, "C22| a configuration can be made")
    b = out.value
    have = {k for k in vars(b) if not k.startswith("_pv_")}
    if have != {"duration", "factor", "jitter", "steps", "cap"}:
        raise Unsupported(f"a configuration has the fields {sorted(have)}")
    for k, v in (("duration", d), ("factor", f), ("jitter", j), ("steps", n), ("cap", c)):
        eng.check("C22| a configuration holds what it was given", real(getattr(b, k)) == real(v))
    return b, d.expr, f.expr, j.expr, c.expr, n.expr


def stretched(d, w, j):
    """d, jittered if the configuration says so."""
    return z3.If(j == 0, w == d, bounds(d, w, j))


def capped(d, f, c):
    return z3.And(f != 0, c != 0, d * f > c)


def following(d, f, c):
    return z3.If(f == 0, d, z3.If(z3.And(c != 0, d * f > c), c, d * f))


def jitter_contract(eng, m):
    """wait.jitter, as proved above."""
    def j(duration, max_factor):
        d, f, w = real(duration), real(max_factor), eng.real("jittered")
        eng.assume(bounds(d, w.expr, f))
        return w
    return patched(m, jitter=j)


@contract("wait.Backoff.step", "C22", [WT + ":Backoff.step", WT + ":Backoff.__init__"])
def step(eng):
    m = mod(WT)
    b, d, f, j, c, n = config(eng, m)
    with jitter_contract(eng, m):
        out = run(b.step)
    no_raise(out, "C22| step raises nothing")
    eng.check("C22| a step waits the current duration, stretched by at most the jitter", stretched(d, real(out.value), j))
    more = n >= 1
    eng.check("C22| the next duration is longer by the factor, limited by the cap", real(b.duration) == z3.If(
        more, following(d, f, c), d))
    eng.check("C22| a step is used up; none is left once the cap is reached", real(b.steps) == z3.ToReal(z3.If(
        more, z3.If(capped(d, f, c), z3.IntVal(0), n - 1), n)))
    eng.check("C22| the configuration stays otherwise", z3.And(real(b.factor) == f, real(b.jitter) == j, real(b.cap) == c))
    eng.cover("stepped")


class Cond:
    """A condition: any results, any exception, any time; counts its evaluations and the waits between them."""

    def __init__(self, eng):
        self.eng = eng
        self.g = GhostSeq(eng)
        for k in ("attempts", "sleeps", "true"):
            self.g.set(k, z3.IntVal(0))
        self.failed = False
        self.before = None
        self.error = failure(eng, "condition")
        eng.hooks["slept"] = self.slept

    def n(self, k):
        return self.g.get(k)

    @property
    def true(self):
        return self.n("true") != 0

    @property
    def none(self):
        """No true result and no exception so far."""
        return z3.And(z3.Not(self.true), z3.BoolVal(not self.failed))

    said = None

    def known(self, ctx):
        """A true result so far is one that the loop's variables say (those that said so when it began)."""
        flags = {}
        for name in list(ctx.loop.frame.f_locals):
            v = ctx.env(name)
            if isinstance(v, (bool, SymBool)):
                flags[name] = zb(v)
            elif isinstance(v, int):
                flags[name] = z3.BoolVal(v != 0)
        if self.said is None:
            self.said = [k for k, v in flags.items() if self.eng.valid(v == self.true)]
        fs = [flags[k] == self.true for k in self.said if k in flags]
        return z3.And(z3.And(fs) if fs else z3.Not(self.true), z3.BoolVal(not self.failed))

    async def __call__(self):
        eng = self.eng
        eng.check("C22| nothing is evaluated after the first true result", self.none)
        if self.before is not None:
            self.before()
        self.g.set("attempts", self.n("attempts") + 1)
        eng.suspend("condition")
        k = eng.choose(3)
        if k == 0:
            self.failed = True
            raise self.error
        if k == 1:
            self.g.set("true", z3.IntVal(1))
        return k == 1

    def slept(self, d):
        self.eng.check("C22| there is no wait after the first true result", self.none)
        if self.during is not None:
            self.during(d)
        self.g.set("sleeps", self.n("sleeps") + 1)
    during = None


@contract("wait.exponential_backoff", "C22", [WT + ":exponential_backoff", WT + ":Backoff.step"])
def backoff(eng):
    """Attempt, wait, attempt, ... with the durations of the configuration, as often as it says."""
    m = mod(WT)
    b, d, f, j, c, n = config(eng, m)
    cond = Cond(eng)
    eng.assume(DUR(0) == d)

    def axiom(k):
        eng.assume(DUR(k + 1) == following(DUR(k), f, c))

    def before():
        a, s = cond.n("attempts"), cond.n("sleeps")
        eng.check("C22| there is one wait between two attempts", a == s)
        eng.check("C22| there are at most as many attempts as configured", a < n)

    def during(w):
        a, s = cond.n("attempts"), cond.n("sleeps")
        eng.check("C22| there is one wait between two attempts", a == s + 1)
        eng.check("C22| the waits are the configured durations, limited by the cap, stretched by at most the jitter",
                  stretched(DUR(s), real(w), j))
        axiom(s)
    cond.before, cond.during = before, during

    def inv(ctx):
        bs = []
        for name in list(ctx.loop.frame.f_locals):
            v = ctx.env(name)
            if isinstance(v, m.Backoff) and v is not b and not any(v is u for u in bs):
                bs.append(v)
        if len(bs) != 1:
            raise Unsupported("the state of the backoff is kept elsewhere")
        x = bs[0]
        a, s = cond.n("attempts"), cond.n("sleeps")
        return [("C22| attempts and waits alternate", z3.And(a == s, s >= 0, a <= n)),
                ("no attempt was true so far unless it is said", cond.known(ctx)),
                ("the duration", real(x.duration) == DUR(s)), ("its sign", DUR(s) >= 0),
                ("the steps", real(x.steps) == z3.ToReal(z3.If(z3.And(s > 0, capped(DUR(s - 1), f, c)), z3.IntVal(0), n - s))),
                ("the rest of the configuration", z3.And(real(x.factor) == f, real(x.jitter) == j, real(x.cap) == c))]
    eng.loop_specs.append(LoopSpec(name="attempt after attempt", kind="while", inv=inv))
    with jitter_contract(eng, m):
        out = run(m.exponential_backoff, b, cond)
    a, s = cond.n("attempts"), cond.n("sleeps")
    if cond.failed:
        eng.check("C22| the condition's exceptions are let through", z3.BoolVal(out.exc is cond.error))
        eng.cover("failed")
    elif isinstance(out.exc, m.WaitTimeoutError):
        eng.check("C22| backing off gives up only without a true result", z3.Not(cond.true))
        eng.check("C22| backing off gives up only when the attempts are used up or the cap is reached", z3.Or(
            a == n, z3.And(s > 0, capped(DUR(s - 1), f, c))))
        eng.cover("gave up")
    else:
        no_raise(out, "C22| backing off raises nothing else")
        eng.check("C22| backing off returns at the first true result", cond.true)
        eng.cover("done")
    eng.check("C22| the configuration given is not altered", z3.And(real(b.duration) == d, real(b.factor) == f, real(
        b.jitter) == j, real(b.cap) == c, real(b.steps) == z3.ToReal(n)))


@contract("wait.poll", "C22", [WT + ":poll", WT + ":poll_immediate", WT + ":poll_infinite", WT + ":poll_immediate_infinite"])
def poll(eng):
    """One evaluation after each interval (the immediate ones begin with one), until the first true result or the timeout."""
    m = mod(WT)
    need(m, "poll", "poll_immediate", "poll_infinite", "poll_immediate_infinite")
    interval, timeout = eng.real("interval"), eng.real("timeout")
    which = eng.choose(4)
    immediate, limited = which in (1, 3), which in (0, 1)
    cond = Cond(eng)
    waited = []
    eng.hooks["wait_for"] = lambda aw, t: waited.append(t)
    extra = 1 if immediate else 0

    def before():
        a, s = cond.n("attempts"), cond.n("sleeps")
        eng.check("C22| there is one wait before each evaluation, none before an immediate one", a == s - 1 + extra)

    def during(w):
        a, s = cond.n("attempts"), cond.n("sleeps")
        eng.check("C22| there is one evaluation after each wait", a == s + extra)
        eng.check("C22| the interval is waited", real(w) == interval.expr)
    cond.before, cond.during = before, during
    eng.loop_specs.append(LoopSpec(name="poll after poll", kind="while", inv=lambda ctx: [
        ("C22| evaluations and waits alternate", z3.And(cond.n("attempts") == cond.n("sleeps") + extra, cond.n("sleeps") >= 0)),
        ("nothing was true so far unless it is said", cond.known(ctx))]))
    f = (m.poll, m.poll_immediate, m.poll_infinite, m.poll_immediate_infinite)[which]
    out = run(f, interval, timeout, cond) if limited else run(f, interval, cond)
    if cond.failed:
        eng.check("C22| the condition's exceptions are let through", z3.BoolVal(out.exc is cond.error))
        eng.cover("failed")
    elif isinstance(out.exc, m.WaitTimeoutError):
        eng.check("C22| polling gives up only when its time is over", z3.BoolVal(
            limited and len(waited) == 1))
        eng.check("C22| and without a true result", z3.Not(cond.true))
        eng.check("C22| an immediate evaluation is not left out", cond.n("attempts") >= extra)
        eng.cover("gave up")
    else:
        no_raise(out, "C22| polling raises nothing else")
        eng.check("C22| polling returns at the first true result", cond.true)
        eng.cover(f"done {which}")
    for t in waited:
        eng.check("C22| the time limit is the one given", real(t) == timeout.expr)
    if limited and not (immediate and eng.valid(cond.n("sleeps") == 0)):
        eng.check("C22| the time is limited", z3.BoolVal(len(waited) == 1))


# ---------------------------------------------------------------- again and again
class Rounds:
    """What one round of a loop helper did: calls of the function, durations waited."""

    def __init__(self, eng, stop=None):
        self.eng, self.stop = eng, stop
        self.reset()
        eng.hooks["slept"] = lambda d: self.log.extend([("timer", real(d)), ("over", None)])

    def reset(self):
        self.log = []

    async def f(self):
        eng = self.eng
        eng.check("C22| the function is called once in a round", z3.BoolVal("call" not in self.kinds()))
        if self.stop is not None:
            eng.check("C22| the function is not called after the stop event was set", z3.Not(zb(self.stop._value)))
        self.log.append(("call", None))
        eng.suspend("f")
        if eng.choose(2) == 1:
            self.failed = True
            self.error = failure(eng, "f")
            raise self.error
        self.log.append(("return", None))
    failed, error = False, None

    def kinds(self):
        return [k for k, _ in self.log]

    def timer(self):
        rounds = self

        class Chan(Stub):
            def get(self):
                return FnPrim("timer.get", None, lambda: rounds.log.append(("over", None)), self)

        class Timer(Stub):
            def __init__(self, d):
                rounds.log.append(("timer", real(d)))
                self.c = Chan()

            def stop(self):
                pass
        return Timer

    def judge(self, period, factor, sliding):
        """The round that ends here called the function once and waited one period."""
        eng, ks = self.eng, self.kinds()
        eng.check("C22| the function is called once in a round, and one period is waited", z3.BoolVal(
            ks.count("call") == 1 and ks.count("return") == 1 and ks.count("timer") == 1))
        if not (ks.count("call") == 1 and ks.count("return") == 1 and ks.count("timer") == 1):
            return
        d = [x for k, x in self.log if k == "timer"][0]
        eng.check("C22| the period is stretched by at most the jitter factor, not shortened", z3.If(
            factor > 0, bounds(period, d, factor), d == period))
        t, c, r = ks.index("timer"), ks.index("call"), ks.index("return")
        eng.check("C22| the period begins after the call if sliding, else before it", z3.If(
            sliding, z3.BoolVal(t > r), z3.BoolVal(t < c)))
        over = z3.BoolVal("over" in ks and ks.index("over") > r)
        if self.stop is not None:
            over = z3.Or(over, zb(self.stop._value))
        eng.check("C22| the next call comes only when the period is over", over)


def zb(x):
    return z3.BoolVal(bool(x)) if isinstance(x, bool) else zbool(x)


@contract("wait.loop", "C22", [WT + ":loop", WT + ":jitter_loop", WT + ":until", WT + ":jitter_until"])
def loops(eng):
    """loop, until and their jittered forms: one call a round, one period between; until ends once it is told to stop."""
    m = mod(WT)
    need(m, "loop", "jitter_loop", "until", "jitter_until")
    period = eng.real("period")
    eng.assume(period.expr >= 0)
    which = eng.choose(4)
    until, jittered = which >= 2, which in (1, 3)
    stop = MEvent() if until else None
    factor, sliding = z3.RealVal(0), z3.BoolVal(True)
    args = [period]
    if jittered:
        f, s = eng.real("factor"), eng.bool("sliding")
        factor, sliding = f.expr, zbool(s)
        args += [f, s]
    R = Rounds(eng, stop)
    if until:
        eng.hooks["spawn"] = lambda t: None
        if eng.choose(2) == 1:
            stop._value = True
        eng.on_suspend = lambda tag, prim: may_be_set(eng, stop)
        args.append(stop)

    def on_loop(loop, when):
        if when == "head":
            R.reset()
        elif when == "back":
            R.judge(period.expr, factor, sliding)
            R.reset()
    eng.on_loop = on_loop
    eng.loop_specs.append(LoopSpec(name="round after round", kind="while", inv=lambda ctx: [
        ("nothing yet", z3.BoolVal(not R.log)),
        ("who waits for the stop event waits until it is set", z3.And([z3.BoolVal(True)] + [
            zb(stop._value) for t in eng.tasks if until and t.name == "event.wait" and t.state == "done"]))]))
    with jitter_contract(eng, m), patched(m._time, Timer=R.timer()):
        out = run((m.loop, m.jitter_loop, m.until, m.jitter_until)[which], R.f, *args)
    if R.failed:
        eng.check("C22| the function's exceptions are let through", z3.BoolVal(out.exc is R.error))
        eng.cover(f"failed {which}")
        return
    no_raise(out, "C22| a loop raises nothing of its own")
    if not until:
        eng.check("C22| a loop never ends by itself", z3.BoolVal(False))
    else:
        eng.check("C22| it ends only when it was told to", zb(stop._value))
        eng.cover(f"ended {which}")
