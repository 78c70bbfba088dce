"""Contracts of workqueue/default_rate_limiters.py (C05, C06)."""
import z3

from pydv.containers import IV, MList
from pydv.core import FLOAT_LIMIT, POW2, SymInt, SymReal, V, Unsupported
from pydv.spec import DictV, LoopSpec, contract, instance, mod, need, no_raise, run, setf, term

MOD = "workqueue.default_rate_limiters"


def expo(eng):
    m = mod(MOD)
    need(m, "ItemExponentialFailureRateLimiter")
    base, mx = eng.real("base"), eng.real("max")
    eng.assume(z3.And(base.expr > 0, mx.expr > 0, mx.expr < z3.ToReal(FLOAT_LIMIT)))
    lim = m.ItemExponentialFailureRateLimiter(base, mx)
    instance(lim, ("_base_delay", "_max_delay", "_failures"))
    return lim, base.expr, mx.expr


def havoc_failures(eng, lim):
    f = lim._failures
    eng.havoc_container(f)
    f._pv_elem, f._pv_key = "int", "val"
    d = DictV(f)
    eng.assume(d.items(lambda k, v: z3.And(V.is_int_(v), V.ival(v) >= 0)))
    return d


def count(d, k):
    return z3.If(d.has(k), V.ival(d.get(k)), IV(0))


def others(eng, d, d2, x, name):
    k = z3.Const("k!other", V)
    eng.check(name, z3.ForAll([k], z3.Implies(k != x, count(d, k) == count(d2, k))))


@contract("ratelimit.ItemExponential.__init__", "C05", [MOD + ":ItemExponentialFailureRateLimiter.__init__"])
def expo_init(eng):
    lim, base, mx = expo(eng)
    d = DictV(lim._failures)
    k = z3.Const("k!i", V)
    eng.check("C05| no failures initially", z3.ForAll([k], count(d, k) == 0))


@contract("ratelimit.ItemExponential.when", "C05", [MOD + ":ItemExponentialFailureRateLimiter.when"])
def expo_when(eng):
    lim, base, mx = expo(eng)
    d = havoc_failures(eng, lim)
    x = eng.caller_val("item").expr
    out = run(lim.when, eng.dec(x))
    no_raise(out, "C05| when raises nothing, however many failures")
    d2 = DictV(lim._failures)
    n = count(d, x)
    eng.pow2_axioms(n)
    # 2**n >= 1 and base > 0 relate the capped and uncapped delays without nonlinear reasoning
    raw = base * z3.ToReal(POW2(n))
    eng.check("C05| the delay is min(base * 2^n, max) for n earlier failures",
              term(real(out.value)) == z3.If(raw < mx, raw, mx))
    eng.check("C05| one more failure is counted", count(d2, x) == n + 1)
    others(eng, d, d2, x, "C05| other items are not affected")
    eng.cover("when returns")


def real(v):
    return SymReal(z3.ToReal(v.expr)) if isinstance(v, SymInt) else v


@contract("ratelimit.ItemExponential.num_requeues", "C05", [MOD + ":ItemExponentialFailureRateLimiter.num_requeues"])
def expo_num(eng):
    lim, base, mx = expo(eng)
    d = havoc_failures(eng, lim)
    x = eng.caller_val("item").expr
    out = run(lim.num_requeues, eng.dec(x))
    no_raise(out, "C05| num_requeues raises nothing")
    d2 = DictV(lim._failures)
    eng.check("C05| num_requeues is the number of failures", term(out.value) == count(d, x))
    k = z3.Const("k!n", V)
    eng.check("C05| num_requeues changes nothing", z3.ForAll([k], count(d, k) == count(d2, k)))
    eng.cover("num_requeues returns")


@contract("ratelimit.ItemExponential.forget", "C05", [MOD + ":ItemExponentialFailureRateLimiter.forget"])
def expo_forget(eng):
    lim, base, mx = expo(eng)
    d = havoc_failures(eng, lim)
    x = eng.caller_val("item").expr
    out = run(lim.forget, eng.dec(x))
    no_raise(out, "C05| forget raises nothing, also for an unknown item")
    d2 = DictV(lim._failures)
    eng.check("C05| a forgotten item has no failures", count(d2, x) == 0)
    others(eng, d, d2, x, "C05| forget affects no other item")
    eng.cover("forget returns")


# ---------------------------------------------------------------- token bucket
@contract("ratelimit.Bucket.when", "C06", [MOD + ":BucketRateLimiter.when", MOD + ":BucketRateLimiter._advance",
                                           MOD + ":BucketRateLimiter.__init__"])
def bucket_when(eng):
    """zero = the time at which the bucket, extended linearly, was empty: zero' = max(zero, now - b/r) + 1/r."""
    m = mod(MOD)
    need(m, "BucketRateLimiter")
    r, b = eng.real("limit"), eng.real("burst")
    eng.assume(z3.And(r.expr > 0, b.expr >= 1))
    out = run(m.BucketRateLimiter, r, b)
    no_raise(out, "C06| a bucket with positive limit and burst >= 1 can be built")
    lim = out.value
    instance(lim, ("_limit", "_burst", "_tokens", "_last"))
    tok, last = eng.real("tokens"), eng.real("last")
    setf(lim, "_tokens", tok)
    setf(lim, "_last", last)
    eng.assume(tok.expr <= b.expr)
    back = eng.choose(2) == 1                          # the clock was set back since the last call
    eng.ghost["now"] = last.expr / 1_000_000_000
    times = []

    def clock():
        t = eng.real("now")
        if times or not back:
            eng.assume(t.expr >= (times[-1] if times else eng.ghost["now"]))
        else:
            eng.assume(t.expr < eng.ghost["now"])
        times.append(t.expr)
        return t
    eng.hooks["now"] = clock
    out = run(lim.when, eng.caller_val("item"))
    no_raise(out, "C06| when raises nothing")
    if len(times) != 1:
        raise Unsupported("the bucket reads the clock other than once")
    now = times[0]
    # everything in tokens: level(t) = r * (t - zero)
    lvl = tok.expr + r.expr * (now - last.expr / 1_000_000_000)
    before = z3.If(lvl < b.expr, lvl, b.expr)
    t2, l2 = term(real(lim._tokens)), term(real(lim._last)) / 1_000_000_000
    ret = term(real(out.value))
    if ret.sort() == z3.IntSort():
        ret = z3.ToReal(ret)
    if back:
        # nothing is gained: at the time of the call at most one token less than there was at the last one
        eng.check("C06| a clock set back gives no tokens", t2 + r.expr * (now - l2) <= tok.expr - 1)
        eng.check("C06| a clock set back makes no delay shorter", ret * r.expr >= 1 - tok.expr)
        eng.check("C06| no delay is negative", ret >= 0)
        eng.check("C06| the bucket never holds more than the burst", t2 <= b.expr)
        eng.cover("when returns")
        return
    after = before - 1
    eng.check("C06| one token is taken from the refilled, capped bucket", t2 + r.expr * (now - l2) == after)
    eng.check("C06| the bucket never holds more than the burst", t2 <= b.expr)
    eng.check("C06| no delay is negative", ret >= 0)
    eng.check("C06| the delay is the time until the missing tokens are there",
              ret * r.expr == z3.If(after < 0, -after, z3.RealVal(0)))
    eng.check("C06| the bucket remembers the time of the call", z3.And(l2 >= last.expr / 1_000_000_000, l2 <= now))
    eng.cover("when returns")


@contract("ratelimit.Bucket.lemma", "C06", [])
def bucket_lemma(eng):
    """The recurrence of the contract of when implies the rate bound, and no smaller delay would do.

    zero(k) is the empty time after call k:  zero(k+1) = max(zero(k), now(k+1) - b/r) + 1/r;
    ready(k) = max(now(k), zero(k)).  Times are scaled by r, so that everything is linear.
    """
    R = z3.RealSort()
    z0, now, b = eng.fresh("zero", R), eng.fresh("now", R), eng.fresh("b", R)
    eng.assume(b >= 1)
    mx = lambda p, q: z3.If(p > q, p, q)
    z1 = mx(z0, now - b) + 1
    eng.check("C06| lemma: each call moves the empty time on by at least one token", z1 >= z0 + 1)
    eng.check("C06| lemma: the empty time is at most burst-1 tokens behind the call", z1 >= now - (b - 1))
    # induction: zero(j) >= zero(i) + (j - i): step
    zi, zj, d = eng.fresh("zi", R), eng.fresh("zj", R), eng.fresh("d", R)
    zj1, nj = mx(zj, eng.fresh("nj", R) - b) + 1, None
    eng.check("C06| lemma: induction step over later calls", z3.Implies(zj >= zi + d, zj1 >= zi + d + 1))
    # window of ready times [s, s+T] holding calls i..j
    ni, nj, s, T = eng.fresh("ni", R), eng.fresh("nj", R), eng.fresh("s", R), eng.fresh("T", R)
    eng.check("C06| lemma: at most b + r*T calls become ready in any interval of length T", z3.Implies(
        z3.And(zi >= ni - (b - 1), zj >= zi + d, mx(ni, zi) >= s, mx(nj, zj) <= s + T), d + 1 <= b + T))
    # minimality: since the bucket was last full (at a call at time a) every call moved zero by exactly one
    a, c = eng.fresh("a", R), eng.fresh("c", R)
    eng.check("C06| lemma: chain since the bucket was last full (start)",
              z3.Implies(z0 <= now - b, z1 == now + 1 - b))
    eng.check("C06| lemma: chain since the bucket was last full (step)",
              z3.Implies(z3.And(z0 == a + c - b, z0 > now - b), z1 == a + (c + 1) - b))
    ready = eng.fresh("ready", R)
    eng.check("C06| lemma: becoming ready earlier would exceed the bound for the interval since then", z3.Implies(
        z3.And(z1 == a + c - b, ready < z1, ready >= a), c > b + (ready - a)))


# ---------------------------------------------------------------- combined limiters
def members(eng, methods):
    """A symbolic number of limiters; calls are recorded."""
    m = mod(MOD)
    need(m, "_MaxOfRateLimiters")
    lst = MList()
    eng.havoc_container(lst)
    lst._pv_elem = "val"
    eng.assume(lst.hi > lst.lo)
    R = {n: z3.Function(f"result_{n}", V, V, z3.RealSort() if n == "when" else z3.IntSort()) for n in methods}
    seen = []

    def getattr_(v, name):
        if name not in methods:
            return NotImplemented

        def call(*args, **kw):
            if len(args) != 1 or kw:
                raise TypeError(name)
            eng.call_log.append((name, v.expr, eng.enc(args[0])))
            r = R[name](v.expr, eng.enc(args[0]))
            return SymReal(r) if name == "when" else SymInt(r)
        return call
    eng.hooks["getattr"] = getattr_
    lim = m._MaxOfRateLimiters()
    instance(lim, ("_limiters",))
    setf(lim, "_limiters", lst)
    return lim, lst, R


def asked(eng, method, n, base, x, name):
    """The call log says: `method` of every member was called exactly once, with the item."""
    ok = len(eng.call_log) == 1 and eng.call_log[0][0] == "forall"
    if not ok:
        eng.fail(name, f"calls: {[c[0] for c in eng.call_log]}")
        return
    _, i, lo, hi, calls = eng.call_log[0]
    if len(calls) != 1 or calls[0][0] != method:
        eng.fail(name, f"calls: {calls}")
        return
    j = eng.fresh("j", z3.IntSort())
    eng.assume(z3.And(lo <= j, j < hi))
    recv, arg = [z3.substitute(t, (i, j)) for t in calls[0][1:]]
    eng.check(name, z3.And(hi - lo == n, recv == base(j), arg == x))


def combined(eng, method):
    lim, lst, R = members(eng, (method,))
    n = lst.zlen()
    lo, el = lst.lo, lst.el
    x = eng.caller_val("item").expr
    out = run(getattr(lim, method), eng.dec(x))
    no_raise(out, f"C06| the combined {method} raises nothing")
    v = term(out.value)
    r = R[method]
    j = z3.Int("j!cm")
    sel = z3.Select(el, j)
    asked(eng, method, n, lambda j: z3.Select(el, lo + j), x, f"C06| the combined {method} asks every member exactly once")
    k = eng.fresh("k", z3.IntSort())
    eng.assume(z3.And(0 <= k, k < n))
    eng.check(f"C06| the combined {method} is at least every member's",
              v >= r(z3.Select(el, z3.simplify(lo + k)), x))
    eng.check(f"C06| the combined {method} is some member's",
              z3.Not(z3.ForAll([j], z3.Implies(z3.And(lo <= j, j < lo + n), v != r(sel, x)), patterns=[sel])))
    eng.cover("combined returns")


@contract("ratelimit.Max.when", "C06", [MOD + ":_MaxOfRateLimiters.when"])
def max_when(eng):
    combined(eng, "when")


@contract("ratelimit.Max.num_requeues", "C06", [MOD + ":_MaxOfRateLimiters.num_requeues"])
def max_num(eng):
    combined(eng, "num_requeues")


@contract("ratelimit.Max.forget", "C06", [MOD + ":_MaxOfRateLimiters.forget"])
def max_forget(eng):
    m = mod(MOD)
    lim, lst, _ = members(eng, ())
    el, lo, hi = lst.el, lst.lo, lst.hi
    x = eng.caller_val("item").expr
    i, j = z3.Int("i!fd"), z3.Int("j!fd")
    eng.assume(z3.ForAll([i, j], z3.Implies(z3.And(lo <= i, i < j, j < hi), z3.Select(el, i) != z3.Select(el, j)),
                         patterns=[z3.MultiPattern(z3.Select(el, i), z3.Select(el, j))]))
    N = "a:ghost_forgot"
    eng.assume(z3.ForAll([i], z3.Select(eng.heap[N], z3.Select(el, i)) == V.int_(IV(0)), patterns=[z3.Select(el, i)]))

    def getattr_(v, name):
        if name != "forget":
            return NotImplemented

        def call(item):
            eng.check("C06| members forget the item that was asked for", eng.enc(item) == x)
            eng.log_write(N, v.expr)
            old = eng.heap.read(N, v.expr)
            eng.heap.write(N, v.expr, V.int_(V.ival(old) + 1))
        return call
    eng.hooks["getattr"] = getattr_

    def linv(ctx):
        return [("C06| the members visited so far were told once", z3.ForAll([i], z3.Implies(
            z3.And(lo <= i, i < hi), z3.Select(eng.heap[N], z3.Select(el, i)) ==
            V.int_(z3.If(i < lo + ctx.i, IV(1), IV(0)))), patterns=[z3.Select(el, i)]))]
    eng.loop_specs.append(LoopSpec(name="forget at every member", over=lst, inv=linv))
    out = run(lim.forget, eng.dec(x))
    no_raise(out, "C06| the combined forget raises nothing")
    k = eng.fresh("k", z3.IntSort())
    eng.assume(z3.And(lo <= k, k < hi))
    eng.check("C06| every member forgets exactly once", z3.Select(eng.heap[N], z3.Select(el, k)) == V.int_(IV(1)))
    eng.cover("forget returns")


@contract("ratelimit.default", "C06", [MOD + ":default_controller_rate_limiter"])
def default(eng):
    m = mod(MOD)
    need(m, "default_controller_rate_limiter")
    out = run(m.default_controller_rate_limiter)
    no_raise(out, "C06| the default limiter can be built")
    lim = out.value
    if type(lim).__name__ != "_MaxOfRateLimiters":
        raise Unsupported("default limiter of another type")
    ms = list(lim._limiters)
    ex = [l for l in ms if isinstance(l, m.ItemExponentialFailureRateLimiter)]
    bk = [l for l in ms if isinstance(l, m.BucketRateLimiter)]
    eng.check("C06| the default limiter is one per-item backoff and one bucket",
              z3.BoolVal(len(ms) == 2 and len(ex) == 1 and len(bk) == 1))
    eng.check("C06| default backoff: 5 ms doubling up to 1000 s",
              z3.BoolVal(ex[0]._base_delay == 0.005 and ex[0]._max_delay == 1000))
    eng.check("C06| default bucket: 10 per second, burst 100", z3.BoolVal(bk[0]._limit == 10 and bk[0]._burst == 100))


@contract("ratelimit.Bucket.forget", "C06", [MOD + ":BucketRateLimiter.forget", MOD + ":BucketRateLimiter.num_requeues"])
def bucket_forget(eng):
    """A bucket keeps no history of items: forgetting one gives no tokens back."""
    m = mod(MOD)
    need(m, "BucketRateLimiter")
    r, b = eng.real("limit"), eng.real("burst")
    eng.assume(z3.And(r.expr > 0, b.expr >= 1))
    lim = m.BucketRateLimiter(r, b)
    instance(lim, ("_limit", "_burst", "_tokens", "_last"))
    tok, last = eng.real("tokens"), eng.real("last")
    setf(lim, "_tokens", tok)
    setf(lim, "_last", last)
    x = eng.caller_val("item")
    out = run(lim.forget, x)
    no_raise(out, "C06| forgetting an item raises nothing")
    eng.check("C06| forgetting an item gives no tokens back", z3.And(
        term(real(lim._tokens)) == tok.expr, term(real(lim._last)) == last.expr))
    eng.check("C06| forgetting an item changes neither limit nor burst", z3.And(
        term(real(lim._limit)) == r.expr, term(real(lim._burst)) == b.expr))
    out = run(lim.num_requeues, x)
    no_raise(out, "C06| num_requeues of a bucket raises nothing")
    eng.check("C06| a bucket counts no failures", eng.enc(out.value) == V.int_(0))
