"""C05, C06: rate limiters against their arithmetic definition."""
from fractions import Fraction

from lib import set_clock, Violation, check, run, scenario, now
import asyncio


def rl():
    from aiok8s.workqueue import default_rate_limiters as m
    return m


@scenario("C05")
def exponential(rng):
    """Random histories of failures and forgets on several items against min(base*2^n, max)."""
    m = rl()
    base = rng.choice([0.001, 0.005, 1, 0.5, 2, 3.7, 1e-9, 1e-12])
    mx = rng.choice([base / 2, base, 10, 1000, 1e6])
    lim = m.ItemExponentialFailureRateLimiter(base, mx)
    n = {}
    items = ["a", "b", "c", ("t", 1)]
    for _ in range(rng.randint(1, 60)):
        x = rng.choice(items)
        op = rng.random()
        if op < 0.7:
            k = n.get(x, 0)
            if rng.random() < 0.06:
                more = rng.choice([20, 40, 70, 1500])
                for _ in range(more):
                    lim.when(x)
                k += more
            want = float(min(Fraction(base) * 2 ** k, Fraction(mx)))
            got = lim.when(x)
            check(abs(got - want) <= 1e-9 * want, f"failure {k + 1} of {x!r}: delay {got}, expected {want}")
            n[x] = k + 1
        elif op < 0.85:
            check(lim.num_requeues(x) == n.get(x, 0), f"num_requeues({x!r})={lim.num_requeues(x)}, expected {n.get(x, 0)}")
        else:
            lim.forget(x)
            n.pop(x, None)
    for x in items:
        check(lim.num_requeues(x) == n.get(x, 0), f"num_requeues({x!r})={lim.num_requeues(x)}, expected {n.get(x, 0)}")


@scenario("C06", 2)
def bucket(rng):
    """Random request times: at most b + r*T ready in any interval T, and each delay is the smallest possible."""
    m = rl()
    r = rng.choice([1, 2, 10, 0.5, 3])
    b = rng.choice([1, 2, 5, 10])

    async def main():
        lim = m.BucketRateLimiter(r, b)
        # reference: tokens
        zero = None
        ready = []
        for _ in range(rng.randint(1, 60)):
            if rng.random() < 0.5:
                await asyncio.sleep(rng.choice([0.01, 0.1, 0.5, 1, 3, 20]))
            t = now()
            d = lim.when("x")
            check(d >= 0, f"negative delay {d}")
            zero = (t - b / r if zero is None else max(zero, t - b / r)) + 1 / r
            want = max(0, zero - t)
            check(abs(d - want) < 1e-3, f"request at {t}: delay {d}, expected {want} (limit {r}, burst {b})")
            ready.append(t + d)
        for i in range(len(ready)):
            for j in range(i, len(ready)):
                T = ready[j] - ready[i]
                check(j - i + 1 <= b + r * T + 1e-2, f"{j - i + 1} requests ready within {T} s (limit {r}, burst {b})")
    run(main)


@scenario("C06", 0.5)
def set_back(rng):
    """A clock that is set back gives no tokens."""
    m = rl()
    r = rng.choice([1, 2, 10, 0.5])
    b = rng.choice([1, 2, 5, 10])

    async def main():
        lim = m.BucketRateLimiter(r, b)
        total, t0 = 0, now()
        for _ in range(rng.randint(1, 30)):
            k = rng.random()
            if k < 0.3:
                await asyncio.sleep(rng.choice([0.01, 0.5, 3]))
            elif k < 0.6:
                set_clock(-rng.choice([0.1, 1, 5, 100]))
            d = lim.when("x")
            total += 1
            # time that has really passed, and no other, gives tokens
            check(total <= b + r * (now() - t0 + d) + 1e-2, lambda: f"request {total} ready {now() - t0 + d} s "
                  f"after the first (limit {r}, burst {b}), the clock having been set back meanwhile")
    run(main)


class Member:
    def __init__(self, v, k):
        self.v, self.k, self.log = v, k, []

    def when(self, item):
        self.log.append(("when", item))
        return self.v

    def forget(self, item):
        self.log.append(("forget", item))

    def num_requeues(self, item):
        self.log.append(("num", item))
        return self.k


@scenario("C06")
def combined(rng):
    """The combination of the default limiters: maximum of both, forget reaches both."""
    m = rl()

    async def main():
        lim = m.default_controller_rate_limiter()
        zero = None
        n = {}
        r, b = 10, 100
        for _ in range(rng.choice([5, 50, 260])):
            if rng.random() < 0.1:
                await asyncio.sleep(rng.choice([0.01, 0.3, 5]))
            x = rng.choice("abc")
            if rng.random() < 0.1:
                lim.forget(x)
                n.pop(x, None)
                continue
            t = now()
            d = lim.when(x)
            zero = (t - b / r if zero is None else max(zero, t - b / r)) + 1 / r
            k = n.get(x, 0)
            want = max(0, zero - t, min(0.005 * 2 ** k, 1000))
            n[x] = k + 1
            check(abs(d - want) < 2e-3, f"default limiter: failure {k + 1}: delay {d}, expected {want}")
            check(lim.num_requeues(x) == n[x], f"num_requeues {lim.num_requeues(x)} != {n[x]}")
    run(main)


@scenario("C06", 0.5)
def max_of(rng):
    """Combination of arbitrary members, if it can be built."""
    m = rl()
    cls = getattr(m, "_MaxOfRateLimiters", None)
    if cls is None:
        return
    ms = [Member(rng.choice([0, 1, 2.5, 7]), rng.randint(0, 5)) for _ in range(rng.randint(1, 4))]
    lim = cls(*ms)
    check(lim.when("x") == max(x.v for x in ms), "when is not the largest delay")
    check(lim.num_requeues("x") == max(x.k for x in ms), "num_requeues is not the largest")
    lim.forget("y")
    for x in ms:
        check(sorted(x.log) == [("forget", "y"), ("num", "x"), ("when", "x")], f"member was asked {x.log}")
