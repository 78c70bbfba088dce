"""Clocks: C21."""
import asyncio

from lib import check, now, run, scenario, settle, within


@scenario("C21", 3)
def fake_clock(rng):
    """Random timers, tickers, set_time, step, stop and reset on the fake clock, compared with a reference."""
    from aiok8s.util import clock

    async def go():
        t = float(rng.randrange(100))
        c = clock.FakeClock(t)
        timers, tickers = [], []
        trace = []
        for _ in range(rng.randrange(3, 40)):
            k = rng.randrange(12)
            if k < 3:
                d = rng.choice([0, 1, 2, 3, 5, 10])
                trace.append(("timer", d))
                timers.append({"t": c.new_timer(d), "due": t + d, "want": [], "got": []})
            elif k == 3:
                d = rng.choice([1, 2, 3, 5])
                trace.append(("ticker", d))
                tickers.append({"t": c.new_ticker(d), "next": t + d, "d": d, "full": False, "want": [], "got": []})
            elif k < 7:
                if rng.random() < 0.5:
                    d = rng.choice([0, 1, 1, 2, 3, 7, 20])
                    trace.append(("step", d))
                    t += d
                    await within(c.step(d), 5, f"step({d}) after {trace}")
                else:
                    t = t + rng.choice([-3, 0, 1, 2, 5, 11])
                    trace.append(("set", t))
                    await within(c.set_time(t), 5, f"set_time({t}) after {trace}")
                for x in timers:
                    if x["due"] is not None and x["due"] <= t:
                        x["want"].append(t)
                        x["due"] = None
                for x in tickers:
                    if x["next"] <= t:
                        if not x["full"]:
                            x["want"].append(t)
                            x["full"] = True
                        while x["next"] <= t:
                            x["next"] += x["d"]
            elif k < 9 and timers:
                x = rng.choice(timers)
                trace.append(("stop", timers.index(x)))
                r = x["t"].stop()
                check(r is (x["due"] is not None), lambda: f"stop returned {r}, pending: {x['due'] is not None}, after {trace}")
                x["due"] = None
            elif k == 9 and timers:
                x = rng.choice(timers)
                d = rng.choice([0, 1, 4])
                trace.append(("reset", timers.index(x), d))
                r = x["t"].reset(d)
                check(r is (x["due"] is not None), lambda: f"reset returned {r}, pending: {x['due'] is not None}, after {trace}")
                if x["due"] is not None:
                    x["due"] = t + d
            elif tickers:
                x = rng.choice(tickers)
                trace.append(("read", tickers.index(x)))
                if not x["t"].c().empty():
                    x["got"].append(x["t"].c().get_nowait())
                x["full"] = False
            check(c.now() == t, lambda: f"now is {c.now()}, set to {t}")
            check(c.since(t - 3) == 3, lambda: f"since is {c.since(t - 3)}")
            check(c.has_waiters() == bool(tickers or [x for x in timers if x["due"] is not None]), lambda:
                  f"has_waiters is {c.has_waiters()} after {trace}")
            for n, x in enumerate(timers + tickers):
                q = x["t"].c()
                seen = x["got"] + ([q._queue[0]] if not q.empty() else [])
                if x in timers and not q.empty() and rng.random() < 0.5:
                    x["got"].append(q.get_nowait())
                check(seen == x["want"], lambda: f"timer {n} gave {seen}, expected {x['want']}, after {trace}")
    run(go)


@scenario("C21")
def real_timers(rng):
    """Real timers and tickers (in virtual time): one value after the duration, none once stopped."""
    from aiok8s.util import clock

    async def go():
        c = clock.RealClock()
        jobs = []

        async def timer():
            d = rng.choice([0, 0.5, 1, 2, 7])
            t0, real0 = now(), c.now()
            t = c.new_timer(d)
            stop = rng.choice([None, 0, 0.25, 1.5, 9]) if rng.random() < 0.6 else None
            if stop is not None and stop != d:
                await asyncio.sleep(stop)
                t.stop()
                await asyncio.sleep(10)
                got = t.c().qsize()
                check(got == (1 if stop > d else 0), lambda: f"a timer of {d} stopped after {stop} gave {got} values")
            else:
                await within(t.c().get(), d + 1, f"a timer of {d}")
                check(abs(now() - t0 - d) < 1e-6, lambda: f"a timer of {d} fired after {now() - t0}")
                check(abs(c.since(real0) - d) < 1e-6, lambda: f"since is {c.since(real0)} after {d}")
                await asyncio.sleep(20)
                check(t.c().empty(), "a timer fired twice")

        async def ticker():
            d = rng.choice([0.5, 1, 3])
            t = c.new_ticker(d)
            t0 = now()
            n = rng.randrange(1, 6)
            for i in range(n):
                await within(t.c().get(), d + 1, f"tick {i} of a ticker of {d}")
                check(abs(now() - t0 - d * (i + 1)) < 1e-6, lambda: f"tick {i} of a ticker of {d} came after {now() - t0}")
            await asyncio.sleep(d * 3 + d / 2)
            check(t.c().qsize() == 1, lambda: f"{t.c().qsize()} ticks waiting")
            t.c().get_nowait()
            await asyncio.sleep(d)
            check(t.c().qsize() == 1, lambda: "a ticker does not go on after a tick was missed")
            t.c().get_nowait()
            t.stop()
            await asyncio.sleep(d * 3)
            check(t.c().empty(), "a stopped ticker ticks")
        for _ in range(rng.randrange(1, 4)):
            jobs.append(rng.choice([timer, ticker])())
        await asyncio.gather(*jobs)
    run(go, limit=1000)
