"""C21: clocks, timers and tickers fire exactly when due and never after being stopped."""
import asyncio
import time

from aiok8s.util import _time, clock

from rv.util import yields

PROPERTY = "C21"
RULE = (
    "fake: random histories of new timers and tickers, steps, jumps (also backwards and over many intervals), concurrent steps, "
    "stops, resets and receives against an exact model, with receivers waiting or not; real_timers / real_tickers: timers and "
    "tickers of the real clock in virtual time, with waiting, late and slow receivers and stops at any instant (also at the due "
    "instant); long: tickers over hundreds of thousands of intervals. Non-trivial: something fired and something was stopped, reset "
    "or received late."
)
REQUIRED_COUNTS = (
    "fake_timers", "fake_tickers", "fake_fired", "fake_stops_pending", "fake_stops_done", "fake_resets_pending", "fake_resets_done",
    "multi_interval_steps", "backward_steps", "concurrent_steps", "real_timers", "real_fired", "real_stopped", "real_ticks",
    "late_receives", "ticker_stops", "long_ticks",
)
ASSUMPTIONS = [
    "resetting a fake timer that already fired or was stopped is judged for its answer only (the existing tests pin that it then stays silent)",
    "fake timers and tickers have positive durations; fake times are multiples of 1/8 so that sums are exact",
]


def _empty(c):
    return c.empty()


async def fake(ctx):
    rng = ctx.rng
    t0 = rng.choice([0, 1000, 1_600_000_000, 12.5])
    fc = clock.FakeClock(t0)
    now = t0
    timers = []  # dicts: obj, due (None if not pending), buf, known
    tickers = []

    def q8(lo, hi):
        return rng.randrange(int(lo * 8), int(hi * 8) + 1) / 8

    def move(t):
        nonlocal now
        now = t
        for m in timers:
            if m["due"] is not None and m["due"] <= t:
                m["due"] = None
                m["buf"] += 1
                ctx.count("fake_fired")
        for m in tickers:
            if m["due"] <= t:
                m["buf"] = 1
                n = 0
                while m["due"] <= t:
                    m["due"] += m["d"]
                    n += 1
                ctx.count("fake_fired")
                if n > 1:
                    ctx.count("multi_interval_steps")

    def verify():
        ctx.check(fc.now() == now, "the fake clock's time is not what it was set or stepped to", got=fc.now(), want=now)
        ref = rng.choice([t0, now, now + 5, 0])
        ctx.check(fc.since(ref) == now - ref, "wrong elapsed time", got=fc.since(ref), want=now - ref)
        for m in timers:
            if m["known"]:
                ctx.check(m["obj"].c().qsize() == m["buf"], "a fake timer did (not) fire", got=m["obj"].c().qsize(), want=m["buf"], timer={k: v for k, v in m.items() if k != "obj"}, now=now)
        for m in tickers:
            ctx.check(m["obj"].c().qsize() == m["buf"], "a fake ticker did (not) tick", got=m["obj"].c().qsize(), want=m["buf"], ticker={k: v for k, v in m.items() if k != "obj"}, now=now)
        if all(m["known"] for m in timers):
            want = any(m["due"] is not None for m in timers) or bool(tickers)
            ctx.check(bool(fc.has_waiters()) == want, "has_waiters is wrong", want=want)

    changed = False
    for _ in range(rng.randrange(20, 120)):
        r = rng.random()
        if r < 0.12:
            d = q8(0.125, 6)
            timers.append({"obj": fc.new_timer(d), "due": now + d, "buf": 0, "known": True})
            ctx.count("fake_timers")
            ctx.rec("timer", d)
        elif r < 0.18 and len(tickers) < 5:
            d = q8(0.125, 4)
            tickers.append({"obj": fc.new_ticker(d), "due": now + d, "d": d, "buf": 0})
            ctx.count("fake_tickers")
            ctx.rec("ticker", d)
        elif r < 0.5:
            k = rng.random()
            if k < 0.6:
                d = rng.choice([0, 0.125, q8(0, 3), q8(0, 30)])
                await fc.step(d)
                move(now + d)
                ctx.rec("step", d)
            elif k < 0.75:
                ds = [q8(0, 3) for _ in range(3)]
                await asyncio.gather(*map(fc.step, ds))
                for d in ds:
                    move(now + d)
                ctx.count("concurrent_steps")
                ctx.rec("steps", ds)
            elif k < 0.9:
                due = [m["due"] for m in timers + tickers if m["due"] is not None]
                t = rng.choice(due) - rng.choice([0, 0.125]) if due else now + 1
                if t >= now:
                    await fc.set_time(t)
                    move(t)
                    ctx.rec("set", t - t0)
            else:
                t = now - q8(0, 3)
                await fc.set_time(t)
                move(t)
                ctx.count("backward_steps")
        elif r < 0.62 and timers:
            m = rng.choice(timers)
            pending = m["due"] is not None
            got = m["obj"].stop()
            ctx.count("fake_stops_pending" if pending else "fake_stops_done")
            if m["known"]:
                ctx.check(got is pending, "stop() of a fake timer reports the wrong thing", got=got, pending=pending)
            m["due"] = None
            changed = True
        elif r < 0.75 and timers:
            m = rng.choice(timers)
            pending = m["due"] is not None
            d = q8(0.125, 6)
            got = m["obj"].reset(d)
            ctx.count("fake_resets_pending" if pending else "fake_resets_done")
            if m["known"]:
                ctx.check(got is pending, "reset() of a fake timer reports the wrong thing", got=got, pending=pending)
            if pending:
                m["due"] = now + d
            else:
                m["known"] = False
            changed = True
        elif timers or tickers:
            m = rng.choice(timers + tickers)
            if m["buf"]:
                try:
                    m["obj"].c().get_nowait()
                except asyncio.QueueEmpty:
                    if m.get("known", True):
                        ctx.fail("a due tick cannot be received")
                m["buf"] -= 1
        verify()
    # waiting receivers get their ticks too
    pend = [m for m in timers if m["known"] and m["due"] is not None and not m["buf"]]
    rs = [asyncio.ensure_future(m["obj"].c().get()) for m in pend]
    await yields(rng, 3)
    far = max([m["due"] for m in pend], default=now)
    mid = (now + far) / 2
    for t in (mid, far):
        if t < now:
            continue
        await fc.set_time(t)
        now = t
        for _ in range(4):
            await asyncio.sleep(0)
        for m, r in zip(pend, rs):
            ctx.check(r.done() == (m["due"] <= now), "a waiting receiver did (not) get its tick", due=m["due"], now=now)
    ctx.nontrivial = changed
    # passive clock
    pc = clock.FakePassiveClock(t0)
    ctx.check(pc.now() == t0, "wrong time")
    for _ in range(3):
        t = t0 + q8(0, 1000) - 50
        await pc.set_time(t)
        ctx.check(pc.now() == t and pc.since(t0) == t - t0, "a passive clock's time is not what it was set to")
    for r in rs:
        r.cancel()


def _new_timer(rng, c, d):
    if rng.random() < 0.3:
        t = _time.Timer(d)
        return t, t.c
    t = c.new_timer(d)
    return t, t.c()


async def real_timers(ctx):
    rng = ctx.rng
    loop = ctx.loop
    c = clock.RealClock()

    async def one(i):
        await asyncio.sleep(rng.random() * 5)
        d = rng.choice([0.5, rng.random() * 10, 1, 3, 0, -1, 1e-4])
        t, q = _new_timer(rng, c, d)
        ctx.count("real_timers")
        start = loop.time()
        due = start + max(0, d)
        mode = rng.choice(["wait", "late", "stop_before", "stop_at", "stop_after", "never"])
        if mode == "wait":
            await yields(rng, 2)
            got = asyncio.ensure_future(q.get())
            await asyncio.wait([got], timeout=d + 1 if d > 0 else 1)
            ctx.check(got.done(), "a timer did not fire when due", duration=d)
            ctx.check(abs(loop.time() - due) < 3e-6, "a timer fired early or late", off=loop.time() - due, duration=d)
            ctx.count("real_fired")
        elif mode == "late":
            wait = max(0, d) + rng.random() * 5 + 0.001
            await asyncio.sleep(wait)
            ctx.count("late_receives")
            ctx.check(q.qsize() == 1, "a timer nobody waited for does not hold its one tick", held=q.qsize())
            await q.get()
            ctx.count("real_fired")
        elif mode == "stop_before":
            if d > 0.001:
                await asyncio.sleep(d * rng.random() * 0.99)
                ctx.check(q.empty(), "a timer fired early")
            t.stop()
            ctx.count("real_stopped")
            if d > 0.001:
                await asyncio.sleep(d * 2 + 1)
                ctx.check(q.empty(), "a stopped timer fired")
            return
        elif mode == "stop_at":
            # at the very instant: either outcome, but consistent
            await asyncio.sleep(max(d, 0))
            await yields(rng, 3)
            t.stop()
            n = None
            for _ in range(3):
                await asyncio.sleep(0)
            n = q.qsize()
            await asyncio.sleep(5)
            ctx.check(q.qsize() == n <= 1, "a stopped timer fired")
            ctx.count("real_stopped")
            return
        elif mode == "stop_after":
            await asyncio.sleep(max(d, 0) + 0.001)
            t.stop()
            ctx.check(q.qsize() == 1, "a timer did not fire when due")
            await q.get()
            ctx.count("real_fired")
        else:
            got = asyncio.ensure_future(q.get())
            await asyncio.wait([got], timeout=max(d, 0) + 5)
            ctx.check(got.done(), "a timer did not fire when due", duration=d)
        ctx.rec(i, mode, round(d, 4))
        t.stop()
        await asyncio.sleep(rng.random() * 30)
        ctx.check(q.empty(), "a timer ticked more than once")

    await asyncio.gather(*(one(i) for i in range(rng.randrange(1, 12))))
    a = c.now()
    ctx.check(abs(a - time.time()) < 1e-5, "the real clock is wrong")
    await asyncio.sleep(2)
    ctx.check(abs(c.since(a) - 2) < 1e-5, "the real clock's elapsed time is wrong", got=c.since(a))
    ctx.nontrivial = True


def _new_ticker(rng, c, d):
    if rng.random() < 0.3:
        t = _time.Ticker(d)
        return t, t.c
    t = c.new_ticker(d)
    return t, t.c()


async def real_tickers(ctx):
    rng = ctx.rng
    loop = ctx.loop
    c = clock.RealClock()

    async def one(i):
        await asyncio.sleep(rng.random() * 5)
        d = rng.choice([0.1, 1, 2.5, 7, 0.01 + rng.random()])
        t, q = _new_ticker(rng, c, d)
        start = loop.time()
        k = 1  # next tick that has not been looked at
        tol = 1e-6
        for _ in range(rng.randrange(3, 40)):
            if rng.random() < 0.4:
                p = rng.random() * d * rng.choice([0.5, 1, 3, 20])
                # keep away from tick instants
                frac = ((loop.time() + p - start) / d) % 1
                if frac < 0.1 or frac > 0.9:
                    p += d * 0.2
                await asyncio.sleep(p)
            passed = int((loop.time() - start) / d + 1e-9)
            held = passed >= k
            ctx.check(q.qsize() == (1 if held else 0), "a ticker does not hold exactly the one tick a slow receiver missed", held=q.qsize(), passed=passed, k=k, d=d)
            if held:
                ctx.count("late_receives")
                await q.get()
                k = passed + 1
                ctx.check(q.empty(), "a ticker buffered more than one tick")
            else:
                got = asyncio.ensure_future(q.get())
                await asyncio.wait([got], timeout=2 * d + 1)
                ctx.check(got.done(), "a ticker stopped ticking", d=d, k=k)
                ctx.check(abs(loop.time() - (start + k * d)) < tol + k * 1e-6, "a tick came at the wrong time", off=loop.time() - (start + k * d), k=k, d=d)
                k += 1
            ctx.count("real_ticks")
        if rng.random() < 0.7:
            await asyncio.sleep(d * rng.random() * 2)
            t.stop()
            for _ in range(3):
                await asyncio.sleep(0)
            n = q.qsize()
            ctx.check(n <= 1, "more than one tick buffered")
            ctx.count("ticker_stops")
            if n and rng.random() < 0.5:
                await q.get()
                n = 0
            await asyncio.sleep(d * 4)
            ctx.check(q.qsize() == n, "a stopped ticker ticked")
            t.stop()
            ctx.nontrivial = True
        else:
            ctx.nontrivial = True
            t.stop()
        ctx.rec(i, k, round(d, 3))

    await asyncio.gather(*(one(i) for i in range(rng.randrange(1, 6))))


async def long(ctx):
    rng = ctx.rng
    c = clock.RealClock()
    d = rng.choice([0.01, 1, 10])
    n = 20000 if ctx.tier == "quick" else 200000
    t, q = _new_ticker(rng, c, d)
    idle = rng.random() < 0.5
    start = ctx.loop.time()
    if idle:
        await asyncio.sleep(n * d)
        ctx.check(q.qsize() == 1, "an idle ticker does not hold one tick", held=q.qsize())
        await q.get()
    else:
        for i in range(1, n):
            await q.get()
            if i % 1000 == 0:
                ctx.check(abs(ctx.loop.time() - start - i * d) < 1e-5 + i * (1e-6 + d * 1e-9), "a ticker drifts", i=i, at=ctx.loop.time() - start)
    ctx.count("long_ticks", n)
    before = ctx.loop.time()
    try:
        await asyncio.wait_for(q.get(), 1.5 * d)
    except asyncio.TimeoutError:
        ctx.fail("a ticker stopped ticking", after=n)
    ctx.check(ctx.loop.time() - before <= d + 3e-6, "a ticker ticks late")
    t.stop()
    ctx.rec(idle, d)
    ctx.nontrivial = True


SCENARIOS = {"fake": fake, "real_timers": real_timers, "real_tickers": real_tickers, "long": long}
PLAN = {
    "quick": {"fake": 2500, "real_timers": 800, "real_tickers": 500, "long": 8},
    "thorough": {"fake": 60000, "real_timers": 15000, "real_tickers": 10000, "long": 24},
}
