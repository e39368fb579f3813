"""C18: a delayed add becomes available at its due time, neither early nor late."""
import asyncio

from rv import vloop, wq
from rv.util import horizon, yields

PROPERTY = "C18"
RULE = (
    "prompt: random delayed and immediate adds (repeats of the same item, bursts of hundreds at once) with consumers that take "
    "items at once, every hand-out time compared with a reference simulation; idle: no consumer, the length probed just before and "
    "just after each due time, then drained in order; held: items scheduled while held by a worker; busy: other code keeps the loop busy for up to seconds, around adds of all kinds; tiny and ages: delays from microseconds to days. Virtual time, so the times are "
    "exact. Non-trivial: at least two delayed adds were pending at once."
)
REQUIRED_COUNTS = (
    "delayed_adds", "immediate_adds", "nonpositive_delays", "earlier_reschedules", "later_reschedules", "rescheduled_after_available",
    "handouts", "probes", "held_dues", "bursts", "same_at_once", "blocks", "busy_probes", "tiny_delays", "ages_waited",
)
ASSUMPTIONS = [
    "'an instant' is 5 ms of virtual time; the clock of the queue has microsecond resolution (floating point seconds since 1970)",
    "delays are at least ten microseconds",
]
TOL = 5e-3
EPS = 1e-5


def _delay(rng):
    r = rng.random()
    if r < 0.1:
        return rng.choice([0, -1, -0.001])
    if r < 0.6:
        return 0.002 + rng.random() * 5
    if r < 0.8:
        return 0.01 + rng.random() * 30
    if r < 0.9:
        return float(rng.randrange(1, 60))
    return rng.random() * 3000 + 1


class Model:
    """pending: item -> earliest due.  out: list of (time, item) availabilities, filled lazily."""

    def __init__(self, ctx):
        self.ctx = ctx
        self.pending = {}
        self.out = []
        self.ever = set()

    def advance(self, t):
        for x, due in sorted(self.pending.items(), key=lambda e: e[1]):
            if due <= t:
                del self.pending[x]
                self.out.append((due, x))
                self.ever.add(x)

    def add(self, t, x):
        self.advance(t)
        self.out.append((t, x))
        self.ctx.count("immediate_adds")

    def add_after(self, t, x, d):
        self.advance(t)
        if d <= 0:
            self.ctx.count("nonpositive_delays")
            self.out.append((t, x))
            return
        self.ctx.count("delayed_adds")
        if x in self.pending:
            self.ctx.count("earlier_reschedules" if t + d < self.pending[x] else "later_reschedules")
        elif x in self.ever:
            self.ctx.count("rescheduled_after_available")
        self.pending[x] = min(self.pending.get(x, t + d), t + d)


async def _program(ctx, q, model, kind, limiter):
    """Issues adds; returns the last due time."""
    rng = ctx.rng
    loop = ctx.loop
    items = list(range(rng.randrange(1, 8)))
    peak = 0

    async def one(x, d):
        # model first: calls may suspend inside
        if kind == "ratelimited" and rng.random() < 0.3:
            limiter.delays[x] = d
            model.add_after(loop.time(), x, d)
            await q.add_rate_limited(x)
        elif rng.random() < 0.15:
            model.add(loop.time(), x)
            await q.add(x)
        else:
            model.add_after(loop.time(), x, d)
            await q.add_after(x, d)

    n = rng.randrange(5, 60)
    for i in range(n):
        if rng.random() < 0.4:
            await asyncio.sleep(rng.random() * rng.choice([0.1, 2, 2, 20]))
        elif rng.random() < 0.1:
            # close to the next due instant
            nxt = min(model.pending.values(), default=0) - loop.time()
            if nxt > 0.01:
                await asyncio.sleep(nxt - 0.006 + rng.choice([0, 0.012]))
        if rng.random() < 0.015:
            ctx.count("bursts")
            m = rng.choice([20, 20, 400, 1300])
            base = rng.random() * 5
            step = rng.choice([0, 0.001, -0.001])
            await asyncio.gather(*(one(("b", i, j), 2 + base + j * step) for j in range(m)))
        elif rng.random() < 0.2:
            # at once, also several of the same item
            xs = rng.sample(items, rng.randrange(1, len(items) + 1)) if rng.random() < 0.5 else rng.choices(items, k=rng.randrange(2, 9))
            if len(set(xs)) < len(xs):
                ctx.count("same_at_once")
            await asyncio.gather(*(one(x, _delay(rng)) for x in xs))
        else:
            await one(rng.choice(items), _delay(rng))
        peak = max(peak, len(model.pending))
    ctx.nontrivial = peak >= 2
    return max(model.pending.values(), default=loop.time())


async def prompt(ctx):
    rng = ctx.rng
    kind = rng.choice(wq.KINDS[1:])
    limiter = wq.FixedLimiter()
    q = wq.make(kind, limiter)
    model = Model(ctx)
    seen = []

    async def consumer():
        while True:
            x, shut = await q.get()
            if shut:
                return
            seen.append((ctx.loop.time(), x))
            ctx.rec("got", x)
            ctx.count("handouts")
            await q.done(x)

    cs = [asyncio.ensure_future(consumer()) for _ in range(rng.randrange(1, 4))]
    await yields(rng, 3)
    end = await _program(ctx, q, model, kind, limiter)
    await asyncio.sleep(end - ctx.loop.time() + 1)
    model.advance(ctx.loop.time())
    await asyncio.sleep(rng.choice([0, 0, 100]))
    await q.shut_down()
    await asyncio.wait_for(asyncio.gather(*cs), 5)
    want = {}
    for t, x in model.out:
        want.setdefault(x, []).append(t)
    got = {}
    for t, x in seen:
        got.setdefault(x, []).append(t)
    for x in set(want) | set(got):
        w, g = sorted(want.get(x, [])), sorted(got.get(x, []))
        # match greedily; two availabilities of an item within an instant may be taken once
        j = 0
        last = None
        for t in w:
            if j < len(g) and t - EPS <= g[j] <= t + TOL:
                last = g[j]
                j += 1
            else:
                ctx.check(last is not None and abs(t - last) <= TOL, "an item did not become available at its due time", item=x, due=t, handouts=g, want=w)
        ctx.check(j == len(g), "an item became available at a time nothing was due", item=x, handouts=g, want=w)
    # order of due time among hand-outs
    order = [x for _, x in seen]
    due_of = []
    for t, x in seen:
        c = [d for d in want[x] if t - TOL <= d <= t + EPS]
        due_of.append((min(c), max(c)))
    for (a_lo, _), (_, b_hi) in zip(due_of, due_of[1:]):
        ctx.check(a_lo <= b_hi + 2 * EPS, "items were not handed out in order of due time", order=order[:50], dues=due_of[:50])


async def idle(ctx):
    rng = ctx.rng
    kind = rng.choice(wq.KINDS[1:])
    limiter = wq.FixedLimiter()
    q = wq.make(kind, limiter)
    model = Model(ctx)
    await yields(rng, 3)

    def probe():
        model.advance(ctx.loop.time() - TOL)
        lo = len({x for _, x in model.out})
        hi = len({x for _, x in model.out} | {x for x, d in model.pending.items() if d <= ctx.loop.time() + EPS})
        ctx.count("probes")
        ctx.check(lo <= len(q) <= hi, "an item became available early or late", length=len(q), want=(lo, hi))

    async def prober():
        while True:
            nxt = min((d for d in model.pending.values() if d > ctx.loop.time() + EPS), default=None)
            if nxt is None:
                if done:
                    return
                await asyncio.sleep(0.05)
            else:
                left = nxt - ctx.loop.time()
                if left > 0.0015:
                    await asyncio.sleep(min(left - 0.001, 0.05))
                else:
                    await asyncio.sleep(left + TOL + 1e-4)
            probe()

    done = False
    p = asyncio.ensure_future(prober())
    r = rng.getstate()
    end = await _program(ctx, q, model, kind, limiter)
    done = True
    del r
    end = min(end, ctx.loop.time() + 60)
    await asyncio.sleep(max(0, end - ctx.loop.time()) + 1)
    if p.done():
        await p
    p.cancel()
    await asyncio.gather(p, return_exceptions=True)
    if ctx.first:
        raise ctx.first
    probe()
    first = {}
    for t, x in model.out:
        first[x] = min(first.get(x, t), t)
    last = 0
    for _ in range(len(q)):
        x, shut = await asyncio.wait_for(q.get(), 1)
        ctx.count("handouts")
        ctx.rec("got", x)
        ctx.check(x in first, "an item that is not due was handed out", item=x)
        ctx.check(first[x] >= last - 2 * EPS, "items were not handed out in the order they became due", item=x, due=first[x], previous=last)
        last = max(last, first[x])
        await q.done(x)
    ctx.check(not len(q), "items remain")
    await q.shut_down()


async def held(ctx):
    """One item, scheduled at random while it is waiting, held or free."""
    rng = ctx.rng
    kind = rng.choice(wq.KINDS[1:])
    q = wq.make(kind)
    loop = ctx.loop
    pending = None  # due
    dirty = held_now = False
    others = 0
    for _ in range(rng.randrange(5, 40)):
        r = rng.random()
        if r < 0.45:
            d = 0.01 + rng.random() * 5
            await q.add_after("x", d)
            due = loop.time() + d
            pending = due if pending is None else min(pending, due)
            ctx.count("delayed_adds")
        elif r < 0.6:
            others += 1
            await q.add_after(("o", others), 1e6)
        elif r < 0.75 and held_now:
            await q.done("x")
            held_now = False
        elif r < 0.9 and dirty and not held_now:
            x, shut = await asyncio.wait_for(q.get(), 1)
            ctx.check(x == "x" and not shut, "get returned the wrong item", got=x)
            dirty = False
            held_now = True
            ctx.count("handouts")
        else:
            dt = rng.random() * 3
            if pending is not None and abs(pending - loop.time() - dt) < 0.01:
                dt += 0.02
            await asyncio.sleep(dt)
            if pending is not None and pending <= loop.time():
                pending = None
                dirty = True
                if held_now:
                    ctx.count("held_dues")
                    ctx.nontrivial = True
        want = 1 if dirty and not held_now else 0
        ctx.rec(len(q), want, held_now)
        ctx.count("probes")
        ctx.check(len(q) == want, "an item scheduled while held or waiting is (not) available at the wrong time", length=len(q), want=want, held=held_now)
    await q.shut_down()


async def busy(ctx):
    """Other code keeps the loop busy for up to seconds at a time."""
    rng = ctx.rng
    loop = ctx.loop
    q = wq.make(rng.choice(wq.KINDS[1:]))
    due = {}  # item -> when it becomes available at the earliest
    latest = {}  # item -> when it does at the latest
    there = []
    n = 0

    async def add(item, d):
        due[item] = loop.time() + d
        await q.add_after(item, d)
        latest[item] = loop.time() + d

    await yields(rng, 3)
    for _ in range(rng.randrange(5, 40)):
        x = rng.random()
        if x < 0.5:
            adds = []
            for _ in range(rng.choice([1, 1, 2, 5])):
                # one scheduled anew just when it gets due may be available once or twice
                n += 1
                d = rng.choice([0.002, 0.05, 1, 5]) * (0.5 + rng.random())
                adds.append(asyncio.ensure_future(add(n, d)))
            if rng.random() < 0.5:
                await yields(rng, rng.choice([1, 3, 6]))
            if rng.random() < 0.5:
                ctx.count("blocks")
                vloop.block(rng.choice([0.01, 1, 4]) * rng.random())
            if adds:
                await asyncio.wait(adds)
        elif x < 0.75:
            ctx.count("blocks")
            vloop.block(rng.choice([0.01, 1, 30]) * rng.random())
        else:
            await asyncio.sleep(rng.choice([0, 0.01, 2, 20]) * rng.random())
        early = [i for i, d in due.items() if d <= loop.time() + EPS]
        ctx.check(len(q) <= len(early), "an item became available before it was due", length=len(q), due=len(early))
        await asyncio.sleep(TOL)
        gone = [i for i, d in latest.items() if d <= loop.time() - TOL + EPS]
        soon = [i for i, d in due.items() if d <= loop.time() + EPS]
        ctx.count("busy_probes")
        ctx.check(len(gone) <= len(q) <= len(soon), "an item that became due while the loop was busy is not available soon after", length=len(q), want=(len(gone), len(soon)))
        if len(gone) > 3 and len(gone) == len(soon) == len(q) and rng.random() < 0.3:
            # what has become available is exactly what was due
            got = set()
            for _ in range(len(gone)):
                item, _ = await asyncio.wait_for(q.get(), 1)
                got.add(item)
                await q.done(item)
            ctx.check(got == set(gone), "another item became available than the one that was due", got=sorted(got), want=sorted(gone))
            there += gone
            for i in gone:
                del due[i]
                del latest[i]
            ctx.count("handouts", len(gone))
    await asyncio.sleep(60)
    ctx.check(len(q) == len(due), "an item was lost while the loop was busy", length=len(q), want=len(due))
    ctx.nontrivial = ctx.counts["blocks"] > 1
    ctx.rec(n, len(there))
    await q.shut_down()


async def tiny(ctx):
    """Delays far below a millisecond are waited for, too."""
    rng = ctx.rng
    loop = ctx.loop
    q = wq.make(rng.choice(wq.KINDS[1:]))
    await yields(rng, 3)
    for i in range(rng.randrange(1, 10)):
        d = 10 ** -rng.uniform(2, 5)
        due = loop.time() + d
        await q.add_after(i, d)
        ctx.count("tiny_delays")
        while not len(q) and loop.time() < due + TOL:
            await (yields(rng, 2) if rng.random() < 0.2 else asyncio.sleep(d / 5))
        now = loop.time()
        x, _ = await asyncio.wait_for(q.get(), 1)
        ctx.check(x == i and due - 2e-6 <= now <= due + TOL, "an item with a tiny delay is available early or late", item=x, delay=d, after=now - due + d)
        await q.done(x)
        ctx.rec(i, round(d, 7))
    ctx.nontrivial = True
    await q.shut_down()


@horizon(1e8)
async def ages(ctx):
    """Delays of days."""
    rng = ctx.rng
    loop = ctx.loop
    q = wq.make(rng.choice(wq.KINDS[1:]))
    day = 86400
    dues = {}
    for i in range(rng.randrange(1, 4)):
        d = day * rng.choice([1, 2.5, 7, 8, 9]) + rng.random()
        dues[i] = loop.time() + d
        await q.add_after(i, d)
        ctx.count("ages_waited")
    for i, due in sorted(dues.items(), key=lambda e: e[1]):
        x, _ = await asyncio.wait_for(q.get(), 1e7)
        ctx.check(x == i and due - EPS <= loop.time() <= due + TOL, "an item with a very long delay is available early or late", item=x, want=i, early_by=due - loop.time())
        await q.done(x)
        ctx.rec(i, due)
    ctx.nontrivial = len(dues) > 1
    await q.shut_down()


SCENARIOS = {"ages": ages, "tiny": tiny, "busy": busy, "prompt": prompt, "idle": idle, "held": held}
PLAN = {
    "quick": {"ages": 8, "tiny": 200, "busy": 400, "prompt": 500, "idle": 250, "held": 1500},
    "thorough": {"ages": 40, "tiny": 4000, "busy": 10000, "prompt": 10000, "idle": 4000, "held": 30000},
}
