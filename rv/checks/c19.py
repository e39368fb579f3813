"""C19: rate limiters give exact, bounded back-off and never exceed their rate."""
import asyncio
import fractions

from aiok8s.workqueue import default_rate_limiters as drl
from aiok8s.workqueue import rate_limiting_queue

from rv import vloop
from rv.util import sync

PROPERTY = "C19"
RULE = (
    "exponential: histories of when/forget/num_requeues over several items and up to thousands of consecutive failures against exact "
    "rational arithmetic; bucket: random arrival times against an exact token bucket and the burst-plus-rate bound over every "
    "interval of the release times; combined: the default controller limiter and maxima of scripted members; queue: a rate-limited "
    "queue driven by scripted, exponential, bucket and default limiters, availability times compared with what the limiter said. "
    "Mass: hundreds to thousands of items failing at once and one by one. Non-trivial: a cap, an exhausted bucket, a forget after failures or a delayed item occurred."
)
REQUIRED_COUNTS = ("exponential_delays", "capped", "beyond_1024", "forgets", "bucket_delays", "bucket_waits", "intervals", "combined_delays", "queue_adds", "queue_handouts", "idle_buckets", "clock_changes", "hot_items", "buckets_refused")
ASSUMPTIONS = [
    "the default controller limiter combines an exponential limiter (5 ms, cap 1000 s) with a bucket (10 per second, burst 100), as documented upstream",
    "relative tolerance 1e-6 on exponential delays, 2e-5 s on bucket delays (float seconds since 1970), 5 ms on queue availability",
]


def _exp(base, cap, n):
    if n > 4000:
        return float(cap)
    return float(min(fractions.Fraction(base) * 2 ** (n - 1), fractions.Fraction(cap)))


@sync
def exponential(ctx):
    rng = ctx.rng
    base = rng.choice([0.001, 0.005, 1, 0.1, 2, 3e-6, rng.random() + 1e-3])
    cap = rng.choice([base, base * 7, 1000, 60, 1e9, base * 1024, 3600])
    if cap < base and rng.random() < 0.9:
        cap = base * 3
    lim = drl.ItemExponentialFailureRateLimiter(base, cap)
    items = rng.sample([0, 1, 2, "0", "1", "2", ("k", 0), ("k", 1), ("k", "1"), None, "None", "", "a/b", "A/b", frozenset([1])], rng.randrange(1, 6))
    fails = {}
    long = rng.random() < 0.1
    for _ in range(rng.choice([30, 200])):
        x = rng.choice(items)
        r = rng.random()
        if r < 0.7:
            runs = rng.choice([300, 1100, 2500]) if long and rng.random() < 0.1 else rng.randrange(1, 8)
            for _ in range(runs):
                fails[x] = fails.get(x, 0) + 1
                got = lim.when(x)
                want = _exp(base, cap, fails[x])
                ctx.count("exponential_delays")
                if want == cap:
                    ctx.count("capped")
                if fails[x] > 1024:
                    ctx.count("beyond_1024")
                ctx.check(abs(got - want) <= 1e-6 * want, "wrong back-off", failure=fails[x], got=got, want=want, base=base, cap=cap)
            ctx.rec("when", repr(x), fails[x], got)
            ctx.nontrivial |= fails[x] > 3
        elif r < 0.82:
            lim.forget(x)
            if fails.get(x):
                ctx.count("forgets")
            fails[x] = 0
            ctx.rec("forget", repr(x))
        got = lim.num_requeues(x)
        ctx.check(got == fails.get(x, 0), "wrong number of requeues", got=got, want=fails.get(x, 0))
        y = ("never", "seen")
        ctx.check(lim.num_requeues(y) == 0, "an item that never failed has requeues")
        if rng.random() < 0.05:
            lim.forget(y)


class Bucket:
    """Reference: exact bucket with reservations; starts full."""

    def __init__(self, rate, burst):
        self.rate = fractions.Fraction(rate)
        self.burst = fractions.Fraction(burst)
        self.tokens = self.burst
        self.last = None

    def when(self, now):
        now = fractions.Fraction(now)
        if self.last is not None and now > self.last:
            self.tokens = min(self.burst, self.tokens + (now - self.last) * self.rate)
        self.last = now
        self.tokens -= 1
        return float(-self.tokens / self.rate) if self.tokens < 0 else 0.0


def _arrivals(rng, rate, burst):
    gap = 1 / rate
    mode = rng.choice(["burst", "even", "mix", "idle"])
    n = rng.randrange(5, 3 * burst + 60) if burst < 200 else rng.randrange(100, 500)
    for i in range(n):
        if mode == "burst":
            dt = 0 if rng.random() < 0.9 else rng.random() * gap * burst * 2
        elif mode == "even":
            dt = gap * rng.choice([0.5, 0.9, 1, 1.1])
        elif mode == "mix":
            dt = rng.choice([0, 0, gap * rng.random(), gap * 5 * rng.random()])
        else:
            dt = 0 if rng.random() < 0.95 else gap * burst * (1 + 50 * rng.random())
        yield dt, mode


async def bucket(ctx):
    rng = ctx.rng
    rate = rng.choice([0.1, 1, 10, 50, 3.5, 1000])
    burst = rng.choice([1, 2, 5, 10, 100])
    await asyncio.sleep(rng.random() * 10)
    try:
        drl.BucketRateLimiter(*rng.choice([(0, burst), (-rate, burst), (rate, 0), (rate, -burst)]))
    except Exception:
        ctx.count("buckets_refused")
    else:
        ctx.fail("a bucket that could never let anything through was made")
    lim = drl.BucketRateLimiter(rate, burst)
    ref = Bucket(rate, burst)
    rel = []
    tol = 2e-5 + 1e-6 / rate
    resets = rng.random() < 0.2  # the wall clock is set back now and then
    changed = False
    for dt, mode in _arrivals(rng, rate, burst):
        if dt:
            await asyncio.sleep(dt)
        if mode == "idle" and dt:
            ctx.count("idle_buckets")
        if resets and rng.random() < 0.05:
            vloop.skew -= rng.choice([0.5, 60, 7200])
            changed = True
            ctx.count("clock_changes")
        now = ctx.loop.time()
        got = lim.when(rng.choice(["a", "b", 3]))
        want = ref.when(now + vloop.skew)
        ctx.count("bucket_delays")
        if want > 0:
            ctx.count("bucket_waits")
            ctx.nontrivial = True
        ctx.check(got >= 0, "negative delay", got=got)
        if changed:
            # at worst, the time since the last event before the change does not count
            ctx.check(got <= want + tol, "a clock set back delays events by more than the rate requires", got=got, want=want, rate=rate, burst=burst)
            rel.append(now + got)
            continue
        ctx.check(abs(got - want) <= tol, "the bucket delays an event more or less than its rate requires", got=got, want=want, rate=rate, burst=burst, at=now, n=len(rel))
        rel.append(now + got)
        ctx.rec(round(got, 5))
        if rng.random() < 0.05:
            lim.forget("a")
        ctx.check(lim.num_requeues("a") == 0, "a bucket counts requeues")
    # the bound over every interval, from the observed release times only
    rel.sort()
    for i in range(len(rel)):
        for j in range(i + burst, min(len(rel), i + burst + 40)):
            ctx.counts["intervals"] += 1
            if j - i + 1 > burst + rate * (rel[j] - rel[i]) + rate * 2 * tol + 1e-3:
                ctx.fail("more events let through than burst plus rate times elapsed time", events=j - i + 1, elapsed=rel[j] - rel[i], rate=rate, burst=burst)


class Scripted:
    def __init__(self, rng):
        self.rng = rng
        self.n = {}
        self.calls = []
        self.last = None

    def when(self, item):
        self.last = self.rng.choice([0, self.rng.random() * 5, 0.5])
        self.n[item] = self.n.get(item, 0) + self.rng.choice([1, 1, 2])
        self.calls.append(("when", item))
        return self.last

    def forget(self, item):
        self.calls.append(("forget", item))
        self.n.pop(item, None)

    def num_requeues(self, item):
        return self.n.get(item, 0)


async def combined(ctx):
    rng = ctx.rng
    MaxOf = getattr(drl, "MaxOfRateLimiter", None) or getattr(drl, "_MaxOfRateLimiters", None)
    if MaxOf is not None and rng.random() < 0.6:
        members = [Scripted(rng) for _ in range(rng.randrange(1, 5))]
        lim = MaxOf(*members)
        for _ in range(rng.randrange(10, 60)):
            x = rng.choice("abc")
            r = rng.random()
            if r < 0.6:
                before = [len(m.calls) for m in members]
                got = lim.when(x)
                ctx.count("combined_delays")
                ctx.check(all(len(m.calls) == b + 1 for m, b in zip(members, before)), "not every member was asked exactly once")
                ctx.check(got == max(m.last for m in members), "a combined limiter does not delay by the largest member delay", got=got, members=[m.last for m in members])
            elif r < 0.8:
                lim.forget(x)
                ctx.count("forgets")
                ctx.check(all(m.calls and m.calls[-1] == ("forget", x) for m in members), "forgetting does not reach every member")
            want = max(m.num_requeues(x) for m in members)
            ctx.check(lim.num_requeues(x) == want, "a combined limiter does not report the largest count", got=lim.num_requeues(x), want=want)
            ctx.rec(r < 0.6, x, want)
        ctx.nontrivial = len(members) > 1
        return
    lim = drl.default_controller_rate_limiter()
    ref = Bucket(10, 100)
    fails = {}
    items = list(range(rng.choice([1, 3, 200])))
    sleepy = rng.random() < 0.3
    script = []
    if rng.random() < 0.3:
        # one item that fails again and again, then others for the first time
        ctx.count("hot_items")
        script = ["hot"] * rng.randrange(20, 140) + ["fresh%d" % i for i in range(rng.randrange(1, 140))]
    for _ in range(rng.choice([20, 150, 400])):
        if rng.random() < 0.2 and not (script and not sleepy):
            await asyncio.sleep(rng.choice([0.05, 0.5, 20]) * rng.random())
        x = script.pop(0) if script else rng.choice(items)
        if rng.random() < 0.1 and not script:
            lim.forget(x)
            ctx.count("forgets")
            fails[x] = 0
        else:
            fails[x] = fails.get(x, 0) + 1
            got = lim.when(x)
            want = max(_exp(0.005, 1000, fails[x]), ref.when(ctx.loop.time()))
            ctx.count("combined_delays")
            if fails[x] > 3:
                ctx.nontrivial = True
            ctx.check(abs(got - want) <= 2e-5 + 1e-6 * want, "the default limiter's delay is not the largest of its members'", got=got, want=want, failures=fails[x])
            ctx.rec(round(got, 4))
        ctx.check(lim.num_requeues(x) == fails[x], "the default limiter reports a wrong count", got=lim.num_requeues(x), want=fails[x])


async def queue(ctx):
    rng = ctx.rng
    which = rng.choice(["scripted", "exp", "bucket", "default", "none"])
    loop = ctx.loop
    base = None
    if which == "scripted":
        inner = Scripted(rng)
    elif which == "exp":
        inner = drl.ItemExponentialFailureRateLimiter(0.005, 20)
    elif which == "bucket":
        inner = drl.BucketRateLimiter(5, 3)
    else:
        inner = drl.default_controller_rate_limiter()

    class Spy:
        def when(self, item):
            d = inner.when(item)
            said.append((loop.time(), item, d))
            return d

        def forget(self, item):
            calls.append(("forget", item))
            inner.forget(item)

        def num_requeues(self, item):
            return inner.num_requeues(item)

    said = []
    calls = []
    spy = Spy()
    q = rate_limiting_queue.new(None if which == "none" else spy)
    del base
    seen = []

    async def consumer():
        while True:
            x, shut = await q.get()
            if shut:
                return
            seen.append((loop.time(), x))
            ctx.count("queue_handouts")
            await q.done(x)

    c = asyncio.ensure_future(consumer())
    items = list(range(rng.randrange(1, 6)))
    fails = {}
    ref = Bucket(10, 100)
    pending = {}
    want = []

    def settle(t):
        for x, due in list(pending.items()):
            if due <= t:
                want.append((due, x))
                del pending[x]

    for _ in range(rng.randrange(5, 80)):
        if rng.random() < 0.5:
            await asyncio.sleep(rng.random() * rng.choice([0.1, 1, 5]))
        x = rng.choice(items)
        r = rng.random()
        now = loop.time()
        settle(now)
        if r < 0.75:
            n = len(said)
            await q.add_rate_limited(x)
            ctx.count("queue_adds")
            fails[x] = fails.get(x, 0) + 1
            if which == "none":
                d = max(_exp(0.005, 1000, fails[x]), ref.when(now))
            else:
                ctx.check(len(said) == n + 1 and said[-1][1] == x, "the limiter was not asked exactly once about the item")
                d = said[-1][2]
            if d > 0:
                ctx.nontrivial = True
                pending[x] = min(pending.get(x, now + d), now + d)
            else:
                want.append((now, x))
        else:
            q.forget(x)
            ctx.count("forgets")
            fails[x] = 0
            if which != "none":
                ctx.check(calls and calls[-1] == ("forget", x), "forget does not reach the limiter")
        n = q.num_requeues(x)
        w = fails.get(x, 0) if which == "none" else inner.num_requeues(x)
        ctx.check(n == w, "num_requeues is not what the limiter says", got=n, want=w)
    await asyncio.sleep(1100)
    settle(loop.time())
    await q.shut_down()
    await asyncio.wait_for(c, 5)
    for x in items:
        w = sorted(t for t, y in want if y == x)
        g = sorted(t for t, y in seen if y == x)
        j, last = 0, None
        for t in w:
            if j < len(g) and t - 2e-5 <= g[j] <= t + 5e-3:
                last = g[j]
                j += 1
            else:
                ctx.check(last is not None and abs(t - last) <= 5e-3, "a rate limited item did not become available when the limiter said", item=x, due=t, handouts=g, want=w)
        ctx.check(j == len(g), "a rate limited item became available at another time than the limiter said", item=x, handouts=g, want=w)
        ctx.rec(x, [round(t, 3) for t in g])


@sync
def mass(ctx):
    """Thousands of items fail, each counted on its own."""
    rng = ctx.rng
    n = rng.choice([600, 1200, 3000])
    lim = drl.ItemExponentialFailureRateLimiter(0.005, 1000)
    fails = {}
    for turn in range(3):
        for i in range(n):
            fails[i] = fails.get(i, 0) + 1
            got = lim.when(i)
            ctx.count("exponential_delays")
            ctx.check(abs(got - _exp(0.005, 1000, fails[i])) <= 1e-9, "wrong back-off of one of very many items", failure=fails[i], got=got)
            if rng.random() < 0.05:
                lim.forget(i)
                fails[i] = 0
                ctx.count("forgets")
    for i in range(n):
        ctx.check(lim.num_requeues(i) == fails[i], "wrong number of requeues of one of very many items", got=lim.num_requeues(i), want=fails[i])
    ctx.rec("mass", n)
    ctx.nontrivial = True


SCENARIOS = {"mass": mass, "exponential": exponential, "bucket": bucket, "combined": combined, "queue": queue}
PLAN = {
    "quick": {"mass": 6, "exponential": 600, "bucket": 500, "combined": 500, "queue": 400},
    "thorough": {"mass": 100, "exponential": 8000, "bucket": 8000, "combined": 10000, "queue": 10000},
}
