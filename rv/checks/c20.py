"""C20: retry, back-off and polling helpers keep their timing and counting contracts."""
import asyncio

from aiok8s.util import retry, wait

from rv.util import horizon, sync

PROPERTY = "C20"
RULE = (
    "backoff: exponential_backoff with random settings, condition scripts (durations, success, exceptions) in virtual time: number "
    "and times of calls, result, untouched settings; step: Backoff.step sequences against the documented recurrence; loops: loop, "
    "jitter_loop, until, jitter_until with random function durations, sliding or not, jitter, stops and cancellations at any instant; "
    "polls: the four poll helpers with timeouts and exceptions. Non-trivial: more than one call was made and timed."
)
REQUIRED_COUNTS = (
    "condition_calls", "backoff_timeouts", "backoff_successes", "negative_or_zero_steps", "capped_backoffs", "steps", "loop_calls",
    "sliding_gaps", "fixed_gaps", "overruns", "jittered_gaps", "stops", "stops_in_call", "cancels", "poll_calls", "poll_timeouts",
    "poll_successes", "exceptions", "timeout_exceptions",
)
ASSUMPTIONS = [
    "once the cap is exceeded a back-off may give up early, as documented upstream (steps become zero)",
    "poll helpers may measure the interval from the start or the end of a condition call",
    "timeouts of polls are positive; the first check of poll_immediate is not bounded by the timeout",
]
EPS = 1e-6


class Boom(Exception):
    pass


def _error(ctx, rng):
    e = rng.choice([Boom("x"), ValueError(1), asyncio.TimeoutError(), TimeoutError("t"), KeyError("k"), wait.WaitTimeoutError("mine")])
    ctx.count("exceptions")
    if isinstance(e, TimeoutError):
        ctx.count("timeout_exceptions")
    return e


class Calls:
    """Records the calls of a function, which lasts scripted times and fails or succeeds at scripted calls."""

    def __init__(self, ctx, *, durations, succeed_at=None, fail_at=None, error=None, false=False):
        self.ctx = ctx
        self.durations = durations
        self.succeed_at = succeed_at
        self.fail_at = fail_at
        self.error = error
        self.false = false
        self.starts = []
        self.ends = []
        self.running = 0
        self.on_call = None
        self.interrupted = 0

    async def __call__(self):
        ctx = self.ctx
        ctx.check(self.running == 0, "two calls run at the same time")
        self.running += 1
        self.starts.append(ctx.loop.time())
        n = len(self.starts)
        ctx.rec("call", n)
        try:
            if self.on_call:
                await self.on_call(n)
            d = self.durations(n)
            if d:
                await asyncio.sleep(d)
            if self.fail_at == n:
                raise self.error
            return self.ctx.rng.choice([True, 1, "yes"]) if self.succeed_at == n else self.ctx.rng.choice([False, None, 0, ""])
        except asyncio.CancelledError:
            self.interrupted += 1
            raise
        finally:
            self.running -= 1
            self.ends.append(ctx.loop.time())


def _durations(rng, scale):
    table = [rng.choice([0, 0, scale * rng.random(), scale * 2.7 * rng.random()]) for _ in range(200)]
    return lambda n: table[n % 200]


@horizon(1e10)
async def backoff(ctx):
    rng = ctx.rng
    steps = rng.choice([-3, -1, 0, 1, 2, 3, 5, 8, 12])
    dur = rng.choice([0, 0.01, 1, 0.5, 10])
    factor = rng.choice([0, 1, 2, 3, 1.5, 0.5])
    jit = rng.choice([0, 0, 0.1, 1, 3])
    cap = rng.choice([0, 0, dur * 3, dur * 10])
    use_default = rng.random() < 0.1
    b = retry.default_retry if use_default else wait.Backoff(steps=steps, duration=dur, factor=factor, jitter=jit, cap=cap)
    steps, dur, factor, jit, cap = b.steps, b.duration, b.factor, b.jitter, b.cap
    before = dict(vars(b))
    calls = Calls(ctx, durations=_durations(rng, 0.5))
    r = rng.random()
    err = None
    if r < 0.35:
        calls.succeed_at = rng.randrange(1, max(2, steps + 3))
    elif r < 0.5:
        calls.fail_at = rng.randrange(1, max(2, steps + 2))
        err = calls.error = _error(ctx, rng)
    if steps <= 0:
        ctx.count("negative_or_zero_steps")
    task = asyncio.ensure_future(wait.exponential_backoff(b, calls))
    await asyncio.wait([task], timeout=10**9)
    ctx.check(task.done(), "a retry with back-off does not end", steps=steps, calls=len(calls.starts))
    n = len(calls.starts)
    ctx.count("condition_calls", n)
    ctx.check(n <= max(0, steps), "the condition was called more often than the number of steps", calls=n, steps=steps)
    # fewest calls allowed: until the cap is exceeded
    least, d, left = 0, dur, steps
    while left > 0:
        least += 1
        if left == 1:
            break
        left -= 1
        if factor:
            d *= factor
            if cap and d > cap:
                ctx.count("capped_backoffs")
                left = 0
    got = task.exception()
    if calls.fail_at is not None and n >= calls.fail_at:
        ctx.check(n == calls.fail_at and got is err, "an exception of the condition does not reach the caller unchanged", got=got, want=err)
    elif calls.succeed_at is not None and n >= calls.succeed_at:
        ctx.count("backoff_successes")
        ctx.check(n == calls.succeed_at and got is None, "a retry does not end when its condition holds", got=got)
        ctx.check(ctx.loop.time() <= calls.ends[-1] + EPS, "a retry does not return as soon as its condition holds")
    else:
        ctx.count("backoff_timeouts")
        ctx.check(isinstance(got, wait.WaitTimeoutError), "a retry that never succeeds does not report a timeout", got=got, result=None if got else task.result())
        ctx.check(n >= least, "a retry gave up before using its steps", calls=n, least=least, steps=steps)
        if n and n >= steps:
            ctx.check(ctx.loop.time() <= calls.ends[-1] + EPS, "a retry waits once more after its last step", late=ctx.loop.time() - calls.ends[-1])
    d = dur
    for i in range(1, n):
        gap = calls.starts[i] - calls.ends[i - 1]
        lo = min(d, cap) if cap else d
        hi = lo * (1 + jit)
        ctx.check(lo - EPS <= gap <= hi + EPS, "wrong delay between calls", call=i + 1, gap=gap, want=(lo, hi))
        if jit:
            ctx.count("jittered_gaps")
        if factor:
            d *= factor
    ctx.check(dict(vars(b)) == before, "the caller's back-off settings were altered", before=before, after=dict(vars(b)))
    ctx.nontrivial = n > 1
    ctx.rec("end", repr(got), round(ctx.loop.time(), 4) if not jit else None)


@sync
def step(ctx):
    rng = ctx.rng
    dur = rng.choice([0.01, 1, 5])
    factor = rng.choice([0, 1, 2, 3, 1.5, 0.5])
    jit = rng.choice([0, 0, 0.1, 0.5, 4])
    cap = rng.choice([0, 0, dur, dur * 3, dur * 100])
    steps = rng.choice([0, 1, 2, 5, 10])
    b = wait.Backoff(steps=steps, duration=dur, factor=factor, jitter=jit, cap=cap)
    d, left = dur, steps
    seen = set()
    for i in range(20):
        want = d
        if left >= 1 and factor:
            left -= 1
            d *= factor
            if cap and d > cap:
                d = cap
                left = 0
        elif left >= 1:
            left -= 1
        got = b.step()
        ctx.count("steps")
        ctx.rec(round(got, 6))
        seen.add(got)
        ctx.check(want - EPS <= got <= want * (1 + jit) + EPS, "a step's delay is out of bounds", step=i, got=got, want=want, jitter=jit)
    ctx.check(not jit or len(seen) > 1, "delays are not jittered")
    j = rng.choice([-1, 0, 0.5, 2])
    for _ in range(5):
        got = wait.jitter(dur, j)
        ctx.check(dur - EPS <= got <= dur * (1 + (j if j > 0 else 1)) + EPS, "jitter out of bounds", got=got)
    ctx.nontrivial = True


async def loops(ctx):
    rng = ctx.rng
    which = rng.choice(["loop", "jitter_loop", "until", "jitter_until"])
    period = rng.choice([1, 0.2, 5, 30, 7200])
    jit = rng.choice([0, 0, -2, 0.3, 1, 2, 10, 100]) if "jitter" in which else 0
    sliding = rng.random() < 0.5 if "jitter" in which else True
    calls = Calls(ctx, durations=_durations(rng, period))
    err = None
    stop = asyncio.Event()
    ncalls = rng.randrange(1, 15)
    mode = rng.choice(["stop", "cancel", "error", "stop_in_call"]) if "until" in which else rng.choice(["cancel", "error"])
    if mode == "error":
        err = calls.error = _error(ctx, rng)
        calls.fail_at = ncalls
    elif mode == "stop_in_call":

        async def on_call(n):
            if n == ncalls:
                ctx.count("stops_in_call")
                stop.set()

        calls.on_call = on_call
    preset = mode == "stop" and rng.random() < 0.1
    if preset:
        stop.set()
    start = ctx.loop.time()
    if which == "loop":
        coro = wait.loop(calls, period)
    elif which == "jitter_loop":
        coro = wait.jitter_loop(calls, period, jit, sliding)
    elif which == "until":
        coro = wait.until(calls, period, stop)
    else:
        coro = wait.jitter_until(calls, period, jit, sliding, stop)
    task = asyncio.ensure_future(coro)
    at = None
    if mode in ("stop", "cancel") and not preset:
        at = rng.random() * period * ncalls
        await asyncio.sleep(at)
        ctx.check(not task.done(), "a loop ended by itself", exc=task.done() and repr(task.exception()))
        in_call = calls.running
        n = len(calls.starts)
        ctx.rec(mode, bool(in_call))
        if mode == "stop":
            ctx.count("stops")
            if in_call:
                ctx.count("stops_in_call")
            stop.set()
            if not in_call:
                await asyncio.sleep(0.001)
                ctx.check(task.done(), "a loop does not stop promptly on the stop signal")
        else:
            ctx.count("cancels")
            task.cancel()
            await asyncio.sleep(0.001)
            ctx.check(task.done() and task.cancelled(), "a loop does not end promptly when cancelled")
    await asyncio.wait([task], timeout=period * (3 + max(jit, 0)) * (ncalls + 2) * 4)
    ctx.check(task.done(), "a loop does not end", mode=mode, calls=len(calls.starts))
    ended = calls.ends[-1] if calls.ends else start
    if mode in ("stop_in_call", "error"):
        ctx.check(len(calls.starts) == ncalls, "called again after the stop signal or an exception", calls=len(calls.starts), want=ncalls)
    elif at is not None:
        ctx.check(len(calls.starts) == n, "called again after the stop signal", calls=len(calls.starts), want=n)
    elif preset:
        ctx.check(not calls.starts, "called although the stop signal was set before")
    if mode == "error":
        ctx.check(task.exception() is err, "an exception of the function does not end the loop and reach the caller", got=repr(task.exception()))
    elif mode != "cancel":
        ctx.check(not task.cancelled() and task.exception() is None, "a stopped loop does not return normally", got=repr(task))
    if calls.ends and mode != "cancel" and (at is None or ended > at):
        pass
    # the wait above returns at the instant the task ended
    latest = max(ended, start + (at or 0)) + 0.0015
    ctx.check(ctx.loop.time() <= latest, "a loop does not end promptly", ended=ctx.loop.time(), latest=latest, mode=mode)
    if not preset:
        ctx.check(calls.starts and abs(calls.starts[0] - start) < EPS, "a loop's first call is not immediate", starts=calls.starts[:2])
    k = max(jit, 0)
    jittered = []
    for i in range(1, len(calls.starts)):
        ctx.count("loop_calls")
        if sliding:
            ctx.count("sliding_gaps")
            gap = calls.starts[i] - calls.ends[i - 1]
            lo, hi = period, period * (1 + k)
        else:
            ctx.count("fixed_gaps")
            gap = calls.starts[i] - calls.starts[i - 1]
            took = calls.ends[i - 1] - calls.starts[i - 1]
            if took > period:
                ctx.count("overruns")
            lo, hi = max(period, took), max(period * (1 + k), took)
        if k:
            ctx.count("jittered_gaps")
            if sliding or took < period:
                jittered.append(gap)
        ctx.check(lo - EPS <= gap <= hi + EPS, "calls are not made at the period", gap=gap, want=(lo, hi), sliding=sliding, which=which)
    if len(jittered) >= 3:
        ctx.check(max(jittered) - min(jittered) > period * k * 1e-6, "periods are not jittered", gaps=jittered[:4], which=which)
    n = len(calls.starts)
    await asyncio.sleep(period * 2 * (5 + max(jit, 0)))
    ctx.check(len(calls.starts) == n, "called again after the loop ended")
    ctx.nontrivial = n > 1


async def polls(ctx):
    rng = ctx.rng
    which = rng.choice(["poll", "poll_immediate", "poll_infinite", "poll_immediate_infinite"])
    immediate = "immediate" in which
    infinite = "infinite" in which
    interval = rng.choice([0.1, 1, 7])
    timeout = interval * rng.choice([0.4, 1.55, 3.55, 10.3])
    calls = Calls(ctx, durations=_durations(rng, interval))
    if immediate and not infinite:
        d = calls.durations
        calls.durations = lambda n: 0 if n == 1 else d(n)
    r = rng.random()
    target = rng.randrange(1, 12)
    err = None
    if r < 0.45 or (infinite and r < 0.6):
        calls.succeed_at = target
    elif r < 0.65 or infinite:
        calls.fail_at = target
        err = calls.error = _error(ctx, rng)
    start = ctx.loop.time()
    if infinite:
        coro = getattr(wait, which)(interval, calls)
    else:
        coro = getattr(wait, which)(interval, timeout, calls)
    task = asyncio.ensure_future(coro)
    cancel_at = None
    if rng.random() < 0.15:
        cancel_at = rng.random() * interval * 5
        await asyncio.wait([task], timeout=cancel_at)
        if not task.done():
            ctx.count("cancels")
            task.cancel()
            n = len(calls.starts)
            await asyncio.sleep(0.001)
            ctx.check(task.done() and task.cancelled(), "a poll does not end promptly when cancelled")
            await asyncio.sleep(interval * 5)
            ctx.check(len(calls.starts) == n, "a cancelled poll calls its condition again")
            return
    await asyncio.wait([task], timeout=10 ** 5)
    ctx.check(task.done(), "a poll does not end")
    end = ctx.loop.time()
    n = len(calls.starts)
    ctx.count("poll_calls", n)
    exc = task.exception()
    finished = len(calls.ends) - calls.interrupted
    if calls.succeed_at is not None and finished >= calls.succeed_at:
        ctx.count("poll_successes")
        ctx.check(exc is None and n == calls.succeed_at, "a poll does not end when its condition holds", exc=repr(exc), calls=n)
        ctx.check(end <= calls.ends[-1] + EPS, "a poll does not return as soon as its condition holds")
    elif calls.fail_at is not None and finished >= calls.fail_at:
        ctx.check(exc is err and n == calls.fail_at, "an exception of the condition does not reach the caller", got=repr(exc), want=repr(err))
        ctx.check(end <= calls.ends[-1] + EPS, "a poll does not end at once when its condition raises")
    else:
        ctx.check(not infinite, "an infinite poll gave up", exc=repr(exc))
        ctx.count("poll_timeouts")
        ctx.check(isinstance(exc, wait.WaitTimeoutError), "a poll that timed out does not report it", got=repr(exc))
        ctx.check(start + timeout - EPS <= end <= start + timeout + 1e-3, "a poll does not end at its timeout", end=end - start, timeout=timeout)
    if not infinite:
        ctx.check(all(s <= start + timeout + EPS for s in calls.starts), "the condition was called after the timeout")
        need = interval if not immediate else 0
        if timeout > need + interval * 0.1:
            ctx.check(n >= 1, "a poll ended without ever calling its condition", timeout=timeout, interval=interval)
    if n:
        first = calls.starts[0] - start
        ctx.check(abs(first - (0 if immediate else interval)) < EPS, "the first check is not made when it should be", at=first, immediate=immediate)
    for i in range(1, n):
        lo = max(calls.starts[i - 1] + interval, calls.ends[i - 1])
        hi = calls.ends[i - 1] + interval
        ctx.check(lo - EPS <= calls.starts[i] <= hi + EPS, "the condition is not checked at the interval", at=calls.starts[i], want=(lo, hi))
    # no check is missing before the timeout
    if exc is not None and isinstance(exc, wait.WaitTimeoutError) and exc is not err and calls.ends:
        last = calls.ends[-1]
        ctx.check(calls.interrupted or end - last <= interval + EPS, "checks stopped before the timeout", last=last, end=end)
    await asyncio.sleep(interval * 5)
    ctx.check(len(calls.starts) == n, "the condition is called again after the poll ended")
    ctx.rec("end", which, repr(exc), n)
    ctx.nontrivial = n > 1


SCENARIOS = {"backoff": backoff, "step": step, "loops": loops, "polls": polls}
PLAN = {
    "quick": {"backoff": 3000, "step": 1000, "loops": 3000, "polls": 3000},
    "thorough": {"backoff": 60000, "step": 20000, "loops": 60000, "polls": 60000},
}
