"""C26: failed and requeued reconciles are retried as promised, one at a time per object."""
import asyncio
import collections

from aiok8s.controller import controller, handler, reconcile, source

from rv import mgr as M
from rv import server as S
from rv.util import horizon, yields

PROPERTY = "C26"
RULE = (
    "Controllers with one to four workers over a healthy fake pod API; each reconcile ends as its object's script says (success, one of "
    "many exceptions, requeue, requeue after a delay, both), after no, some or two seconds, while events arrive. Every reconcile start must be explained by an event since the "
    "object's previous start or by a due retry of the computed back-off (0.005 s doubling per consecutive failure up to 1000 s) or delay; "
    "every failure and requeue must be followed by a start within its due time plus the time workers may be busy or pausing; streaks that "
    "end in success or a delay start over from the base. Overlaps and the number of running reconciles are judged online. A second "
    "scenario fails a single object hundreds of times, a third one fails a crowd of up to 150 objects at once. Odd: items that are no requests on the queue, and reconciles that return no result, may disturb nothing else. Non-trivial: a streak of at least five failures was followed by a success and another failure, or two "
    "workers were busy at once."
)
REQUIRED_COUNTS = ("reconciles", "failures", "requeues", "delayed_requeues", "retries_judged", "starts_explained_by_retry", "starts_explained_by_event", "resets_judged", "capped_backoffs", "events_followed", "parallel_cases", "crowds", "long_streaks", "odd_items", "bad_results", "calm_cases")
ASSUMPTIONS = ["a worker may pause for a second after a failure", "a delayed retry that is still pending when an event runs the object earlier still happens"]
EPS = 1e-3


class Boom(Exception):
    pass


EXCS = [RuntimeError, Boom, KeyError, asyncio.TimeoutError, ValueError, AssertionError, OSError, StopAsyncIteration]


class Script:
    """Chooses and records outcomes per object."""

    def __init__(self, ctx, keys, weights, delays):
        self.ctx, self.weights, self.delays = ctx, weights, delays
        self.done = []  # (end time, key, outcome, streak, due)
        self.streak = collections.Counter()
        self.limited = 0
        self.quiet = set()  # keys that only succeed from now on
        self.most_streak = 0
        self.had_long = set()

    def __call__(self, k):
        ctx, rng = self.ctx, self.ctx.rng
        kind = "ok" if k in self.quiet else rng.choices(list(self.weights[k]), list(self.weights[k].values()))[0]
        now = ctx.loop.time()
        due = None
        n = self.streak[k]
        if kind in ("raise", "requeue"):
            due = now + min(0.005 * 2**n, 1000)
            if n > 17:
                ctx.count("capped_backoffs")
            if k in self.had_long and n < 3:
                ctx.count("resets_judged")
                ctx.nontrivial = True
            self.streak[k] += 1
            self.limited += 1
            if n >= 10:
                self.had_long.add(k)
        else:
            self.streak[k] = 0
        d = 0
        if kind in ("after", "both"):
            d = rng.choice(self.delays)
            due = now + d
        self.done.append((now, k, kind, n, due))
        ctx.rec("outcome", k, kind, n)
        ctx.count({"raise": "failures", "requeue": "requeues", "after": "delayed_requeues", "both": "delayed_requeues", "ok": "successes"}[kind])
        if kind == "raise":
            return rng.choice(EXCS)("reconcile failed")
        return reconcile.Result(requeue=kind in ("requeue", "both"), requeue_after=d)


def judge(ctx, rec, script, slack, end):
    keys = {s[2] for s in rec.starts} | {e[3] for e in rec.events}
    slack += max(0, script.limited - 100) / 10
    for k in keys:
        starts = [(s, t) for s, t, kk, _ in rec.starts if kk == k]
        ends = [(s, t) for s, t, kk in rec.ends if kk == k]
        events = [(s, t, kind) for s, t, kind, kk, _, ok in rec.events if kk == k and ok]
        done = [d for d in script.done if d[1] == k]
        # every start is explained
        pending = []
        prev = before = -1
        for i, (s, t) in enumerate(starts):
            by_event = any(prev < es < s for es, _, _ in events) or any(before < es < prev and abs(et - starts[i - 1][1]) < EPS for es, et, _ in events)
            by_retry = any(d <= t + EPS for d in pending)
            ctx.count("starts_explained_by_event" if by_event else "starts_explained_by_retry")
            ctx.check(
                by_event or by_retry,
                "a reconcile was run although nothing changed and no retry was due" if not pending else "a reconcile was retried before its back-off or delay had passed",
                key=k,
                at=t,
                due=sorted(pending)[:3],
                previous=done[i - 1][1:4] if i else None,
            )
            pending = [d for d in pending if d > t - EPS]  # one due right now may come before or after this start
            if i < len(done) and done[i][4] is not None:
                pending.append(done[i][4])
            before, prev = prev, s
        # every failure, requeue and event is followed
        for i, (e, _, kind, n, due) in enumerate(done):
            if due is None or due + slack > end:
                continue
            ctx.count("retries_judged")
            nxt = starts[i + 1][1] if i + 1 < len(starts) else None
            ctx.check(nxt is not None and nxt <= due + slack, "a reconcile that failed or asked to be requeued is not run again when due", key=k, outcome=kind, failures=n, ended=e, due=due, next=nxt, slack=slack)
        for es, et, kind in events:
            if et + slack > end:
                continue
            ctx.count("events_followed")
            ctx.check(any(s > es and t <= et + slack for s, t in starts), "an event is not followed by a reconcile while other objects fail", key=k, event=kind, at=et, slack=slack)


@horizon(1e7)
async def outcomes(ctx):
    rng = ctx.rng
    srv = M.new_api(ctx, latency=0, slow_call=0)
    srv.faulty = False
    names = [(rng.choice(["a", "b"]), f"n{i}") for i in range(rng.choice([1, 1, 2, 4, 6]))]
    for ns, n in names:
        srv.put(ns, n)
    workers = rng.choice([1, 1, 2, 4])
    mode = rng.choice(["fast", "fast", "yield", "slow"])
    keys = [S.key_of(*n) for n in names]
    weights = {}
    for k in keys:
        weights[k] = rng.choice([{"ok": 1}, {"raise": 1}, {"raise": 9, "ok": 1}, {"ok": 2, "raise": 2, "requeue": 2, "after": 2, "both": 1}, {"requeue": 12, "ok": 1}, {"raise": 12, "after": 1}])
    calm = rng.random() < 0.3
    if calm:  # no failure, so no worker pauses
        ctx.count("calm_cases")
        mode = rng.choice(["fast", "yield"])
        weights = {k: rng.choice([{"ok": 1}, {"ok": 2, "after": 2}, {"after": 5, "ok": 1}, {"ok": 2, "requeue": 2, "after": 2, "both": 1}, {"requeue": 12, "ok": 1}]) for k in keys}
    script = Script(ctx, keys, weights, rng.choice([[0.01, 0.5], [3, 30], [0.5, 5, 100], [1e-6, 0.2], [10 ** rng.uniform(-3, 3) for _ in range(4)], [3600, 3601.5, 9000, 36000 * rng.random()]]))
    mgr, rec, r = await M.build(ctx, srv, lambda rec: [M.Predicate(rec)], mode, workers)
    r.outcome = script
    run = asyncio.ensure_future(mgr.start())
    span = rng.choice([20, 60, 200, 1500, 1500]) if rng.random() < 0.93 else 60000
    end = span
    slack = 0.2 + len(names) * (1 + (2 if mode == "slow" else 0)) + 1
    if calm:
        slack = 0.25
    while ctx.loop.time() < end and script.limited < 400:
        x = rng.random()
        if x < 0.5:
            ns, n = rng.choice(names)
            srv.put(ns, n)
        await (asyncio.sleep(rng.random() * span / rng.choice([4, 20])) if x < 0.9 else yields(rng, 5))
    if rec.most > 1:
        ctx.count("parallel_cases")
        ctx.nontrivial = True
    S.still_running(ctx, run)
    judge(ctx, rec, script, slack, ctx.loop.time())
    run.cancel()


@horizon(1e8)
async def endurance(ctx):
    """One object fails for ever, then recovers; another one stays fine."""
    rng = ctx.rng
    srv = M.new_api(ctx, latency=0, slow_call=0)
    srv.faulty = False
    srv.put("a", "bad")
    srv.put("a", "good")
    script = Script(ctx, ["a/bad", "a/good"], {"a/bad": {rng.choice(["raise", "requeue"]): 1}, "a/good": {"ok": 1}}, [1])
    mgr, rec, r = await M.build(ctx, srv, lambda rec: [M.Predicate(rec)], "fast", 1)
    r.outcome = script
    run = asyncio.ensure_future(mgr.start())
    many = rng.choice([25, 60, 300]) if ctx.tier == "quick" else rng.choice([40, 300, 1200])
    last = 0
    while len(script.done) < many and ctx.loop.time() < 1100 * many:
        await asyncio.sleep(1500)
        if rng.random() < 0.2:
            srv.put("a", "good")
    judge(ctx, rec, script, 2.5, ctx.loop.time())
    ctx.check(script.streak["a/bad"] + 3 >= many - len([d for d in script.done if d[1] == "a/good"]), "retries stopped", failures=script.streak["a/bad"])
    if many > 50:
        ctx.count("long_streaks")
    script.quiet.add("a/bad")
    await asyncio.sleep(1005)
    await asyncio.sleep(3000)
    script.quiet.clear()
    srv.put("a", "bad")
    await asyncio.sleep(100)
    S.still_running(ctx, run)
    judge(ctx, rec, script, 2.5, ctx.loop.time())
    run.cancel()


@horizon(1e7)
async def crowd(ctx):
    """Many objects fail at once, then recover."""
    rng = ctx.rng
    srv = M.new_api(ctx, latency=0, slow_call=0)
    srv.faulty = False
    n = rng.choice([30, 60, 150])
    keys = []
    for i in range(n):
        srv.put("default", f"n{i}")
        keys.append(f"default/n{i}")
    workers = rng.choice([1, 2, 8])
    kind = rng.choice(["raise", "requeue"])
    script = Script(ctx, keys, {k: {kind: 1} for k in keys}, [1])
    mgr, rec, r = await M.build(ctx, srv, lambda rec: [M.Predicate(rec)], rng.choice(["fast", "yield", "slow"]), workers)
    r.outcome = script
    run = asyncio.ensure_future(mgr.start())
    slack = 10 + n * 3.5 / workers
    await asyncio.sleep(rng.choice([1, 5]))
    for _ in range(rng.choice([0, 10, 200])):
        srv.put("default", f"n{rng.randrange(n)}")
        if rng.random() < 0.1:
            await asyncio.sleep(rng.random() * 5)
    await asyncio.sleep(rng.choice([0, 100]))
    script.quiet |= set(keys)
    await asyncio.sleep(2 * slack + max(0, script.limited - 100) / 10 + 0.01 * 2 ** max(script.streak.values(), default=0))
    S.still_running(ctx, run)
    judge(ctx, rec, script, slack, ctx.loop.time())
    ctx.check(not +script.streak, "an object that failed is not run again", left=len(+script.streak), objects=n)
    ctx.count("crowds")
    ctx.nontrivial = True
    run.cancel()


class Mixed(handler.EnqueueRequestForObject):
    """The application puts other things on the queue, too."""

    def __init__(self, rng):
        self.rng = rng
        self.odd = 0

    async def _odd(self, queue):
        while self.rng.random() < 0.3:
            self.odd += 1
            x = self.rng.choice(["default/n0", 7, ("default", "n1"), frozenset(), reconcile.NamespacedName("default", "n0")])
            await self.rng.choice([queue.add, queue.add_rate_limited, lambda x: queue.add_after(x, 0.1)])(x)

    async def create(self, event, queue):
        await self._odd(queue)
        await super().create(event, queue)
        await self._odd(queue)

    async def update(self, event, queue):
        await super().update(event, queue)
        await self._odd(queue)


@horizon(1e7)
async def odd(ctx):
    """Items that are no requests, reconciles that do not return a result: nothing else is disturbed."""
    rng = ctx.rng
    srv = M.new_api(ctx, latency=0, slow_call=0)
    srv.faulty = False
    names = [("default", f"n{i}") for i in range(rng.choice([1, 2, 4]))]
    for ns, n in names:
        srv.put(ns, n)
    workers = rng.choice([1, 1, 3])
    rec = M.Recorder(ctx)
    mgr = M.manager.new()
    r = M.Reconciler(rec, srv, mgr.get_cache(), rng.choice(["fast", "yield"]), workers)
    c = controller.new(mgr, reconciler=r)
    c.max_concurrent_reconciles = workers
    await mgr.get_cache().get_informer(M.Pod)
    h = Mixed(rng)
    await c.watch(source.Kind(M.Pod), h, M.Predicate(rec))
    bad = rng.choice([0, 0.3, 1])

    def outcome(k):
        if rng.random() < bad:
            ctx.count("bad_results")
            return rng.choice([None, "later", 5, False, object(), {}])
        return reconcile.Result()

    r.outcome = outcome
    run = asyncio.ensure_future(mgr.start())
    for _ in range(rng.randrange(3, 30)):
        srv.put(*rng.choice(names))
        await (asyncio.sleep(rng.random() * rng.choice([0.1, 2, 20])) if rng.random() < 0.7 else yields(rng, 9))
    await asyncio.sleep(3)
    S.still_running(ctx, run)
    slack = 0.5 + 1.1 * (len(names) + 1)
    for es, et, kind, k, _, _ in rec.events:
        if et + slack > ctx.loop.time():
            continue
        ctx.count("events_followed")
        ctx.check(any(s > es and t <= et + slack for s, t, kk, _ in rec.starts if kk == k), "an event is not followed by a reconcile after something odd was queued or returned", key=k, event=kind, at=et)
    ctx.count("odd_items", h.odd)
    ctx.nontrivial = h.odd > 0 or bad > 0
    ctx.rec(len(rec.starts), h.odd)
    run.cancel()


SCENARIOS = {"odd": odd, "outcomes": outcomes, "endurance": endurance, "crowd": crowd}
PLAN = {"quick": {"odd": 200, "outcomes": 900, "endurance": 48, "crowd": 30}, "thorough": {"odd": 4000, "outcomes": 25000, "endurance": 400, "crowd": 600}}
