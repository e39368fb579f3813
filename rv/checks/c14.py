"""C14: an informer reported as synced really holds the whole initial list."""
import asyncio

from aiok8s.cache import controller, shared_informer

from rv import server as S
from rv.util import horizon, yields

PROPERTY = "C14"
RULE = (
    "Shared and basic informers over a server whose first lists fail, hang or are slow and whose objects change during and after the "
    "first list (including an empty one), with blocked, slow, raising and late handlers; has_synced is polled at random instants and inside every handler "
    "call: true only when every object of the first successful list is cached at that version or later (or was deleted since), never "
    "false again, and true within half a second of the list for shared informers, or of the handlers letting go for basic ones.  "
    "wait_for_cache_sync is judged over real informers and scripted checks that turn true, raise, or never do, and is cancelled at "
    "random instants. Mass: first lists of hundreds to thousands of objects. Non-trivial: polled both before and after a non-empty first list was processed."
)
REQUIRED_COUNTS = ("polls_false", "polls_true", "synced_judged", "failed_lists", "empty_first_lists", "blocked_at_sync", "changed_during_sync", "waits_true", "waits_false", "waits_cancelled", "informer_waits")
ASSUMPTIONS = ["soon and a fraction of a second mean half a second of virtual time while nothing else is slow"]
SOON = 0.5


class Judge:
    def __init__(self, ctx, srv, has_synced, cache):
        self.ctx, self.srv, self.has, self.cache = ctx, srv, has_synced, cache
        self.synced_at = None

    def poll(self):
        ctx, srv = self.ctx, self.srv
        if not self.has():
            ctx.count("polls_false")
            ctx.check(self.synced_at is None, "an informer went back to unsynced")
            return False
        ctx.count("polls_true")
        ctx.check(srv.ok_lists, "an informer reports synced before any list succeeded")
        if self.synced_at is None:
            self.synced_at = ctx.loop.time()
            ctx.count("synced_judged")
            first = srv.ok_lists[0][2]
            for k, v in first.items():
                o = self.cache.get_by_key(k)
                if o is None:
                    ctx.check(srv.deleted_after(k, v), "an informer reports synced without an object of its first list", key=k)
                else:
                    ctx.check(S.rv_of(o) >= v, "an informer reports synced with an older object than its first list's", key=k, cached=S.rv_of(o), listed=v)
            if not first:
                ctx.count("empty_first_lists")
        return True


async def world(ctx):
    rng = ctx.rng
    srv = S.Server(ctx, dicts=rng.random() < 0.3, p_list_fail=rng.choice([0, 0.5, 0.8]), p_watch_fail=rng.choice([0, 0.3]), slow_call=rng.choice([0, 0.5]))
    names = [(rng.choice(["a", "b"]), f"n{i}") for i in range(rng.randrange(1, 8))]
    if rng.random() < 0.85:
        for ns, n in names:
            if rng.random() < 0.8:
                srv.put(ns, n)
    return srv, names


async def drive(ctx, srv, names, judge, more):
    """Polls and changes things until well after the first list."""
    rng = ctx.rng
    handlers = []
    if rng.random() < 0.2:
        srv.gate = asyncio.Event()
    before = judge.has()
    ctx.check(not before, "an informer reports synced before it ran")
    for i in range(rng.randrange(20, 120)):
        r = rng.random()
        judge.poll()
        if r < 0.25:
            srv.random_change(names)
            if srv.ok_lists and judge.synced_at is None:
                ctx.count("changed_during_sync")
        elif r < 0.3 and more:
            await more()
        elif r < 0.35 and srv.gate is not None:
            srv.gate.set()
        elif r < 0.7:
            await asyncio.sleep(0)
        else:
            await asyncio.sleep(rng.random() * rng.choice([0.01, 0.3, 1]))
    if srv.gate is not None:
        srv.gate.set()
    end = ctx.loop.time() + 60
    while not srv.ok_lists and ctx.loop.time() < end:
        judge.poll()
        await asyncio.sleep(rng.random() * 0.3)
    if not srv.ok_lists:
        srv.quiet()
        while not srv.ok_lists and ctx.loop.time() < end + 20:
            await asyncio.sleep(0.1)
    ctx.check(srv.ok_lists, "an informer does not list again after failing lists")
    return handlers


@horizon(1e5)
async def shared(ctx):
    rng = ctx.rng
    srv, names = await world(ctx)
    inf = await S.informer_with_indexers(ctx, srv, rng.choice([0, 0, 1]))
    judge = Judge(ctx, srv, inf.has_synced, inf.get_indexer())
    handlers = []

    async def add():
        h = S.Handler(ctx, f"h{len(handlers)}", srv, inf.get_indexer(), mode=rng.choice(["fast", "slow", "block", "raise", "yield"]), judge=False)

        handlers.append(h)
        await inf.add_event_handler(h)

    for _ in range(rng.randrange(3)):
        await add()
    for h in handlers:
        h.poll = judge.poll
    run = asyncio.ensure_future(inf.run())
    await asyncio.sleep(0)
    await drive(ctx, srv, names, judge, add)
    if any(h.blocked for h in handlers):
        ctx.count("blocked_at_sync")
    left = srv.ok_lists[0][0] + SOON - ctx.loop.time()
    if left > 0:
        while left > 0:
            judge.poll()
            await asyncio.sleep(min(left, 0.05) + 0.001)
            left = srv.ok_lists[0][0] + SOON - ctx.loop.time()
    ctx.check(judge.poll(), "an informer does not report synced soon after its first list", listed_at=srv.ok_lists[0][0], now=ctx.loop.time(), handlers=[h.mode for h in handlers])
    for _ in range(rng.randrange(20)):
        srv.random_change(names)
        await asyncio.sleep(rng.random() * 2)
        judge.poll()
    ctx.nontrivial = ctx.counts["polls_false"] > 0 and bool(srv.ok_lists[0][2])
    S.still_running(ctx, run)
    run.cancel()


@horizon(1e5)
async def basic(ctx):
    rng = ctx.rng
    srv, names = await world(ctx)
    h = S.Handler(ctx, "h", srv, None, mode=rng.choice(["fast", "yield", "slow", "block"]))
    h.slowness = 0.3
    store, c = controller.new_informer(srv, srv.expected, 0, h)
    judge = Judge(ctx, srv, c.has_synced, store)

    async def on_call(kind, k, v):
        judge.poll()

    h.on_call = on_call
    run = asyncio.ensure_future(c.run())
    await asyncio.sleep(0)
    await drive(ctx, srv, names, judge, None)
    if h.blocked:
        ctx.count("blocked_at_sync")
        judge.poll()
    h.block.set()
    h.mode = "fast"
    await asyncio.sleep(SOON + 0.3)
    ctx.check(judge.poll(), "an informer does not report synced soon after its first list")
    ctx.nontrivial = ctx.counts["polls_false"] > 0 and bool(srv.ok_lists[0][2])
    S.still_running(ctx, run)
    run.cancel()


@horizon(1e5)
async def waiting(ctx):
    rng = ctx.rng
    loop = ctx.loop
    n = rng.randrange(0, 5)
    times = [rng.choice([0, rng.random(), rng.random() * 10, rng.randrange(4), rng.randrange(20) / 10]) for _ in range(n)]
    raiser = rng.randrange(n) if n and rng.random() < 0.3 else None
    never = rng.randrange(n) if n and rng.random() < 0.2 else None

    def make(i):
        def has_synced():
            ctx.count("polled_checks")
            if i == raiser and loop.time() >= times[i]:
                raise rng.choice([RuntimeError, KeyError, asyncio.TimeoutError])("check failed")
            return i not in (never, raiser) and loop.time() >= times[i]

        return has_synced

    task = asyncio.ensure_future(shared_informer.wait_for_cache_sync(*[make(i) for i in range(n)]))
    last = max(times, default=0)
    ctx.rec("wait", times, raiser, never)
    cancel_at = rng.random() * (last + 1) if rng.random() < 0.3 else None
    if never is not None and (raiser is None or never < raiser) and cancel_at is None:
        cancel_at = last + rng.choice([1, 500])
    if cancel_at is not None:
        await asyncio.wait([task], timeout=cancel_at)
        await yields(rng, 3)
        if not task.done():
            if raiser is None:
                ctx.check(never is not None or loop.time() <= last + SOON, "waiting for cache sync does not return although all are synced", times=times, now=loop.time())
            task.cancel()
            t0 = loop.time()
            await asyncio.wait([task], timeout=5)
            ctx.check(task.done() and loop.time() - t0 <= 0.01 and task.cancelled(), "cancelling a wait for cache sync does not stop it")
            ctx.count("waits_cancelled")
            ctx.nontrivial = True
            return
    else:
        await asyncio.wait([task], timeout=last + SOON)
        ctx.check(task.done(), "waiting for cache sync does not return within a fraction of a second", times=times, raiser=raiser)
    got = task.result()
    t = loop.time()
    if raiser is not None and (never is None or raiser < never):
        ctx.check(got is False, "waiting for cache sync succeeds although a check failed", got=got)
        ctx.count("waits_false")
    elif got:
        ctx.check(never is None and raiser is None and t >= last, "waiting for cache sync succeeds although a cache is not synced", times=times, at=t)
        ctx.count("waits_true")
    else:
        ctx.check(raiser is not None, "waiting for cache sync reports a failure although no check failed", times=times)
    ctx.nontrivial = n > 1


@horizon(1e5)
async def informers(ctx):
    rng = ctx.rng
    worlds = [await world(ctx) for _ in range(rng.randrange(1, 4))]
    infs, judges, runs = [], [], []
    for srv, _ in worlds:
        inf = shared_informer.new_shared_informer(srv, srv.expected, 0)
        infs.append(inf)
        judges.append(Judge(ctx, srv, inf.has_synced, inf.get_indexer()))
        if rng.random() < 0.5:
            await inf.add_event_handler(S.Handler(ctx, "h", srv, None, mode=rng.choice(["block", "raise", "slow"]), judge=False))
    task = asyncio.ensure_future(shared_informer.wait_for_cache_sync(*[i.has_synced for i in infs]))
    for inf in infs:
        await asyncio.sleep(rng.random() * rng.choice([0, 1]))
        runs.append(asyncio.ensure_future(inf.run()))
    end = ctx.loop.time() + 120
    while not task.done() and ctx.loop.time() < end:
        if all(srv.ok_lists for srv, _ in worlds):
            last = max(srv.ok_lists[0][0] for srv, _ in worlds)
            ctx.check(ctx.loop.time() <= last + 2 * SOON, "waiting for cache sync does not return soon after all lists were processed")
        for (srv, names), j in zip(worlds, judges):
            j.poll()
            if rng.random() < 0.1:
                srv.random_change(names)
        if ctx.loop.time() > end - 60:
            for srv, _ in worlds:
                srv.quiet()
        await asyncio.sleep(rng.random() * 0.2)
    ctx.check(task.done() and task.result() is True, "waiting for cache sync does not succeed", got=repr(task))
    for j in judges:
        ctx.check(j.poll(), "waiting for cache sync succeeded although a cache is not synced")
    ctx.count("informer_waits")
    ctx.nontrivial = True
    for r in runs:
        S.still_running(ctx, r)
        r.cancel()


@horizon(1e5)
async def mass(ctx):
    """A first list of thousands of objects."""
    rng = ctx.rng
    srv = S.Server(ctx, dicts=rng.random() < 0.3, p_list_fail=0, slow_call=0, latency=0)
    srv.faulty = False
    n = rng.choice([600, 1200, 2200])
    for i in range(n):
        srv.put("a", f"n{i}")
    if rng.random() < 0.6:
        inf = await S.informer_with_indexers(ctx, srv, 0)
        judge = Judge(ctx, srv, inf.has_synced, inf.get_indexer())
        h = S.Handler(ctx, "h", srv, inf.get_indexer(), mode=rng.choice(["fast", "block"]), judge=False)
        h.poll = judge.poll
        await inf.add_event_handler(h)
    else:
        h = S.Handler(ctx, "h", srv, mode="fast", judge=False)
        st, inf = controller.new_informer(srv, srv.expected, 0, h)
        judge = Judge(ctx, srv, inf.has_synced, st)
        h.poll = judge.poll
    judge.poll()
    run = asyncio.ensure_future(inf.run())
    while not srv.ok_lists:
        judge.poll()
        await asyncio.sleep(0)
    for i in range(5 * n):
        if i % 7 == 0:
            judge.poll()
        await asyncio.sleep(0)
    await asyncio.sleep(SOON)
    ctx.check(judge.poll(), "an informer does not report synced soon after a very large first list was processed", objects=n)
    S.still_running(ctx, run)
    ctx.rec("mass", n)
    ctx.nontrivial = True
    h.block.set()
    run.cancel()


SCENARIOS = {"mass": mass, "shared": shared, "basic": basic, "waiting": waiting, "informers": informers}
PLAN = {
    "quick": {"mass": 6, "shared": 1500, "basic": 800, "waiting": 1500, "informers": 500},
    "thorough": {"mass": 150, "shared": 40000, "basic": 20000, "waiting": 20000, "informers": 10000},
}
