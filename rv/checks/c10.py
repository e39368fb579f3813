"""C10: a shared informer's cache converges to the server's state."""
import asyncio

from aiok8s.cache import shared_informer

from rv import server as S
from rv.util import horizon, yields

PROPERTY = "C10"
RULE = (
    "A running shared index informer (typed objects or dictionaries of a kind; with resyncs or not; with fast, slow, raising or no "
    "handlers, some added late) against a versioned fake API server that creates, updates, deletes and re-creates objects while "
    "failing lists, watch calls and streams (close, exception, error event), expiring versions and dropping watches at their time "
    "limit. A monitor samples the cache at random instants (each version one the server had under that key, none going back); when "
    "the faults stop the cache must equal the server's objects and versions within ten virtual seconds and stay equal while further "
    "changes reach it within a second; every index is compared with the objects at settled points. Mass: lists and bursts of hundreds to thousands of objects. Non-trivial: at least two lists, "
    "one deletion found by a relist or event and one fault."
)
REQUIRED_COUNTS = ("lists", "failed_lists", "failed_watches", "broken_watches", "expired_watches", "cache_samples", "convergences", "index_checks", "missed_deletions", "recreations", "timed_out_watches", "late_indexers", "indexers_added_to_informer")
ASSUMPTIONS = ["bounded time means ten seconds after the faults stop and one second for a change while a watch is healthy"]


async def converged(ctx, srv, cache, within, what):
    end = ctx.loop.time() + within
    while ctx.loop.time() < end:
        if S.cache_state(cache) == srv.state() and any(not w.expired for w in srv.open_watches()):
            break
        await asyncio.sleep(0.05)
    got, want = S.cache_state(cache), srv.state()
    ctx.check(
        got == want,
        f"the cache does not become the server's state within {within:g} s {what}",
        missing=sorted(set(want) - set(got)),
        extra=sorted(set(got) - set(want)),
        stale={k: (got[k], want[k]) for k in got if k in want and got[k] != want[k]},
    )
    ctx.check(srv.open_watches(), f"no watch is open within {within:g} s {what}")
    ctx.count("convergences")


@horizon(1e5)
async def converge(ctx):
    rng = ctx.rng
    srv = S.Server(ctx, dicts=rng.random() < 0.4, p_break=rng.choice([0.2, 0.6, 0.9]), p_list_fail=rng.choice([0, 0.3, 0.5]))
    names = [(rng.choice(["a", "b", None]), f"n{i}") for i in range(rng.randrange(1, 6))]
    for ns, n in names:
        if rng.random() < 0.6:
            srv.put(ns, n)
    if rng.random() < 0.2:
        srv.faulty = False
    inf = await S.informer_with_indexers(ctx, srv, rng.choice([0, 0, 1, 3, 30]))
    cache = inf.get_indexer()
    mon = S.CacheMonitor(ctx, srv, cache)
    handlers = [S.Handler(ctx, f"h{i}", srv, cache, judge=False, mode=rng.choice(["fast", "yield", "slow", "block", "raise"])) for i in range(rng.randrange(3))]
    for h in handlers:
        if rng.random() < 0.6:
            await inf.add_event_handler(S.disguise(h))
            h.added = True
        else:
            h.added = False
    run = asyncio.ensure_future(inf.run())
    sampler = asyncio.ensure_future(mon.run(rng))
    try:
        for _ in range(rng.randrange(5, 80)):
            r = rng.random()
            had = set(srv.objs)
            if r < 0.5:
                srv.random_change(names, p_delete=0.4)
                if not srv.open_watches():
                    for k in had - set(srv.objs):
                        ctx.count("missed_deletions")
                for k in set(srv.objs) - had:
                    if len(srv.hist[k]) > 1:
                        ctx.count("recreations")
            elif r < 0.55:
                srv.compact()
            elif r < 0.6:
                for w in list(srv.open_watches()):
                    w.plan = (rng.choice(["close", "raise", "error"]), 0, 0)
                    w.break_at = 0
                srv.poke()
            elif r < 0.62:
                await asyncio.sleep(rng.random() * 400)
            else:
                await (asyncio.sleep(rng.random() * rng.choice([0.01, 0.5, 3])) if rng.random() < 0.6 else yields(rng, 6))
            for h in handlers:
                if not h.added and rng.random() < 0.1:
                    h.added = True
                    await inf.add_event_handler(S.disguise(h))
        srv.quiet()
        settled = ctx.loop.time() + 10
        await converged(ctx, srv, cache, 10, "after its changes and faults stopped")
        # a watch that broke at the last moment may only now be noticed
        await asyncio.sleep(max(0, settled - ctx.loop.time()))
        await S.check_indexes(ctx, cache)
        # healthy operation: changes arrive promptly
        for _ in range(rng.randrange(1, 5)):
            for _ in range(rng.randrange(1, 4)):
                srv.random_change(names)
                await yields(rng, 2)
            await converged(ctx, srv, cache, 2, "of a change while all is healthy")
        await S.check_indexes(ctx, cache)
        await S.late_indexers_refused(ctx, inf, cache)
        before = S.cache_state(cache)
        at = inf.last_sync_resource_version()
        ctx.check(isinstance(at, str) and S.unver(at) >= max(before.values(), default=0), "the version reported as last synced is older than what is cached", reported=at, cached=max(before.values(), default=0))
        await asyncio.sleep(rng.choice([1, 65, 700]))
        ctx.check(S.cache_state(cache) == before, "the cache of a quiet server changed by itself", before=before, after=S.cache_state(cache))
        ctx.nontrivial = len(srv.ok_lists) >= 2 and ctx.counts["broken_watches"] + ctx.counts["failed_lists"] + ctx.counts["failed_watches"] > 0
    finally:
        sampler.cancel()
        failed = await asyncio.gather(sampler, return_exceptions=True)
        if ctx.first is None and failed and isinstance(failed[0], Exception):
            raise failed[0]
    S.still_running(ctx, run)
    run.cancel()


@horizon(1e5)
async def mass(ctx):
    """Thousands of objects, and gaps as large."""
    rng = ctx.rng
    srv = S.Server(ctx, dicts=rng.random() < 0.4, p_break=0, p_list_fail=0, slow_call=0, latency=0)
    srv.faulty = False
    n = rng.choice([600, 1200, 2200])
    names = [(rng.choice(["a", "b"]), f"n{i}") for i in range(n)]
    for ns, m in names:
        srv.put(ns, m)
    inf = await S.informer_with_indexers(ctx, srv, 0)
    cache = inf.get_indexer()
    run = asyncio.ensure_future(inf.run())
    await asyncio.sleep(2)
    await converged(ctx, srv, cache, 10, "of the first of very large lists")
    for _ in range(2):
        for _ in range(rng.choice([700, 1500])):
            srv.random_change(names, p_delete=0.5)
        await converged(ctx, srv, cache, 2, "of very many changes while all is healthy")
        for w in srv.open_watches():
            w.plan = ("raise", 0, 0)
            w.break_at = 0
        srv.poke()
        await asyncio.sleep(0.01)
        for _ in range(rng.choice([10, 1200])):
            srv.random_change(names, p_delete=rng.choice([0.2, 0.8]))
        srv.compact()
        await converged(ctx, srv, cache, 10, "after a gap of very many changes")
    for name, f in S.indexers().items():
        want = {}
        for o in cache.list():
            for v in f(o):
                want.setdefault(v, set()).add(S.key(o))
        for v, keys in want.items():
            ctx.count("index_lookups")
            ctx.check(sorted(await cache.index_keys(name, v)) == sorted(keys), "an index disagrees with the cached objects", index=name, value=v)
    ctx.rec("mass", n)
    ctx.nontrivial = True
    S.still_running(ctx, run)
    run.cancel()


SCENARIOS = {"mass": mass, "converge": converge}
PLAN = {"quick": {"mass": 6, "converge": 1600}, "thorough": {"mass": 150, "converge": 40000}}
