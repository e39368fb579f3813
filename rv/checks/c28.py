"""C28: cached reads are complete, current and correctly scoped."""
import asyncio
import weakref

from kubernetes_asyncio.client import models

from aiok8s.controller import cache as C
from aiok8s.controller import reconcile

from rv import mgr as M
from rv import server as S
from rv.checks.c25 import judge_events
from rv.kinds import KINDS
from rv.util import horizon, key_of, yields

PROPERTY = "C28"
RULE = (
    "Caches (all namespaces or one; any resync period) and managers over a fake API for pods, and for nodes and config maps through client classes of "
    "the harness, with failing, slow and hanging lists and broken watches. Concurrent readers ask before the start, while syncing and later, also for kinds first "
    "asked for after the start, for present, absent, deleted, same-named and cluster-scoped objects. Each read is judged against the informer's "
    "cache at the moment of its return and against the server's history; reads in reconciles against the recorded events; informers, list calls and "
    "open watches are counted per kind, every requested path is checked, and gaps between resync updates are measured in virtual time. "
    "Mass: lists of hundreds to thousands of objects. Non-trivial: a read waited for a sync, or a kind was first asked for after the start, or a resync gap was measured."
)
REQUIRED_COUNTS = ("refused_before_start", "reads_waited", "reads_found", "reads_missing", "reads_other_namespace", "late_kinds", "shared_informers", "final_reads", "scoped_requests", "reconcile_reads", "first_asked_in_reconcile", "resync_gaps", "no_resync_judged", "cluster_scoped_reads")
ASSUMPTIONS = ["a read that must wait returns within two seconds of the first successful list", "resync gaps are measured on objects that do not change, on a healthy server, with half a second of tolerance"]


nsname = reconcile.NamespacedName
KNOWN = weakref.WeakKeyDictionary()  # cache -> type -> informer


async def read(ctx, cache, srv, typ, ns, name, scope):
    """One read, judged at the moment it returns."""
    loop = ctx.loop
    k = key_of(ns, name)
    waited = not srv.ok_lists
    t0 = loop.time()
    known = KNOWN.setdefault(cache, {}).get(typ)
    try:
        o = await cache.get(nsname(ns, name), typ)
    except KeyError:
        o = None
    now = known.get_indexer().get_by_key(k) if known else None
    inf = KNOWN[cache][typ] = await cache.get_informer(typ)
    ctx.check(srv.ok_lists and inf.has_synced(), "a read returned before its kind was synced", key=k)
    t, rv, first = srv.ok_lists[0]
    ctx.check(loop.time() <= max(t0, t) + 2, "a read took long although its kind was synced", key=k, took=loop.time() - max(t0, t))
    if waited:
        ctx.count("reads_waited")
    # the informer may have moved on while it was asked for
    same = o is now if known else o is None or S.key(o) == k
    ctx.check(same, "a read did not return the cached object of that name", key=k, got=repr(o)[:100])
    outside = scope is not None and ns != scope
    if o is None:
        ctx.count("reads_other_namespace" if outside and k in srv.objs else "reads_missing")
        ctx.check(outside or k not in first or srv.deleted_after(k, first[k]), "a read missed an object of the first list", key=k)
    else:
        ctx.count("reads_found")
        if not ns:
            ctx.count("cluster_scoped_reads")
        ctx.check(isinstance(o, typ), "a read returned something of another kind", key=k, kind=type(o).__name__)
        ctx.check(S.key(o) == k, "a read returned another object", key=k, got=S.key(o))
        ctx.check(not outside, "a cache limited to one namespace returned an object of another", key=k)
        v = S.rv_of(o)
        f = srv.fields(k, v)
        ctx.check(f is not None and dict(f[3]) == dict(S.labels_of(o)), "a read returned a state the server never had", key=k, version=v)
        ctx.check(v >= first.get(k, -1), "a read returned something older than the first list", key=k, version=v)
    ctx.rec("read", k, S.rv_of(o) if o is not None else None)
    return o


@horizon(1e5)
async def reads(ctx):
    rng = ctx.rng
    loop = ctx.loop
    spaces = rng.choice([("a", "b", "c"), ("default", "kube-system", "a"), ("b", "default", "x"), ("kube-public", "default-2", "default")])
    scope = rng.choice([None, None, *spaces[:2]])
    resync = rng.choice([None, 0, 50, 1000])
    faults = dict(p_list_fail=rng.choice([0, 0, 0.5]), p_watch_fail=rng.choice([0, 0.3]), p_break=rng.choice([0, 0.6]), slow_call=rng.choice([0, 0.5, 1]))
    healthy = faults["p_list_fail"] == 0 and rng.random() < 0.5
    types = [t for t in KINDS if not (scope and t is models.V1Node)]
    srvs = {t: KINDS[t](ctx, **faults) for t in types}
    names = {}
    for t, srv in srvs.items():
        if healthy:
            srv.faulty = False
        names[t] = [(None if t is models.V1Node else ns, n) for ns in spaces for n in ("x", "y", "a", "b")][: rng.randrange(4, 13)]
        names[t] = sorted(set(names[t]), key=str)
        for ns, n in names[t]:
            if rng.random() < 0.6:
                srv.put(ns, n)
        if rng.random() < 0.3:
            srv.gate = asyncio.Event()
    kw = {} if scope is None else {"namespace": scope}
    if resync is not None:
        kw["resync"] = resync
    cache = C.new(**kw)
    # ---- before the start
    early = {}
    for t in types:
        if rng.random() < 0.5:
            ns, n = rng.choice(names[t])
            try:
                o = await cache.get(nsname(ns or "", n), t)
            except C.CacheNotStartedError:
                ctx.count("refused_before_start")
            else:
                ctx.check(False, "a read before the start was not refused", got=repr(o)[:100])
        if rng.random() < 0.4:
            early[t] = await cache.get_informer(t)
    ctx.check(not any(s.paths for s in srvs.values()), "a cache that has not started makes API calls")
    run = asyncio.ensure_future(cache.start())
    await yields(rng, 4)
    await asyncio.sleep(0)
    late = {t for t in types if not srvs[t].paths and t not in early}

    async def reader():
        for _ in range(rng.randrange(1, 10)):
            t = rng.choice(types)
            ns, n = rng.choice(names[t] + [(spaces[0], "missing"), ("", "x"), ("x", spaces[0])])
            if t is models.V1Node:
                ns = rng.choice(["", "", None, spaces[0], ns or spaces[1]])
            await read(ctx, cache, srvs[t], t, ns or "", n, scope)
            await (asyncio.sleep(rng.random() * rng.choice([0.01, 1])) if rng.random() < 0.6 else yields(rng, 4))

    async def changer():
        for _ in range(rng.randrange(30)):
            t = rng.choice(types)
            srvs[t].random_change(names[t])
            if rng.random() < 0.05 and not healthy:
                srvs[t].compact()
            await (asyncio.sleep(rng.random() * rng.choice([0.01, 1])) if rng.random() < 0.6 else yields(rng, 4))

    async def opener():
        for s in srvs.values():
            if s.gate:
                await asyncio.sleep(rng.random() * 5)
                s.gate.set()

    jobs = [asyncio.ensure_future(c) for c in [reader() for _ in range(rng.randrange(1, 4))] + [changer(), opener()]]
    await asyncio.wait(jobs, timeout=3600)
    for j in jobs:
        ctx.check(j.done(), "a read hangs although the API answers")
        j.result()
    for s in srvs.values():
        s.quiet()
        s.gate = None
    used = [t for t in types if srvs[t].paths]
    if late & set(used):
        ctx.count("late_kinds")
    await asyncio.sleep(15)
    S.still_running(ctx, run)
    # ---- afterwards: complete, current, shared, in scope
    for t in used:
        srv = srvs[t]
        infs = await asyncio.gather(*[cache.get_informer(t) for _ in range(3)])
        ctx.check(all(i is infs[0] for i in infs) and infs[0] is early.get(t, infs[0]), "the users of one kind do not share one informer")
        ctx.count("shared_informers")
        ctx.check(len(srv.open_watches()) == 1, "one kind does not have exactly one open watch", open=len(srv.open_watches()))
        if healthy:
            ctx.check(srv.lists == 1, "one kind was listed more than once on a healthy server", lists=srv.lists)
        ctx.check(srv.namespaces <= {scope}, "a cache asked for another namespace than its own", asked=sorted(map(str, srv.namespaces)), scope=scope)
        if scope:
            ctx.count("scoped_requests", len(srv.paths))
        state = srv.scoped(scope)
        for ns, n in names[t]:
            ctx.count("final_reads")
            o = await read(ctx, cache, srv, t, ns or "", n, scope)
            k = key_of(ns, n)
            ctx.check((S.rv_of(o) if o is not None else None) == state.get(k), "a read does not return the final state", key=k, want=state.get(k), got=S.rv_of(o) if o else None)
    ctx.nontrivial = bool(ctx.counts["reads_waited"] or late & set(used))
    run.cancel()


@horizon(1e5)
async def in_reconcile(ctx):
    """Reads made while reconciling."""
    rng = ctx.rng
    srv = M.new_api(ctx, p_list_fail=rng.choice([0, 0.3]), p_break=rng.choice([0, 0.6]), latency=rng.choice([0, 0.3]), slow_call=0.2)
    others = {t: KINDS[t](ctx, p_break=0, p_list_fail=rng.choice([0, 0.5])) for t in KINDS if t is not M.Pod}
    names = [(rng.choice(["a", "default"]), f"n{i}") for i in range(rng.randrange(1, 4))]
    for ns, n in names:
        srv.put(ns, n)
    for t, o in others.items():
        for ns, n in names:
            if rng.random() < 0.7:
                o.put(None if t is models.V1Node else ns, n)
    mgr, rec, r = await M.build(ctx, srv, lambda rec: [M.Predicate(rec)], rng.choice(["fast", "yield", "slow"]), rng.choice([1, 3]))
    cache = mgr.get_cache()
    plain = r.reconcile

    async def do(req):
        out = await plain(req)
        ns, n = req.namespaced_name.namespace, req.namespaced_name.name
        ctx.count("reconcile_reads")
        await read(ctx, cache, srv, M.Pod, ns, n, None)
        for t, o in others.items():
            if rng.random() < 0.3:
                if not o.paths:
                    ctx.count("first_asked_in_reconcile")
                    ctx.nontrivial = True
                await read(ctx, cache, o, t, "" if t is models.V1Node else ns, n, None)
        return out

    r.reconcile = do
    run = asyncio.ensure_future(mgr.start())
    for _ in range(rng.randrange(3, 20)):
        srv.random_change(names)
        await (asyncio.sleep(rng.random() * rng.choice([0.01, 1])) if rng.random() < 0.6 else yields(rng, 4))
    srv.quiet()
    for o in others.values():
        o.quiet()
    r.mode = "fast"
    await asyncio.sleep(40)
    S.still_running(ctx, run)
    judge_events(ctx, srv, rec)
    if not others:
        ctx.count("first_asked_in_reconcile")
    run.cancel()


@horizon(1e6)
async def resync(ctx):
    """The resync period in use, measured."""
    rng = ctx.rng
    R = rng.choice([None, 0, 10, 60, 1000, 7200, 36000, 10**5])
    srv = M.new_api(ctx, slow_call=0)
    srv.faulty = False
    srv.put("a", "x")
    srv.put("b", "y")
    kw = {} if R is None else {"resync": R}
    if rng.random() < 0.3:
        kw["namespace"] = "a"
    cache = C.new(**kw)
    inf = await cache.get_informer(M.Pod)
    h = S.Handler(ctx, "h", srv, inf.get_indexer())
    await inf.add_event_handler(h)
    want = 36000 if R is None else R
    run = asyncio.ensure_future(cache.start())
    n = rng.choice([2, 3])
    start = ctx.loop.time()
    await asyncio.sleep((want or 36000) * 1.1 * n + 2)
    S.still_running(ctx, run)
    keys = list(srv.scoped(kw.get("namespace")))
    for k in keys:
        ts = h.resyncs.get(k, [])
        if not want:
            ctx.count("no_resync_judged")
            ctx.check(not ts, "a cache without resyncs resynced", at=ts[:3])
            continue
        gaps = [b - a for a, b in zip([start] + ts, ts)]
        ctx.check(len(ts) >= n, "a cache does not resync at its period", period=want, at=ts[:5], until=ctx.loop.time())
        for g in gaps:
            ctx.count("resync_gaps")
            ctx.check(0.9 * want - 0.5 <= g <= 1.1 * want + 0.5, "a resync period is not within ten percent of the configured one", gap=g, period=want)
    ctx.nontrivial = True
    ctx.rec("gaps", {k: len(v) for k, v in h.resyncs.items()})
    run.cancel()


@horizon(1e5)
async def mass(ctx):
    """Thousands of cached objects."""
    rng = ctx.rng
    srv = M.new_api(ctx, p_break=0, p_list_fail=0, latency=0, slow_call=0)
    srv.faulty = False
    n = rng.choice([300, 600, 1300])
    names = [(rng.choice(["a", "b"]), f"n{i}") for i in range(n)]
    for ns, m in names:
        srv.put(ns, m)
    scope = rng.choice([None, "a"])
    cache = C.new(**({} if scope is None else {"namespace": scope}))
    run = asyncio.ensure_future(cache.start())
    await asyncio.sleep(0.1)
    for ns, m in names:
        await read(ctx, cache, srv, M.Pod, ns, m, scope)
    for _ in range(rng.choice([0, 700])):
        srv.random_change(names)
    await asyncio.sleep(2)
    state = srv.scoped(scope)
    for ns, m in names:
        o = await read(ctx, cache, srv, M.Pod, ns, m, scope)
        ctx.count("final_reads")
        k = key_of(ns, m)
        ctx.check((S.rv_of(o) if o is not None else None) == state.get(k), "a read does not return the final state of one of very many objects", key=k, want=state.get(k))
    S.still_running(ctx, run)
    ctx.rec("mass", n, scope)
    ctx.nontrivial = True
    run.cancel()


SCENARIOS = {"mass": mass, "reads": reads, "in_reconcile": in_reconcile, "resync": resync}
PLAN = {"quick": {"mass": 4, "reads": 1500, "in_reconcile": 500, "resync": 80}, "thorough": {"mass": 80, "reads": 30000, "in_reconcile": 10000, "resync": 1000}}
