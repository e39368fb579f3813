"""C29: a basic informer applies each change to its store, then tells its handler."""
import asyncio

from aiok8s.cache import controller, delta_fifo, fifo, store

from rv import server as S
from rv.util import horizon, yields

PROPERTY = "C29"
RULE = (
    "Basic informers (typed objects or dictionaries, any resync period, handlers that are fast, suspend, sleep, block or raise, given as an object or as "
    "functions) over a versioned fake API server with faults, expiries and relists: every notification is judged against the handler's own history, the "
    "server's history and the store, which must show exactly the told state during the whole call and equal what the handler was told at every "
    "sampled instant; the store must converge after the faults. Controllers with and without retry over a healthy server run a process function that "
    "fails by plan (never, a few times, until further notice, before or after suspending): without retry each queued delta is processed exactly once, with retry a failed item comes back "
    "unchanged until it succeeds and other keys keep being processed. A resync scenario (any period, healthy server whose watches end cleanly) judges the "
    "times of the updates that change nothing: one period apart for every stable object, none without a period. Mass: hundreds to thousands of objects in the first list, in a burst or found deleted by a relist. Non-trivial: a relist deletion, a suspended handler with "
    "changes pending, or a failed item."
)
REQUIRED_COUNTS = ("notifications", "store_samples", "tombstones", "convergences", "slow_handlers", "handler_failures", "function_handlers", "partial_handlers", "failed_items", "retried_items", "skipped_items", "requeues_asked", "hot_failures", "items_judged", "resync_updates", "gaps_judged", "informers_without_resync", "failed_lists", "broken_watches")
ASSUMPTIONS = [
    "a handler that raises loses the rest of its own item only",
    "the store converges ten seconds after faults and slow handlers stopped",
]


def state_of(st):
    return {S.key(o): S.rv_of(o) for o in st.list()}


@horizon(1e5)
async def informer(ctx):
    rng = ctx.rng
    srv = S.Server(ctx, dicts=rng.random() < 0.4, p_break=rng.choice([0.2, 0.6, 0.9]), p_list_fail=rng.choice([0, 0.3, 0.5]))
    names = [(rng.choice(["a", "b", None]), f"n{i}") for i in range(rng.randrange(1, 6))]
    for ns, n in names:
        if rng.random() < 0.6:
            srv.put(ns, n)
    if rng.random() < 0.2:
        srv.faulty = False
    mode = rng.choice(["fast", "yield", "slow", "slow", "block", "raise"])
    h = S.Handler(ctx, "h", srv, mode=mode)
    st = None
    failed = set()

    def same(kind, k, v):
        o = st.get_by_key(k)
        have = S.rv_of(o) if o is not None else None
        ctx.check(have == (None if kind == "delete" else v), "the store does not show the change its handler is told of", kind=kind, key=k, told=v, stored=have)

    plain = h._behave

    async def behave(k):
        kind, _, v = h.last
        same(kind, k, v)
        try:
            await plain(k)
        except RuntimeError:
            failed.add(k)
            raise
        finally:
            same(kind, k, v)

    async def on_call(kind, k, v):
        h.last = (kind, k, v)

    h.on_call, h._behave = on_call, behave
    handler = h
    partial = None
    calm = asyncio.Event()
    hold = []
    if rng.random() < 0.4:
        ctx.count("function_handlers")
        handler = controller.ResourceEventHandlerFuncs(add_func=h.on_add, update_func=h.on_update, delete_func=h.on_delete)
        if rng.random() < 0.5:
            ctx.count("partial_handlers")
            partial = rng.choice(["add", "update", "delete"])
    if partial:
        # the missing function must make no difference to the others
        told = {}  # key -> [(kind, version)]

        def noted(kind):
            async def note(*objs):
                o = objs[-1]
                o = o.obj if isinstance(o, delta_fifo.DeletedFinalStateUnknown) else o
                told.setdefault(S.key(o), []).append((kind, S.rv_of(o)))
                if (hold or rng.random() < 0.5) and not calm.is_set():
                    if hold:
                        await calm.wait()
                    elif rng.random() < 0.5:
                        await asyncio.wait([asyncio.ensure_future(calm.wait())], timeout=rng.random() * 20)
                    else:
                        await yields(rng, 9)

            return note

        handler = controller.ResourceEventHandlerFuncs(**{f"{x}_func": noted(x) for x in ("add", "update", "delete") if x != partial})
    st, inf = controller.new_informer(srv, srv.expected, rng.choice([0, 0, 1, 3, 30]), handler)
    ctx.check(not inf.has_synced() and inf.last_sync_resource_version() == "", "a basic informer that does not run has synced to something")
    run = asyncio.ensure_future(inf.run())

    def sample():
        ctx.count("store_samples")
        for o in st.list():
            k, v = S.key(o), S.rv_of(o)
            ctx.check(srv.existed(k, v), "the store holds a version the server never had", key=k, version=v)
        if not partial:
            now = state_of(st)
            diff = [k for k in {*now, *h.state} if now.get(k) != h.state.get(k)]
            ctx.check(len(diff) <= 1, "the store holds changes its handler was not told of", keys=diff)

    async def sampler():
        while True:
            await (asyncio.sleep(rng.random() * rng.choice([0.1, 1, 10])) if rng.random() < 0.7 else yields(rng, 5))
            sample()

    sampling = asyncio.ensure_future(sampler())
    for _ in range(rng.randrange(5, 60)):
        x = rng.random()
        if x < 0.5:
            srv.random_change(names, p_delete=0.4)
            if h.busy:
                ctx.count("slow_handlers")
        elif x < 0.55:
            srv.compact()
        elif x < 0.62:
            for w in list(srv.open_watches()):
                w.plan = (rng.choice(["close", "raise", "error"]), 0, 0)
                w.break_at = 0
            srv.poke()
            if rng.random() < 0.5:
                await asyncio.sleep(rng.random() * 0.5)
                for _ in range(rng.randrange(4)):
                    srv.random_change(names, p_delete=0.6)
        elif x < 0.67:
            await asyncio.sleep(rng.random() * 10)
        elif x < 0.72 and mode == "block":
            h.block.set()
            await yields(rng, 6)
            h.block.clear()
        else:
            await (asyncio.sleep(rng.random() * rng.choice([0.01, 0.5])) if rng.random() < 0.6 else yields(rng, 6))
    srv.quiet()
    h.mode = "fast"
    h.block.set()
    if partial and rng.random() < 0.7:
        # several changes of every object pile up
        await asyncio.sleep(60)
        hold.append(True)
        for _ in range(rng.randrange(2, 7)):
            for ns, n in names:
                srv.random_change([(ns, n)], p_delete=0.4)
        await asyncio.sleep(2)
    calm.set()
    await asyncio.sleep(10)
    for k in failed:
        ns, _, n = k.rpartition("/")
        srv.put(ns or None, n)
    await asyncio.sleep(5)
    for _ in range(rng.randrange(3)):
        srv.random_change(names)
        await asyncio.sleep(1)
    S.still_running(ctx, run)
    sampling.cancel()
    want = srv.state()
    ctx.count("convergences")
    ctx.check(state_of(st) == want, "the store does not become the server's state", got=state_of(st), want=want)
    at = inf.last_sync_resource_version()
    ctx.check(isinstance(at, str) and S.unver(at) >= max(want.values(), default=0), "the version reported as last synced is older than what is stored", reported=at)
    if not partial:
        ctx.check(h.state == want, "the handler was not told the server's state", got=h.state, want=want)
    else:
        for k in {*told, *want}:
            notes = told.get(k, [])
            kinds = [kind for kind, _ in notes]
            ok = not notes or "delete" in (partial, kinds[-1]) or k in want
            if partial == "update":
                ok = kinds == ["add", "delete"] * (len(kinds) // 2) + ["add"] * (len(kinds) % 2) and (kinds[-1:] == ["add"]) == (k in want)
            elif k in want and kinds[-1:] == ["update"] or partial == "delete" and k in want:
                ok = notes[-1:] and notes[-1][1] == want[k]
            ctx.check(ok, "a handler with one function missing was not told what its other functions are for", missing=partial, key=k, told=notes[-4:], want=want.get(k))
    ctx.nontrivial = bool(ctx.counts["tombstones"] or ctx.counts["slow_handlers"] or failed)
    run.cancel()


def item_of(deltas):
    out = []
    for d in deltas:
        o = d.object
        tomb = isinstance(o, delta_fifo.DeletedFinalStateUnknown)
        out.append((d.type.name, S.rv_of(o.obj) if tomb else S.rv_of(o), tomb))
    return out


@horizon(1e5)
async def retry(ctx):
    """A controller whose process function fails by plan; the server is healthy."""
    rng = ctx.rng
    loop = ctx.loop
    srv = S.Server(ctx, slow_call=0.2, latency=rng.choice([0, 0.3]))
    srv.faulty = False
    names = [(rng.choice(["a", "b", None]), f"n{i}") for i in range(rng.randrange(1, 6))]
    for ns, n in names:
        if rng.random() < 0.6:
            srv.put(ns, n)
    again = rng.random() < 0.6
    p_asks = rng.choice([0, 0.2, 1])
    cause = rng.choice([None, RuntimeError("failed")])
    mode = rng.choice(["fast", "fast", "yield", "slow"])
    known = store.new_store(controller.deletion_handling_meta_namespace_key_func)
    queue = delta_fifo.DeltaFIFO(store.meta_namespace_key_func, known)
    plan = {}  # key -> failures still to come
    runs = {}  # key -> [(item, ok)]
    busy = [False]
    hot = [0, 0]

    async def process(deltas):
        ctx.check(not busy[0], "two items are processed at once")
        busy[0] = True
        try:
            k = S.key(deltas[0].object)
            item = item_of(deltas)
            if k not in plan:
                plan[k] = rng.choice([0, 0, 1, 3, 20, 10**9])
            if mode == "yield":
                await yields(rng, 3)
            elif mode == "slow":
                await asyncio.sleep(rng.random())
            ok = plan[k] <= 0
            runs.setdefault(k, []).append((item, ok))
            async def apply():
                for d in deltas:
                    await (known.delete(d.object) if d.type is delta_fifo.DeltaType.DELETED else known.update(d.object))

            if not ok:
                asks = rng.random() < p_asks  # to have the item requeued, whatever the configuration
                if not again and not asks:
                    await apply()
                runs[k][-1] = (item, "again" if asks else ok)
                ctx.count("failed_items")
                if mode == "fast":
                    ctx.count("hot_failures")
                    hot[0] = hot[0] + 1 if hot[1] == loop.steps else 0
                    hot[1] = loop.steps
                    ctx.check(hot[0] < 300, "a failing item keeps everything else from running")
                if rng.random() < 0.005:
                    await asyncio.sleep(0.5)  # so that virtual time can advance
                plan[k] -= 1
                if asks:
                    ctx.count("requeues_asked")
                    raise fifo.RequeueError from cause
                raise rng.choice([RuntimeError("failed"), KeyError("x"), asyncio.TimeoutError(), ValueError()])
            ctx.rec("processed", k, item)
            del plan[k]
            await apply()
        finally:
            busy[0] = False

    c = controller.new(controller.Config(queue=queue, lister_watcher=srv, process=process, object_type=srv.expected, full_resync_period=0, retry_on_error=again))
    run = asyncio.ensure_future(c.run())
    for _ in range(rng.randrange(3, 40)):
        if rng.random() < 0.5:
            srv.random_change(names)
        elif mode == "fast" and again:
            await yields(rng, 12)  # hot retries: no time passes
        else:
            await (asyncio.sleep(rng.random() * rng.choice([0.01, 1])) if rng.random() < 0.6 else yields(rng, 6))
    for k in plan:
        plan[k] = min(plan[k], rng.choice([0, 3, 50]))

    def cap():
        for k in plan:
            plan[k] = min(plan[k], 30)

    end = loop.time() + 400
    while loop.time() < end:
        cap()
        await asyncio.sleep(10)
    S.still_running(ctx, run)
    ctx.check(srv.lists == 1, "a controller listed again although the server is healthy", lists=srv.lists)
    listed = srv.ok_lists[0][1]
    for k, hist in srv.hist.items():
        first = srv.ok_lists[0][2].get(k)
        want = [first] if first is not None else []
        for v, f in hist:
            if v > listed:
                want.append(v)
        if not want:
            continue
        got = runs.get(k, [])
        ctx.count("items_judged", len(got))
        done = [d for item, ok in got if ok is True or (not ok and not again) for d in item]
        versions = [v for _, v, _ in done]
        ctx.check(versions == want, "the changes of an object were not each processed once and in order", key=k, got=versions, want=want, retry=again)
        for i, (item, ok) in enumerate(got):
            if ok is True:
                continue
            if not ok and not again:
                ctx.count("skipped_items")
                continue
            ctx.count("retried_items")
            ctx.check(i + 1 < len(got), "a failed item was not processed again", key=k, item=item)
            nxt = got[i + 1][0]
            ctx.check(nxt[: len(item)] == item, "a failed item came back changed", key=k, item=item, then=nxt)
    ctx.check({S.key(o): S.rv_of(o) for o in known.list()} == srv.state(), "the processed state is not the server's", got=[S.key(o) for o in known.list()])
    ctx.nontrivial = ctx.counts["failed_items"] > 0
    run.cancel()


@horizon(1e5)
async def resync(ctx):
    """Healthy server: each object that stays unchanged is refreshed once per period, across clean watch ends."""
    rng, loop = ctx.rng, ctx.loop
    srv = S.Server(ctx, dicts=rng.random() < 0.4, latency=0, slow_call=0)
    srv.faulty = False
    stable = [("a", f"s{i}") for i in range(rng.randrange(1, 4))]
    moving = [(rng.choice(["b", None]), f"m{i}") for i in range(rng.randrange(3))]
    for ns, n in stable + moving:
        srv.put(ns, n)
    period = rng.choice([0, 0.3, 1, 1, 2.5, 7, 30])
    h = S.Handler(ctx, "h", srv, mode=rng.choice(["fast", "fast", "yield"]), allow_resync=period > 0)
    st, inf = controller.new_informer(srv, srv.expected, period, h)
    run = asyncio.ensure_future(inf.run())
    start = loop.time()
    end = start + (period or 3) * rng.choice([3, 10, 30])
    await asyncio.sleep(0.001)
    while loop.time() < end:
        r = rng.random()
        if r < 0.3 and moving:
            srv.random_change(moving)
        elif r < 0.4:
            for w in srv.open_watches():
                if loop.time() - w.opened > 1.5:
                    w.deadline = 0
            srv.poke()
        else:
            await (asyncio.sleep(rng.random() * rng.choice([0.1, 1, period + 1])) if rng.random() < 0.8 else yields(rng, 4))
    await asyncio.sleep(0.01)
    end = loop.time()
    for k in [S.key_of(*s) for s in stable]:
        times = h.resyncs.get(k, [])
        if not period:
            ctx.count("informers_without_resync")
            ctx.check(not times, "an informer without a resync period sent a resync update", key=k)
            continue
        # the timer of the next period may be set when the last one went off, a moment late each time
        gaps = [b - a for a, b in zip([start, *times], times)]
        ctx.count("gaps_judged", len(gaps))
        for g in gaps:
            ctx.check(period - 0.01 <= g <= period + 0.1, "the updates of an unchanged object are not one period apart", key=k, gap=g, period=period)
        last = times[-1] if times else start
        ctx.check(end - last <= period + 0.1, "an unchanged object got no update for more than a period", key=k, since=end - last, period=period)
    ctx.check(srv.lists == 1, "an informer listed again although the server is healthy", lists=srv.lists)
    ctx.nontrivial = len(h.resyncs) > 0
    run.cancel()


@horizon(1e5)
async def mass(ctx):
    """Thousands of objects."""
    rng = ctx.rng
    srv = S.Server(ctx, dicts=rng.random() < 0.3, p_break=0, p_list_fail=0, slow_call=0, latency=0)
    srv.faulty = False
    n = rng.choice([600, 1200, 2200])
    names = [("a", f"n{i}") for i in range(n)]
    for ns, m in names:
        srv.put(ns, m)
    period = rng.choice([0, 0, 4])
    h = S.Handler(ctx, "h", srv, mode="fast")
    st, inf = controller.new_informer(srv, srv.expected, period, h)
    run = asyncio.ensure_future(inf.run())
    await asyncio.sleep(3)
    for _ in range(2):
        for _ in range(rng.choice([10, 700, 1500])):
            srv.random_change(names, p_delete=0.5)
        await asyncio.sleep(3)
        for w in srv.open_watches():
            w.plan = ("raise", 0, 0)
            w.break_at = 0
        srv.poke()
        await asyncio.sleep(0.01)
        for _ in range(rng.choice([10, 1200])):
            srv.random_change(names, p_delete=rng.choice([0.2, 0.8]))
        srv.compact()
        await asyncio.sleep(10)
        want = srv.state()
        ctx.check(state_of(st) == want, "the store of very many objects does not converge", got=len(st.list()), want=len(want))
        ctx.check(h.state == want, "what the handler was told of very many objects is not the store", got=len(h.state), want=len(want))
        ctx.count("convergences")
    if period:
        ctx.check(all(h.resyncs.get(k) for k in srv.state()), "some of very many objects are not resynced")
    S.still_running(ctx, run)
    ctx.rec("mass", n, period)
    ctx.nontrivial = True
    run.cancel()


SCENARIOS = {"mass": mass, "informer": informer, "retry": retry, "resync": resync}
PLAN = {"quick": {"mass": 6, "informer": 1500, "retry": 1500, "resync": 600}, "thorough": {"mass": 150, "informer": 40000, "retry": 40000, "resync": 10000}}
