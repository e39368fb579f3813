"""C11: every handler sees a complete, ordered, consistent history of each object."""
import asyncio

from aiok8s.cache import controller, delta_fifo, shared_informer

from rv import server as S
from rv.util import horizon, yields

PROPERTY = "C11"
RULE = (
    "A shared informer (resyncing or not, typed or dictionary objects) against a faulty, versioned fake API server, with several "
    "handlers registered before the start and others at random instants afterwards, fast, suspending, slow or blocked for long, with "
    "mixed resync periods.  Online, each handler's per-object history is judged (add, updates whose old object is the last one told, "
    "delete; versions and contents the server had, never going back; tombstones with the last known state; the cache at least as "
    "new when the handler is called; calls one at a time). Offline, all handlers registered before the start must have the identical "
    "sequence of changes; a late one must have adds of the cached objects at one point of that sequence followed by exactly the rest; every "
    "sampled cache state must be a state of that sequence, in order; and every handler's replay must end as the cache. Partial: handlers with some functions only against full ones. Mass: handlers added late to a cache of hundreds to thousands of objects. Non-trivial: a "
    "relist changed something and a late handler received both adds and later changes."
)
REQUIRED_COUNTS = ("notifications", "resync_updates", "freshness_checks", "same_sequences", "late_sequences", "samples_matched", "replays_compared", "lists", "partial_handlers")
ASSUMPTIONS = ["updates that do not change the version are resync notifications and not part of the sequence of changes"]


def states(seq):
    """The states a sequence of changes goes through (as frozensets)."""
    st = {}
    out = [frozenset()]
    for kind, k, v in seq:
        if kind == "delete":
            st.pop(k, None)
        else:
            st[k] = v
        out.append(frozenset(st.items()))
    return out


def suffix_of(ref, sts, seq):
    """The point of ref at which a late handler with this sequence joined, or None."""
    for p, st in enumerate(sts):
        n = len(st)
        if len(seq) != n + len(ref) - p:
            continue
        head = seq[:n]
        if all(k == "add" for k, _, _ in head) and frozenset((k, v) for _, k, v in head) == st and seq[n:] == ref[p:]:
            return p
    return None


async def settle(ctx, srv, cache, handlers, within=20):
    end = ctx.loop.time() + within
    while ctx.loop.time() < end:
        want = srv.state()
        if S.cache_state(cache) == want and all(h.state == want and not h.busy for h in handlers) and any(not w.expired for w in srv.open_watches()):
            # one that merely happens to agree may still have notifications waiting for it
            await asyncio.sleep(5)
            return
        await asyncio.sleep(0.25)


@horizon(1e5)
async def histories(ctx):
    rng = ctx.rng
    srv = S.Server(ctx, dicts=rng.random() < 0.3, p_break=rng.choice([0.2, 0.6, 0.9]), p_list_fail=rng.choice([0, 0.3]))
    names = [(rng.choice(["a", "b"]), f"n{i}") for i in range(rng.randrange(1, 5))]
    for ns, n in names:
        if rng.random() < 0.6:
            srv.put(ns, n)
    default = rng.choice([0, 0, 1, 3, 30])
    inf = await S.informer_with_indexers(ctx, srv, default)
    cache = inf.get_indexer()
    handlers = []
    snaps = []

    def handler(mode=None):
        period = rng.choice([None, None, 0, 0, 1, 5])
        p = default if period is None else period
        h = S.Handler(ctx, f"h{len(handlers)}", srv, cache, mode=mode or rng.choice(["fast", "yield", "slow", "block"]), period=period, allow_resync=bool(p and default))
        h.late = False
        handlers.append(h)
        return h

    async def add(h):
        await (inf.add_event_handler(S.disguise(h)) if h.period is None else inf.add_event_handler(S.disguise(h), resync_period=h.period))

    ref = handler(rng.choice(["fast", "yield"]))
    for _ in range(rng.randrange(0, 3)):
        handler()
    rng.shuffle(handlers)
    for h in handlers:
        await add(h)
    run = asyncio.ensure_future(inf.run())
    regs = []

    async def sample():
        while True:
            snaps.append(frozenset(S.cache_state(cache).items()))
            await (asyncio.sleep(rng.random() * 2) if rng.random() < 0.2 else asyncio.sleep(0) if rng.random() < 0.7 else yields(rng, 5))

    sampler = asyncio.ensure_future(sample())

    async def late(h):
        h.late = True
        await add(h)

    late_steps = rng.randrange(4)
    for i in range(rng.randrange(8, 80)):
        r = rng.random()
        if r < 0.5:
            srv.random_change(names, p_delete=0.4)
        elif r < 0.54:
            srv.compact()
        elif r < 0.6:
            for w in list(srv.open_watches()):
                w.plan = (rng.choice(["close", "raise", "error"]), 0, 0)
                w.break_at = 0
            srv.poke()
        elif r < 0.68 and late_steps:
            late_steps -= 1
            h = handler()
            if rng.random() < 0.5:
                await late(h)
            else:
                regs.append(asyncio.ensure_future(late(h)))
        elif r < 0.72:
            h = rng.choice(handlers)
            h.block.set()
        else:
            await (asyncio.sleep(rng.random() * rng.choice([0.01, 0.5, 3, 10])) if rng.random() < 0.6 else yields(rng, 6))
    srv.quiet()
    for h in handlers:
        h.block.set()
        h.mode = rng.choice(["fast", "yield"])
    if regs:
        await asyncio.wait(regs, timeout=10)
        ctx.check(all(t.done() for t in regs), "registering a handler does not finish")
        for t in regs:
            t.result()
    await settle(ctx, srv, cache, handlers)
    sampler.cancel()
    want = S.cache_state(cache)
    for h in handlers:
        ctx.check(h.state == want, "replaying a handler's notifications does not give the cache", handler=h.name, late=h.late, period=h.period, replay=h.state, cache=want)
        ctx.count("replays_compared")
    for h in handlers:
        if not h.late and h is not ref:
            i = next((i for i, (a, b) in enumerate(zip(h.seq, ref.seq)) if a != b), min(len(h.seq), len(ref.seq)))
            ctx.check(h.seq == ref.seq, "two handlers registered before the start were told of different sequences of changes", at=i, a=h.seq[i : i + 4], b=ref.seq[i : i + 4], handlers=[h.name, ref.name], periods=[h.period, ref.period])
            ctx.count("same_sequences")
    sts = states(ref.seq)
    joined = False
    for h in handlers:
        if h.late:
            p = suffix_of(ref.seq, sts, h.seq)
            ctx.check(p is not None, "a late handler was not told of the cached objects followed by every later change", handler=h.name, told=h.seq[:40], reference=ref.seq[:60])
            ctx.count("late_sequences")
            joined = joined or (len(sts[p]) > 0 and p < len(ref.seq))
    i = 0
    for s in snaps:
        j = i
        while j < len(sts) and sts[j] != s:
            j += 1
        ctx.check(j < len(sts), "the cache went through a state no sequence of notifications explains", cache=sorted(s), after=sorted(sts[i]))
        i = j
        ctx.count("samples_matched")
    ctx.nontrivial = joined and len(srv.ok_lists) >= 2
    S.still_running(ctx, run)
    run.cancel()


@horizon(1e5)
async def mass(ctx):
    """Thousands of objects."""
    rng = ctx.rng
    srv = S.Server(ctx, dicts=rng.random() < 0.3, p_break=0, p_list_fail=0, slow_call=0, latency=0)
    srv.faulty = False
    n = rng.choice([600, 1200, 2200])
    names = [("a", f"n{i}") for i in range(n)]
    for ns, m in names:
        srv.put(ns, m)
    inf = await S.informer_with_indexers(ctx, srv, 0)
    cache = inf.get_indexer()
    handlers = [S.Handler(ctx, "h0", srv, cache, mode="fast", allow_resync=False)]
    await inf.add_event_handler(handlers[0])
    run = asyncio.ensure_future(inf.run())
    await asyncio.sleep(5)
    h = S.Handler(ctx, "late", srv, cache, mode=rng.choice(["fast", "block"]), allow_resync=False)
    await inf.add_event_handler(h)
    handlers.append(h)
    await asyncio.sleep(1)
    for _ in range(rng.choice([0, 700, 1500])):
        srv.random_change(names)
    await asyncio.sleep(5)
    # a gap, found by a relist
    for w in srv.open_watches():
        w.plan = ("raise", 0, 0)
        w.break_at = 0
    srv.poke()
    await asyncio.sleep(0.01)
    for _ in range(rng.choice([10, 1200])):
        srv.random_change(names, p_delete=0.6)
    srv.compact()
    await asyncio.sleep(10)
    h.mode = "fast"
    h.block.set()
    await asyncio.sleep(30)
    S.still_running(ctx, run)
    want = srv.state()
    ctx.check(S.cache_state(cache) == want, "the cache of very many objects does not converge", got=len(S.cache_state(cache)), want=len(want))
    for h in handlers:
        ctx.count("replays_judged")
        ctx.check(h.state == want, "replaying a handler's notifications does not give the cache", handler=h.name, got=len(h.state), want=len(want))
    ctx.rec("mass", n, len(want))
    ctx.nontrivial = True
    run.cancel()


@horizon(1e5)
async def partial(ctx):
    """A handler with some functions only is told the same as a full one registered with it, except for the others."""
    rng = ctx.rng
    srv = S.Server(ctx, dicts=rng.random() < 0.3, p_break=0, p_list_fail=0, slow_call=0, latency=0)
    srv.faulty = False
    names = [("a", f"n{i}") for i in range(rng.randrange(1, 6))]
    for ns, m in names:
        if rng.random() < 0.6:
            srv.put(ns, m)
    inf = await S.informer_with_indexers(ctx, srv, rng.choice([0, 0, 2]))
    pairs = []

    def functions(notes, kinds, slow):
        def noted(kind):
            async def note(*objs):
                o = objs[-1]
                tomb = isinstance(o, delta_fifo.DeletedFinalStateUnknown)
                notes.append((kind, S.key(o.obj if tomb else o), S.rv_of(o.obj if tomb else o), tomb))
                if slow:
                    await yields(rng, 5)

            return note

        return controller.ResourceEventHandlerFuncs(**{f"{k}_func": noted(k) for k in kinds})

    async def register():
        some = rng.choice([["add"], ["update"], ["delete"], ["add", "update"], ["add", "delete"], ["update", "delete"], []])
        full, part = [], []
        await inf.add_event_handler(functions(full, ["add", "update", "delete"], rng.random() < 0.3))
        await inf.add_event_handler(functions(part, some, rng.random() < 0.3))
        pairs.append((some, full, part))

    await register()
    run = asyncio.ensure_future(inf.run())
    await asyncio.sleep(1)
    for _ in range(rng.randrange(5, 30)):
        x = rng.random()
        if x < 0.7:
            srv.random_change(names, p_delete=0.4)
        elif x < 0.75:
            await asyncio.sleep(1)
            await register()
        elif x < 0.8:
            # a gap
            for w in srv.open_watches():
                w.plan = ("raise", 0, 0)
                w.break_at = 0
            srv.poke()
            await asyncio.sleep(0.01)
            for _ in range(rng.randrange(4)):
                srv.random_change(names, p_delete=0.6)
            srv.compact()
        else:
            await (asyncio.sleep(rng.random() * 2) if rng.random() < 0.5 else yields(rng, 10))
    await asyncio.sleep(10)
    S.still_running(ctx, run)
    for some, full, part in pairs:
        ctx.count("partial_handlers")
        # resyncs of handlers need not go on at the same instant
        want = [n for n in full if n[0] in some]
        near = abs(len(want) - len(part)) <= len(names) and all(a == b for a, b in zip(want, part))
        ctx.check(near if "update" in some else part == want, "a handler with some functions only is not told what a full one is", functions=some, got=part[-4:], want=want[-4:], lengths=(len(part), len(want)))
        ctx.rec("partial", some, len(part))
    ctx.nontrivial = any(len(p) > 3 for _, _, p in pairs)
    run.cancel()


SCENARIOS = {"mass": mass, "partial": partial, "histories": histories}
PLAN = {"quick": {"mass": 8, "partial": 300, "histories": 4000}, "thorough": {"mass": 200, "partial": 8000, "histories": 40000}}
