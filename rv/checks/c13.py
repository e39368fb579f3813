"""C13: resync notifications reach exactly the handlers that asked, at their period."""
import asyncio

from aiok8s.cache import shared_informer

from rv import server as S
from rv.util import horizon, yields

PROPERTY = "C13"
RULE = (
    "Shared informers with every kind of default resync period and handlers with mixed requested periods (none, zero, below a second, "
    "below and above the informer's), registered before the start or late (also exactly at resync instants), over a server with stable "
    "and changing objects whose watches end cleanly from time to time.  The effective periods are computed from the statement; for each "
    "handler and object the times of updates that do not change the version are judged: gaps at least the handler's period and at most "
    "one check period more, first one due from registration, none at all for handlers without resync.  A second scenario adds stream failures, relists and slow handlers "
    "and judges that handlers without resync never get such updates and the others still do. Mass: resyncs of hundreds to thousands of objects. Non-trivial: handlers of two different "
    "effective periods, at least three resyncs each."
)
REQUIRED_COUNTS = ("gaps_judged", "first_resyncs_judged", "handlers_without_resync", "late_handlers", "shortened_checks", "raised_periods", "resync_updates", "lists", "watches", "unchanged_relists")
ASSUMPTIONS = ["an object whose change is still being delivered when a resync is due may be left out of that resync", "a relist may also refresh the handlers that resync"]
EPS = 0.01


class Plan:
    """The periods the statement promises."""

    def __init__(self, ctx, default):
        self.ctx = ctx
        self.default = default
        self.check = default
        self.started = False

    def want(self, req):
        p = self.default if req is None else req
        if not p:
            return 0
        if p < 1:
            self.ctx.count("raised_periods")
        p = max(1, p)
        if self.check == 0:
            return 0
        if p < self.check:
            if self.started:
                self.ctx.count("raised_periods")
                return self.check
            self.check = p
            self.ctx.count("shortened_checks")
        return p


async def setup(ctx, srv, default):
    inf = await S.informer_with_indexers(ctx, srv, default)
    return inf, Plan(ctx, default)


async def register(ctx, inf, plan, handlers, srv, mode="fast"):
    rng = ctx.rng
    req = rng.choice([None, None, 0, 0, 0.1, 1, 1.5, 2, 3, 5, 10, 45])
    p = plan.want(req)
    h = S.Handler(ctx, f"h{len(handlers)}", srv, inf.get_indexer(), mode=mode, period=req, allow_resync=p > 0)
    h.effective = p
    h.registered = ctx.loop.time()
    h.late = plan.started
    handlers.append(h)
    if not p:
        ctx.count("handlers_without_resync")
    if plan.started:
        ctx.count("late_handlers")
    if req is None:
        await inf.add_event_handler(S.disguise(h))
    else:
        await inf.add_event_handler(S.disguise(h), resync_period=req)
    return h


@horizon(1e6)
async def periods(ctx):
    rng = ctx.rng
    srv = S.Server(ctx, dicts=rng.random() < 0.3, latency=0, slow_call=0)
    srv.faulty = False
    stable = [("a", f"s{i}") for i in range(rng.randrange(1, 4))]
    moving = [("b", f"m{i}") for i in range(rng.randrange(3))]
    for ns, n in stable:
        srv.put(ns, n)
    inf, plan = await setup(ctx, srv, rng.choice([0, 0.5, 1, 2, 3, 7, 30]))
    handlers = []
    for _ in range(rng.randrange(1, 5)):
        await register(ctx, inf, plan, handlers, srv, rng.choice(["fast", "yield"]))
    gap = rng.choice([0, 0, 2.5])
    if gap:
        await asyncio.sleep(gap)
    run = asyncio.ensure_future(inf.run())
    plan.started = True
    started = ctx.loop.time()
    await asyncio.sleep(0.001)
    span = 12 * max([h.effective for h in handlers] + [plan.check, 5]) * rng.choice([0.5, 1])
    end = started + span
    late = rng.randrange(4)
    while ctx.loop.time() < end:
        r = rng.random()
        if r < 0.3 and moving:
            srv.random_change(moving)
        elif r < 0.4 and late:
            late -= 1
            if plan.check and rng.random() < 0.6:  # at a resync instant
                n = int((ctx.loop.time() - started) / plan.check) + 1
                await asyncio.sleep(max(0, started + n * plan.check - ctx.loop.time()))
                await yields(rng, 6)
            await register(ctx, inf, plan, handlers, srv, rng.choice(["fast", "yield"]))
        elif r < 0.5:
            # the server ends a watch that lasted: the next one continues
            for w in srv.open_watches():
                if ctx.loop.time() - w.opened > 1.5:
                    w.deadline = 0
            srv.poke()
        else:
            await (asyncio.sleep(rng.random() * rng.choice([0.1, 1, plan.check + 1])) if rng.random() < 0.8 else yields(rng, 4))
    await asyncio.sleep(0.01)
    end = ctx.loop.time()
    skeys = [S.key_of(*s) for s in stable]
    many = set()
    for h in handlers:
        p = h.effective
        if not p:
            ctx.check(not h.resyncs, "a handler that asked for no resyncs got a resync update", handler=h.name)
            continue
        for k, ts in h.resyncs.items():
            for a, b in zip(ts, ts[1:]):
                ctx.count("gaps_judged")
                ctx.check(b - a >= p - EPS, "a handler got two resync updates of an object within its period", key=k, period=p, gap=b - a, check=plan.check)
        for k in skeys:
            ts = h.resyncs.get(k, [])
            since = max(h.registered, started)
            due = since + p + plan.check + EPS
            if end > due:
                ctx.count("first_resyncs_judged")
                ctx.check(ts and ts[0] <= due, "a handler's first resync of an object is late or missing", key=k, handler=h.name, period=p, requested=h.period, late=h.late, check=plan.check, first=ts[:1], since=since)
            if ts:
                ctx.check(ts[0] >= h.registered + p - EPS, "a handler was resynced before its period had passed", key=k, period=p, registered=h.registered, first=ts[0])
            for a, b in zip(ts, ts[1:] + [None]):
                nxt = end if b is None else b
                ctx.check(nxt - a <= p + plan.check + EPS, "a resync update is more than one check period late or missing", key=k, handler=h.name, period=p, requested=h.period, check=plan.check, gap=nxt - a, last=b is None)
            if len(ts) >= 3:
                many.add(p)
    ctx.nontrivial = len(many) >= 2
    S.still_running(ctx, run)
    run.cancel()


@horizon(1e6)
async def relists(ctx):
    rng = ctx.rng
    srv = S.Server(ctx, dicts=rng.random() < 0.3)
    names = [("a", f"s{i}") for i in range(rng.randrange(1, 4))]
    for ns, n in names:
        srv.put(ns, n)
    inf, plan = await setup(ctx, srv, rng.choice([0, 0, 1, 3]))
    handlers = []
    modes = ["fast", "yield", "slow"]
    for _ in range(rng.randrange(1, 5)):
        await register(ctx, inf, plan, handlers, srv, rng.choice(modes))
    run = asyncio.ensure_future(inf.run())
    plan.started = True
    for _ in range(rng.randrange(10, 60)):
        r = rng.random()
        if r < 0.2:
            srv.random_change(names, p_delete=0.2)
        elif r < 0.3 and len(handlers) < 7:
            await register(ctx, inf, plan, handlers, srv, rng.choice(modes))
        elif r < 0.5:
            n = len(srv.ok_lists)
            state = srv.ok_lists[-1][2] if n else None
            for w in srv.open_watches():
                w.plan = (rng.choice(["close", "raise", "error"]), 0, 0)
                w.break_at = 0
            srv.poke()
            await asyncio.sleep(1.5)
            if len(srv.ok_lists) > n and srv.ok_lists[-1][2] == state and state:
                ctx.count("unchanged_relists")
        else:
            await asyncio.sleep(rng.random() * rng.choice([0.1, 1, 5]))
    srv.quiet()
    for h in handlers:
        h.mode = "fast"
    await asyncio.sleep(15)
    marks = [(h, {k: len(ts) for k, ts in h.resyncs.items()}) for h in handlers]
    await asyncio.sleep(3.1 * max([h.effective for h in handlers] + [1]) + 2 * plan.check)
    for h, mark in marks:
        if h.effective:
            for k in srv.state():
                n = len(h.resyncs.get(k, [])) - mark.get(k, 0)
                ctx.check(n >= 1, "resyncs of a handler stopped after connection failures", handler=h.name, key=k, period=h.effective)
                ctx.nontrivial = True
        else:
            ctx.check(not h.resyncs, "a handler that asked for no resyncs got a resync update", handler=h.name)
    S.still_running(ctx, run)
    run.cancel()


@horizon(1e5)
async def mass(ctx):
    """Thousands of objects are all resynced."""
    rng = ctx.rng
    srv = S.Server(ctx, dicts=rng.random() < 0.3, latency=0, slow_call=0)
    srv.faulty = False
    n = rng.choice([300, 600, 1200])
    for i in range(n):
        srv.put("a", f"n{i}")
    inf, plan = await setup(ctx, srv, 5)
    handlers = []
    for _ in range(2):
        await register(ctx, inf, plan, handlers, srv, "fast")
    run = asyncio.ensure_future(inf.run())
    plan.started = True
    await asyncio.sleep(1)
    span = 3 * max([h.effective for h in handlers] + [5]) + 2 * plan.check
    await asyncio.sleep(span)
    for h in handlers:
        if not h.effective:
            ctx.check(not h.resyncs, "a handler that asked for no resyncs got a resync update", handler=h.name)
            continue
        short = [k for k in srv.state() if len(h.resyncs.get(k, ())) < 2]
        ctx.count("first_resyncs_judged")
        ctx.check(not short, "some of very many objects are not resynced", handler=h.name, period=h.effective, missed=len(short), objects=n)
        ctx.nontrivial = True
    ctx.rec("mass", n)
    S.still_running(ctx, run)
    run.cancel()


SCENARIOS = {"mass": mass, "periods": periods, "relists": relists}
PLAN = {"quick": {"mass": 6, "periods": 300, "relists": 400}, "thorough": {"mass": 100, "periods": 20000, "relists": 20000}}
