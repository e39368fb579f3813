"""C12: a slow or failing handler never delays the cache or other handlers."""
import asyncio

from aiok8s.cache import shared_informer
from aiok8s.util import wait

from rv import server as S
from rv.checks.c11 import states, suffix_of
from rv.util import horizon, yields

PROPERTY = "C12"
RULE = (
    "A shared informer over a healthy fake API server with good handlers and bad ones: blocked for ever, slow (each notification "
    "takes up to minutes), raising on random notifications before or after suspending, registered before the start or late.  "
    "After every batch of changes the cache and every good handler must be up to date within half a second, and registrations made meanwhile "
    "(also from inside a handler) must finish and catch up within half a second; a blocked or slow handler, released after up to a thousand "
    "notifications piled up, must then receive the exact sequence the good ones received; a raising one must receive each notification "
    "exactly once and the next within two minutes. Non-trivial: a bad handler was at least three notifications behind."
)
REQUIRED_COUNTS = ("notifications", "batches_judged", "registrations_judged", "released_sequences", "blocked_handlers", "slow_handlers", "handler_failures", "pauses_judged", "nested_registrations", "largest_backlogs")
ASSUMPTIONS = ["a bounded pause means at most two minutes (the code pauses for one)", "not delayed means within half a second of the change while the server answers at once"]
PROMPT = 0.5


class Failure(Exception):
    pass


class Failing(S.Handler):
    """Raises on some notifications; watches the pauses between its calls."""

    excs = [RuntimeError, Failure, KeyError, asyncio.TimeoutError, wait.WaitTimeoutError, AssertionError, StopAsyncIteration, OSError]

    def __init__(self, *a, p=0.3, **kw):
        super().__init__(*a, **kw)
        self.p = p
        self.failed_at = None

    async def _behave(self, k):
        ctx = self.ctx
        self.failed_at = None
        if self.rng.random() < self.p:
            if self.rng.random() < 0.5:
                await yields(self.rng, 3)
            if self.rng.random() < 0.1:
                await asyncio.sleep(self.rng.random())
            ctx.count("handler_failures")
            self.failed_at = ctx.loop.time()
            raise self.rng.choice(self.excs)("handler failed")


@horizon(1e7)
async def isolate(ctx):
    rng = ctx.rng
    srv = S.Server(ctx, dicts=rng.random() < 0.3, latency=0, slow_call=0)
    srv.faulty = False
    names = [(rng.choice(["a", "b"]), f"n{i}") for i in range(rng.randrange(1, 6))]
    for ns, n in names:
        if rng.random() < 0.6:
            srv.put(ns, n)
    default = rng.choice([0, 0, 2, 30])
    inf = await S.informer_with_indexers(ctx, srv, default)
    cache = inf.get_indexer()
    good, bad = [], []
    nested = []

    def new_good(mode=None):
        h = S.Handler(ctx, f"good{len(good)}", srv, cache, mode=mode or rng.choice(["fast", "yield"]))
        good.append(h)
        return h

    def new_bad():
        kind = rng.choice(["block", "slow", "raise"])
        name = f"{kind}{len(bad)}"
        if kind == "raise":
            h = Failing(ctx, name, srv, cache, p=rng.choice([0.1, 0.4, 1]))
        else:
            h = S.Handler(ctx, name, srv, cache, mode=kind)
            h.slowness = rng.choice([0.5, 5, 100])
        h.kind = kind
        bad.append(h)
        ctx.count({"block": "blocked_handlers", "slow": "slow_handlers", "raise": "raising_handlers"}[kind])
        return h

    first = [new_good()] + [new_good() for _ in range(rng.randrange(2))] + [new_bad() for _ in range(rng.randrange(1, 3))]
    rng.shuffle(first)
    for h in first:
        h.late = False
        await inf.add_event_handler(S.disguise(h))
    ref = next(h for h in good)
    nest_in = rng.choice(first) if rng.random() < 0.4 else None
    if nest_in is not None:

        async def nest(kind, k, v):
            if not nested and rng.random() < 0.3 and run.done() is False and inf.has_synced():
                h = new_good()
                h.late = True
                nested.append(h)
                t0 = ctx.loop.time()
                await inf.add_event_handler(S.disguise(h))
                ctx.count("nested_registrations")
                ctx.check(ctx.loop.time() - t0 <= PROMPT, "registering a handler from inside a handler is delayed", took=ctx.loop.time() - t0)

        nest_in.on_call = nest
    run = asyncio.ensure_future(inf.run())
    far_behind = 0
    big = rng.random() < 0.1
    for i in range(rng.randrange(2, 14)):
        n = rng.randrange(0, 400 if big else 12)
        for _ in range(n):
            srv.random_change(names)
            if rng.random() < 0.5:
                await yields(rng, 3)
        if rng.random() < 0.3 and i:
            h = new_good() if rng.random() < 0.6 else new_bad()
            h.late = True
            t0 = ctx.loop.time()
            t = asyncio.ensure_future(inf.add_event_handler(S.disguise(h)))
            await asyncio.wait([t], timeout=PROMPT)
            ctx.check(t.done(), "registering a handler is delayed by other handlers", bad=[b.name for b in bad])
            t.result()
            ctx.count("registrations_judged")
        await asyncio.sleep(PROMPT if i else PROMPT + 0.1)
        want = srv.state()
        ctx.check(S.cache_state(cache) == want, "the cache is not up to date although only handlers are slow or failing", bad=[b.name for b in bad], cache=S.cache_state(cache), server=want)
        for h in good:
            ctx.check(h.state == want, "a good handler is not up to date although only other handlers are slow or failing", handler=h.name, bad=[b.name for b in bad], told=h.state, server=want)
        ctx.count("batches_judged")
        for b in bad:
            behind = len(ref.seq) - len(b.seq)
            far_behind = max(far_behind, behind)
            if b.kind == "raise" and b.failed_at is not None and behind and not b.late:
                ctx.count("pauses_judged")
                ctx.check(ctx.loop.time() - b.failed_at <= 120, "delivery to a handler that raised does not resume within two minutes", handler=b.name, since=ctx.loop.time() - b.failed_at)
        await asyncio.sleep(rng.random() * rng.choice([0.1, 3, 200]))
    if far_behind > 100:
        ctx.count("largest_backlogs")
    for b in bad:
        b.block.set()
        if b.kind != "raise":
            b.mode = rng.choice(["fast", "yield"])
        elif default or b.late or rng.random() < 0.5 or len(ref.seq) - len(b.seq) > 100:
            b.p = 0  # with resyncs, one that keeps failing may never catch up
    # ---- the bad ones recover
    end = ctx.loop.time() + 200 + 121 * (len(ref.seq) + len(ref.state))
    want = srv.state()
    last = {b.name: (len(b.times), ctx.loop.time()) for b in bad}
    while ctx.loop.time() < end and any(b.state != want or len(b.seq) < len(ref.seq) and not b.late or b.busy for b in bad):
        await asyncio.sleep(0.5 if all(b.kind != "raise" for b in bad) else 10)
        for b in bad:
            n, at = last[b.name]
            if len(b.times) != n or b.busy:
                last[b.name] = (len(b.times), ctx.loop.time())
            elif b.state != want:
                ctx.check(ctx.loop.time() - at <= 140, "a handler that became responsive is not given its notifications", handler=b.name, told=len(b.seq), of=len(ref.seq), waited=ctx.loop.time() - at)
    await asyncio.sleep(125 if any(b.kind == "raise" for b in bad) else 1)
    sts = states(ref.seq)
    for h in good + bad:
        ctx.check(h.state == want, "replaying a handler's notifications does not give the cache", handler=h.name, late=h.late, replay=h.state, cache=want)
        if h.late:
            ctx.check(suffix_of(ref.seq, sts, h.seq) is not None, "a late handler was not told of the cached objects followed by every later change", handler=h.name, told=h.seq[:40], reference=ref.seq[:60])
        else:
            i = next((i for i, (a, b) in enumerate(zip(h.seq, ref.seq)) if a != b), min(len(h.seq), len(ref.seq)))
            ctx.check(h.seq == ref.seq, "a handler did not get all of its notifications in order and once", at=i, handler=h.name, told=h.seq[i : i + 4], reference=ref.seq[i : i + 4])
        ctx.count("released_sequences")
    ctx.nontrivial = far_behind >= 3
    S.still_running(ctx, run)
    run.cancel()


SCENARIOS = {"isolate": isolate}
PLAN = {"quick": {"isolate": 350}, "thorough": {"isolate": 30000}}
