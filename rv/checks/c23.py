"""C23: a dropping broadcaster never blocks and drops only what does not fit."""
import asyncio

from aiok8s.watch.mux import Broadcaster, FullChannelBehavior

from rv.crowd import crowd
from rv.util import yields

PROPERTY = "C23"
RULE = (
    "exact: broadcasts, receives, registrations and stops one at a time, every watcher's content compared with an exact bounded "
    "queue; free: concurrent producers and watchers of every speed (idle, slow, timed-out receives, stopped), sequences checked "
    "against what was broadcast; idle: thousands of broadcasts and the shutdown with nobody receiving, in zero virtual time; flood: hundreds of broadcasts at the same moment, which all fit. "
    "Crowd: up to hundreds of watchers, and any objects, equal, empty and odd ones in a row included. Non-trivial: something was dropped while another watcher received it."
)
REQUIRED_COUNTS = ("events", "received", "dropped", "keeping_up_watchers", "idle_watchers", "timed_out_receives", "stops", "shutdowns", "blocking_checks", "prefix_watchers", "floods", "crowded_watchers", "repeated_events")
ASSUMPTIONS = ["queue lengths of at least one", "a watcher registered with a prefix may have a longer queue", "one receiver at a time per watcher"]


async def _settle():
    for _ in range(12):
        await asyncio.sleep(0)


async def _prompt(ctx, coro, what):
    """Runs coro, which must complete without any virtual time passing."""
    ctx.count("blocking_checks")
    t0 = ctx.loop.time()
    t = asyncio.ensure_future(coro)
    await asyncio.wait([t], timeout=100)
    ctx.check(t.done() and ctx.loop.time() == t0, what + " waits although the broadcaster drops", done=t.done())
    return await t


async def exact(ctx):
    rng = ctx.rng
    qlen = rng.choice([1, 1, 2, 5, 20])
    m = Broadcaster(qlen, FullChannelBehavior.DROP_IF_CHANNEL_FULL)
    ws = []  # dicts: w, model(list), waiting(task or None), stopped
    n = 0

    async def register():
        w = await _prompt(ctx, m.watch(), "registering a watcher")
        ws.append({"w": w, "q": [], "waiting": None, "stopped": False, "got": 0, "drops": 0})

    await register()
    for _ in range(rng.randrange(20, 150)):
        await _settle()
        r = rng.random()
        live = [w for w in ws if not w["stopped"]]
        if r < 0.08 and len(ws) < 8:
            await register()
        elif r < 0.55:
            n += 1
            ctx.count("events")
            await _prompt(ctx, m.action("E", n), "broadcasting")
            ctx.rec("event", n)
            await _settle()
            for i, w in enumerate(live):
                if w["waiting"]:
                    ctx.check(w["waiting"].done(), "a waiting watcher missed an event", watcher=i, event=n)
                    ctx.check(w["waiting"].result() == {"type": "E", "object": n}, "a waiting watcher received the wrong event", got=w["waiting"].result(), want=n)
                    w["waiting"] = None
                    w["got"] += 1
                    ctx.count("received")
                elif len(w["q"]) < qlen:
                    w["q"].append(n)
                else:
                    w["drops"] += 1
                    ctx.count("dropped")
        elif r < 0.95 and live:
            w = rng.choice(live)
            if w["waiting"]:
                ctx.check(not w["waiting"].done(), "a watcher received something never broadcast to it")
            else:
                t = asyncio.ensure_future(w["w"].__anext__())
                await _settle()
                if w["q"]:
                    want = w["q"].pop(0)
                    ctx.check(t.done(), "a watcher misses an event that found room in its queue", want=want)
                    ctx.check(t.result() == {"type": "E", "object": want}, "a watcher received the wrong event", got=t.result(), want=want)
                    w["got"] += 1
                    ctx.count("received")
                    ctx.rec("got", ws.index(w), want)
                else:
                    ctx.check(not t.done(), "a watcher received something never broadcast to it", got=t)
                    w["waiting"] = t
        elif len(live) > 1 and r > 0.98:
            w = rng.choice(live)
            w["stopped"] = True
            ctx.count("stops")
            await _prompt(ctx, w["w"].stop(), "stopping a watcher")
            if w["waiting"]:
                await asyncio.wait([w["waiting"]], timeout=1)
                ctx.check(isinstance(w["waiting"].exception(), StopAsyncIteration), "a stopped watcher's iteration does not end")
    await _settle()
    await _prompt(ctx, m.shutdown(), "shutdown")
    ctx.count("shutdowns")
    for w in ws:
        if w["stopped"]:
            continue
        rest = []
        if w["waiting"]:
            await asyncio.wait([w["waiting"]], timeout=1)
            ctx.check(w["waiting"].done() and isinstance(w["waiting"].exception(), StopAsyncIteration), "a waiting watcher's iteration does not end after shutdown")
        else:

            async def drain():
                async for e in w["w"]:
                    rest.append(e["object"])

            await asyncio.wait_for(drain(), 5)
        ctx.check(rest == w["q"], "a watcher does not hold exactly the events that found room", got=rest, want=w["q"])
        if not w["drops"]:
            ctx.count("keeping_up_watchers")
        if not w["got"]:
            ctx.count("idle_watchers")
    ctx.nontrivial = any(w["drops"] for w in ws) and any(w["got"] for w in ws)


async def free(ctx):
    rng = ctx.rng
    qlen = rng.choice([1, 2, 5, 50])
    m = Broadcaster(qlen, FullChannelBehavior.DROP_IF_CHANNEL_FULL)
    tick = 0
    acts = {}
    ws = []
    dropped = False

    def now():
        nonlocal tick
        tick += 1
        return tick

    async def produce(p, n):
        burst = rng.random() < 0.5
        for i in range(n):
            if not burst or rng.random() < 0.2:
                await asyncio.sleep(rng.choice([0.01, 0.3]))
            e = (p, i)
            acts[e] = [now(), None, burst]
            await _prompt(ctx, m.action("E", e), "broadcasting")
            acts[e][1] = now()
            ctx.count("events")

    async def consumer(i):
        if i and rng.random() < 0.5:
            await asyncio.sleep(rng.random())
        prefix = [("p", i, j) for j in range(rng.choice([1, 5, 20]))] if rng.random() < 0.3 else []
        called = now()
        if prefix:
            ctx.count("prefix_watchers")
            w = await _prompt(ctx, m.watch_with_prefix([{"type": "P", "object": p} for p in prefix]), "registering a watcher")
        else:
            w = await _prompt(ctx, m.watch(), "registering a watcher")
        mode = rng.choice(["fast", "slow", "idle", "timeouts", "stop"]) if i else "fast"
        rec = {"i": i, "w": w, "prefix": prefix, "called": called, "returned": now(), "got": [], "mode": mode}
        ws.append(rec)
        if mode == "idle":
            ctx.count("idle_watchers")
            await finished.wait()
        stop_at = rng.randrange(1, 20) if mode == "stop" else None
        while True:
            if mode == "slow" and rng.random() < 0.5:
                await asyncio.sleep(rng.random())
            try:
                if mode == "timeouts":
                    t = rng.random()
                    if t < 0.5:
                        ev = await asyncio.wait_for(w.__anext__(), rng.choice([0, 0.01, 0.1]))
                    else:
                        await yields(rng, 3)
                        ev = await w.__anext__()
                else:
                    ev = await w.__anext__()
            except asyncio.TimeoutError:
                ctx.count("timed_out_receives")
                if finished.is_set():
                    await asyncio.sleep(0.01)
                continue
            except StopAsyncIteration:
                return
            rec["got"].append(ev["object"])
            ctx.count("received")
            ctx.rec("got", i, ev["object"])
            if len(rec["got"]) == stop_at:
                ctx.count("stops")
                rec["stopped"] = True
                await _prompt(ctx, w.stop(), "stopping a watcher")

    finished = asyncio.Event()
    cs = [asyncio.ensure_future(consumer(i)) for i in range(rng.randrange(1, 7))]
    while not ws:
        await asyncio.sleep(0)
    ps = [asyncio.ensure_future(produce(p, rng.randrange(1, 60))) for p in range(rng.randrange(1, 4))]
    await asyncio.wait_for(asyncio.gather(*ps), 1000)
    await asyncio.sleep(2)
    await _prompt(ctx, m.shutdown(), "shutdown")
    ctx.count("shutdowns")
    finished.set()
    done, pending = await asyncio.wait(cs, timeout=1000)
    for t in done:
        await t
    ctx.check(not pending, "a watcher's iteration does not end after shutdown")
    paced = not any(a[2] for a in acts.values()) and len(ps) == 1
    for w in ws:
        n = len(w["prefix"])
        got = w["got"]
        ctx.check(got[:n] == w["prefix"][: len(got)], "prefix events are not delivered first, in order", got=got[:n])
        if not w.get("stopped"):
            ctx.check(len(got) >= n, "prefix events were dropped")
        body = got[n:]
        ctx.check(len(set(body)) == len(body), "an event was delivered twice", got=body)
        last = {}
        for e in body:
            ctx.check(e in acts, "a watcher received something never broadcast", event=e)
            ctx.check(acts[e][1] is None or acts[e][1] > w["called"], "a watcher received an event broadcast before it registered", event=e)
            ctx.check(last.get(e[0], -1) < e[1], "events were delivered out of order", got=body)
            last[e[0]] = e[1]
        want = [e for e, a in acts.items() if a[0] > w["returned"]]
        if len(set(body) & set(want)) < len(want) and not w.get("stopped"):
            dropped = True
            ctx.count("dropped")
        if w["mode"] == "fast" and paced:
            ctx.count("keeping_up_watchers")
            ctx.check([e for e in body if e in want] == want, "a watcher that keeps up missed an event", got=body, want=want)
        if w["mode"] == "idle" and not n:
            first = want[:qlen]
            if len(ps) == 1:
                ctx.check(body[: len(first)] == first or (body and body[0] not in want), "an idle watcher does not keep the first events up to its queue length", got=body, want=first)
            ctx.check(len(body) >= min(qlen, len(want)), "an idle watcher keeps fewer events than fit", got=len(body), want=min(qlen, len(want)))
            ctx.check(len(body) <= qlen + 1, "an idle watcher kept more than its queue length", got=len(body), qlen=qlen)
    ctx.nontrivial = dropped


async def flood(ctx):
    """More broadcasts at the same moment than anything inside could hold; everybody has room for them all."""
    rng = ctx.rng
    n = rng.choice([5, 60, 300])
    m = Broadcaster(n + rng.randrange(0, 3), FullChannelBehavior.DROP_IF_CHANNEL_FULL)
    ws = [await _prompt(ctx, m.watch(), "registering a watcher") for _ in range(rng.randrange(1, 4))]
    if rng.random() < 0.5:
        ts = [asyncio.ensure_future(m.action("E", i)) for i in range(n)]
        await _prompt(ctx, asyncio.wait(ts), "broadcasting")
        for t in ts:
            await t
    else:

        async def one(k):
            for i in range(k, n, 5):
                await m.action("E", i)
                if rng.random() < 0.3:
                    await asyncio.sleep(0)

        await _prompt(ctx, asyncio.gather(*(one(k) for k in range(5))), "broadcasting")
    ctx.count("events", n)
    await _prompt(ctx, m.shutdown(), "shutdown")
    ctx.count("shutdowns")
    ctx.count("floods")
    first = None
    for w in ws:
        got = []

        async def drain():
            async for e in w:
                got.append(e["object"])

        await asyncio.wait_for(drain(), 5)
        ctx.count("received", len(got))
        ctx.check(sorted(got) == list(range(n)), "an event that fits was dropped or delivered twice", got=len(got), want=n)
        ctx.check(first is None or got == first, "watchers received the same events in different orders")
        first = got
    ctx.rec(n, len(ws))
    ctx.nontrivial = n > 5


async def idle(ctx):
    rng = ctx.rng
    qlen = rng.choice([1, 3, 30])
    m = Broadcaster(qlen, FullChannelBehavior.DROP_IF_CHANNEL_FULL)
    ws = []
    for i in range(rng.randrange(1, 6)):
        ws.append(await _prompt(ctx, m.watch(), "registering a watcher"))
    stopped = []
    total = rng.randrange(50, 1500)
    for i in range(total):
        await _prompt(ctx, m.action("E", i), "broadcasting")
        ctx.count("events")
        if len(ws) - len(stopped) > 1 and rng.random() < 0.01:
            w = rng.choice([w for w in ws if w not in stopped])
            stopped.append(w)
            ctx.count("stops")
            await _prompt(ctx, w.stop(), "stopping a watcher")
    await _prompt(ctx, m.shutdown(), "shutdown")
    ctx.count("shutdowns")
    for w in ws:
        if w in stopped:
            continue
        ctx.count("idle_watchers")
        got = []

        async def drain():
            async for e in w:
                got.append(e["object"])

        await asyncio.wait_for(drain(), 5)
        ctx.count("received", len(got))
        ctx.count("dropped", total - len(got))
        ctx.check(got == list(range(min(qlen, total))), "an idle watcher does not keep the first events up to its queue length", got=got, qlen=qlen)
    ctx.rec(qlen, total, len(ws), len(stopped))
    ctx.nontrivial = True


SCENARIOS = {"crowd": crowd(FullChannelBehavior.DROP_IF_CHANNEL_FULL, False), "exact": exact, "free": free, "idle": idle, "flood": flood}
PLAN = {
    "quick": {"crowd": 300, "exact": 600, "free": 900, "idle": 40, "flood": 200},
    "thorough": {"crowd": 5000, "exact": 15000, "free": 20000, "idle": 600, "flood": 3000},
}
