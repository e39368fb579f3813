"""C22: a waiting broadcaster delivers every event in order to every watcher."""
import asyncio

from aiok8s.watch.mux import Broadcaster, FullChannelBehavior

from rv.crowd import crowd
from rv.util import yields

PROPERTY = "C22"
RULE = (
    "deliver: 1-3 producers, up to 6 watchers registered at any time (with or without prefix), fast, slow, pausing and with "
    "timed-out receives, used as contexts that are left in any way, stopped from anywhere or running to the shutdown, among registrations that are cancelled at any instant; received sequences checked for order, completeness, "
    "duplicates and the registration window; cross: watchers that stop each other inside their loops; blocked: a broadcast and a "
    "shutdown waiting for idle watchers that are then stopped one by one. Mass: hundreds to thousands of events waiting for one slow watcher. Crowd: up to hundreds of watchers, and any objects, equal, empty and odd ones in a row included. Non-trivial: a watcher was slower than the producer, "
    "timed out, was stopped, or registered after events."
)
REQUIRED_COUNTS = (
    "events", "received", "full_watchers", "prefix_watchers", "late_watchers", "timed_out_receives", "stops", "stops_while_blocked",
    "cross_stops", "shutdowns", "queue_length_0", "queue_length_1", "queue_length_many", "released_broadcasts", "backlog_checks",
    "abandoned_registrations", "registered_in_time", "contexts", "crowded_watchers", "repeated_events",
)
ASSUMPTIONS = [
    "concurrent broadcasts may be ordered either way, but the same way for every watcher",
    "a stopped watcher need not hand out what it had not received when it was stopped",
    "one receiver at a time per watcher",
]


def _ev(n):
    return "E", n


class W:
    """A watcher and what it received."""

    def __init__(self, name, w, prefix, called, returned):
        self.name = name
        self.w = w
        self.prefix = prefix
        self.called = called
        self.returned = returned
        self.got = []
        self.ended = False
        self.stopped = False


async def _stop(ctx, w):
    """Stopping never blocks, whatever else happens."""
    w.stopped = True
    ctx.count("stops")
    t = asyncio.ensure_future(w.w.stop())
    for _ in range(12):
        await asyncio.sleep(0)
        if t.done():
            break
    else:
        await asyncio.wait([t], timeout=5)
        ctx.check(t.done(), "stopping a watcher blocks", watcher=w.name)
    await t


async def deliver(ctx):
    rng = ctx.rng
    qlen = rng.choice([0, 1, 2, 5, 100])
    ctx.count("queue_length_" + ("0" if qlen == 0 else "1" if qlen == 1 else "many"))
    m = Broadcaster(qlen, FullChannelBehavior.WAIT_IF_CHANNEL_FULL)
    tick = 0
    acts = {}  # id -> [called, returned]
    ws = []
    interesting = False
    pace = rng.choice([0, 0, 0.01, 0.01, 1, 1, 100])
    patience = 2000 + 3000 * pace

    def now():
        nonlocal tick
        tick += 1
        return tick

    async def watch(prefix=None):
        called = now()
        if prefix is not None:
            ctx.count("prefix_watchers")
            evs = [{"type": "P", "object": p} for p in prefix]
            w = await m.watch_with_prefix(evs)
        else:
            w = await m.watch()
        w = W(len(ws), w, prefix or [], called, now())
        ws.append(w)
        return w

    async def abandon():
        """A registration that is given up: nobody receives from its watcher."""
        ctx.count("abandoned_registrations")
        t = asyncio.ensure_future(m.watch() if rng.random() < 0.6 else m.watch_with_prefix([{"type": "P", "object": ("q", 0, 0)}]))
        if rng.random() < 0.3:
            await asyncio.sleep(pace * rng.random())
        else:
            for _ in range(rng.randrange(0, 8)):
                await asyncio.sleep(0)
        t.cancel()
        try:
            w = await t
        except asyncio.CancelledError:
            return
        ctx.count("registered_in_time")
        await w.stop()

    async def produce(p, n):
        for i in range(n):
            if rng.random() < 0.3:
                await asyncio.sleep(pace * rng.random())
            else:
                await yields(rng, 2)
            e = (p, i)
            acts[e] = [now(), None]
            await m.action("E", e)
            acts[e][1] = now()
            ctx.count("events")

    async def receive(w, speed):
        nonlocal interesting
        while True:
            if rng.random() < speed:
                await asyncio.sleep(pace * rng.random() * 2)
                interesting = True
            else:
                await yields(rng, 2)
            r = rng.random()
            try:
                if r < 0.25:
                    ev = await asyncio.wait_for(w.w.__anext__(), rng.choice([0.001, pace * 0.5 + 0.001, 0]))
                elif r < 0.4:
                    # cancelled at an arbitrary loop iteration
                    t = asyncio.ensure_future(w.w.__anext__())
                    for _ in range(rng.randrange(0, 6)):
                        await asyncio.sleep(0)
                    t.cancel()
                    try:
                        ev = await t
                    except asyncio.CancelledError:
                        raise asyncio.TimeoutError
                else:
                    ev = await w.w.__anext__()
            except asyncio.TimeoutError:
                ctx.count("timed_out_receives")
                continue
            except StopAsyncIteration:
                w.ended = True
                ctx.rec("end", w.name, len(w.got))
                return
            ctx.check(set(ev) == {"type", "object"} and ev["type"] in ("E", "P"), "an event was altered", event=ev)
            w.got.append(ev["object"])
            ctx.count("received")
            ctx.rec("got", w.name, ev["object"])

    receivers = []

    async def consumer(i, first=False):
        nonlocal interesting
        if not first and rng.random() < 0.6:
            await (asyncio.sleep(pace * rng.random() * 5) if rng.random() < 0.7 else yields(rng, 20))
            if acts:
                ctx.count("late_watchers")
                interesting = True
        while not first and rng.random() < 0.3:
            await abandon()
        prefix = [("p", i, j) for j in range(rng.choice([0, 1, 3, 30]))] if rng.random() < 0.3 else None
        w = await watch(prefix)
        if not first and rng.random() < 0.25:
            # as a context, left in any way after some events
            ctx.count("contexts")
            n = rng.randrange(0, 12)
            how = rng.choice(["break", "raise", "cancel"])

            entered = []

            async def within():
                entered.append(True)
                async with w.w as x:
                    async for ev in x:
                        w.got.append(ev["object"])
                        ctx.count("received")
                        ctx.rec("got", w.name, ev["object"])
                        if len(w.got) > n:
                            w.stopped = True
                            if how == "raise":
                                raise KeyError
                            break
                        await yields(rng, 3)
                w.ended = True

            t = asyncio.ensure_future(within())
            if how == "cancel":
                await (asyncio.sleep(pace * rng.random() * 10) if rng.random() < 0.7 else yields(rng, 30))
                w.stopped = True
                t.cancel()
            try:
                await t
            except (KeyError, asyncio.CancelledError):
                w.stopped = True
            if not entered:
                await _stop(ctx, w)
            return
        r = asyncio.ensure_future(receive(w, rng.choice([0, 0.2, 0.9])))
        receivers.append(r)
        if not first and rng.random() < 0.35:
            await (asyncio.sleep(pace * rng.random() * 10) if rng.random() < 0.7 else yields(rng, 30))
            interesting = True
            await _stop(ctx, w)
            await asyncio.wait([r], timeout=patience)
            ctx.check(r.done(), "the iteration over a stopped watcher does not end", watcher=w.name)
        await r

    np = rng.randrange(1, 4)
    ref = asyncio.ensure_future(consumer(0, first=True))
    while not ws:
        await asyncio.sleep(0)
    cs = [ref] + [asyncio.ensure_future(consumer(i)) for i in range(1, rng.randrange(1, 6))]
    ps = [asyncio.ensure_future(produce(p, rng.randrange(1, 40))) for p in range(np)]
    done, pending = await asyncio.wait(ps, timeout=patience)
    for t in [*done, *cs, *receivers]:
        if t.done():
            await t
    ctx.check(not pending, "a broadcast never completes although every watcher keeps receiving or stopped")
    # let registrations finish: a broadcaster that was shut down registers nobody
    await asyncio.sleep(pace * 100 + 60)
    # some more events, right before the shutdown
    last = asyncio.ensure_future(produce(9, rng.randrange(0, 15)))
    await asyncio.wait([last], timeout=patience)
    ctx.check(last.done(), "a broadcast never completes although every watcher keeps receiving or stopped")
    await last
    live = [w for w in ws if not w.stopped]
    sd = asyncio.ensure_future(m.shutdown())
    await asyncio.wait([sd], timeout=patience)
    ctx.check(sd.done(), "shutdown never returns although every watcher keeps receiving")
    await sd
    ctx.count("shutdowns")
    backlog = {w.name: len(w.got) for w in live}
    done, pending = await asyncio.wait(cs, timeout=patience)
    for t in done:
        await t
    ctx.check(not pending, "a watcher's iteration does not end after shutdown", watchers=[w.name for w in ws if not w.ended])
    order = [e for e in ws[0].got if e[0] != "p"]
    pos = {e: i for i, e in enumerate(order)}
    for w in ws:
        got = w.got
        n = len(w.prefix)
        ctx.check(got[:n] == w.prefix[: len(got)], "a watcher's prefix is not delivered first, in order", watcher=w.name, got=got[: n + 2], want=w.prefix)
        body = got[n:]
        ctx.check(len(set(body)) == len(body), "an event was delivered twice", watcher=w.name, got=body)
        ctx.check(all(e in acts for e in body), "a watcher received something never broadcast", watcher=w.name)
        ctx.check(all(e in pos for e in body), "a watcher missed an event another one received", event=[e for e in body if e not in pos])
        idx = [pos[e] for e in body]
        ctx.check(idx == list(range(idx[0], idx[0] + len(idx))) if idx else True, "events are missing or out of order in the middle", watcher=w.name, got=body, order=order)
        for e in body:
            ctx.check(acts[e][1] is None or acts[e][1] > w.called, "a watcher received an event broadcast before it registered", event=e, watcher=w.name)
        if not w.stopped:
            ctx.count("full_watchers")
            want = [e for e, a in acts.items() if a[0] > w.returned]
            missing = [e for e in want if e not in body]
            ctx.check(not missing, "a watcher missed events broadcast while it was registered", watcher=w.name, missing=missing[:10], queue_length=qlen)
            ctx.check(len(got) >= n, "a watcher missed prefix events", watcher=w.name)
            ctx.check(not idx or idx[-1] == len(order) - 1, "a watcher missed the last events", watcher=w.name)
            room = max(qlen, n + 1 if w.prefix else 0, 1) + 1
            ctx.count("backlog_checks")
            ctx.check(len(got) - backlog[w.name] <= room, "shutdown returned before all events were distributed", watcher=w.name, after=len(got) - backlog[w.name], room=room)
    seq = {}
    for e in order:
        ctx.check(seq.get(e[0], -1) < e[1], "events of one producer are delivered out of order", order=order)
        seq[e[0]] = e[1]
    done_at = sorted(acts, key=lambda e: pos[e])
    for i in range(len(done_at) - 1):
        a, b = acts[done_at[i]], acts[done_at[i + 1]]
        ctx.check(not (b[1] is not None and b[1] < a[0]), "an event was delivered before one whose broadcast had completed earlier", events=(done_at[i], done_at[i + 1]))
    ctx.nontrivial = interesting


async def cross(ctx):
    """Watchers stop each other from inside their loops."""
    rng = ctx.rng
    qlen = rng.choice([0, 0, 1, 2, 5])
    ctx.count("queue_length_" + ("0" if qlen == 0 else "1" if qlen == 1 else "many"))
    m = Broadcaster(qlen, FullChannelBehavior.WAIT_IF_CHANNEL_FULL)
    n = rng.randrange(2, 6)
    ws = [W(i, await m.watch(), [], 0, 0) for i in range(n)]
    total = rng.randrange(3, 30)
    at = {}
    for i in range(n):
        if rng.random() < 0.7:
            at[i] = (rng.randrange(total), rng.sample(range(n), rng.randrange(1, n + 1)))

    async def loop(w):
        async for ev in w.w:
            w.got.append(ev["object"])
            ctx.count("received")
            ctx.rec("got", w.name, ev["object"])
            if w.name in at and ev["object"] == at[w.name][0]:
                for j in at[w.name][1]:
                    ctx.count("cross_stops")
                    await _stop(ctx, ws[j])
                if rng.random() < 0.3:
                    # stopping twice is harmless
                    await _stop(ctx, ws[at[w.name][1][0]])
            await (asyncio.sleep(0.1) if rng.random() < 0.1 else yields(rng, 2))
        w.ended = True

    async def produce():
        for i in range(total):
            await m.action("E", i)
            ctx.count("events")
            await yields(rng, 3)

    loops = [asyncio.ensure_future(loop(w)) for w in ws]
    p = asyncio.ensure_future(produce())
    await asyncio.wait([p], timeout=500)
    for t in loops:
        if t.done():
            await t
    ctx.check(p.done(), "a broadcast blocks for ever after watchers stopped each other")
    await p
    sd = asyncio.ensure_future(m.shutdown())
    await asyncio.wait([sd], timeout=500)
    ctx.check(sd.done(), "shutdown blocks for ever after watchers stopped each other")
    ctx.count("shutdowns")
    done, pending = await asyncio.wait(loops, timeout=500)
    for t in done:
        await t
    ctx.check(not pending, "a watcher's iteration does not end", ended=[w.ended for w in ws])
    for w in ws:
        ctx.check(w.got == list(range(len(w.got))), "events missing or out of order", watcher=w.name, got=w.got)
        if not w.stopped:
            ctx.count("full_watchers")
            ctx.check(len(w.got) == total, "stopping a watcher cost another one events", watcher=w.name, got=w.got, total=total)
    ctx.nontrivial = True


async def blocked(ctx):
    """Idle watchers hold up the broadcast; stopping them one by one releases it."""
    rng = ctx.rng
    qlen = rng.choice([0, 1, 3])
    ctx.count("queue_length_" + ("0" if qlen == 0 else "1" if qlen == 1 else "many"))
    m = Broadcaster(qlen, FullChannelBehavior.WAIT_IF_CHANNEL_FULL)
    n = rng.randrange(1, 5)
    idle = []
    live = []
    for i in range(n + rng.randrange(0, 3)):
        w = W(i, await m.watch(), [], 0, 0)
        (idle if len(idle) < n and rng.random() < 0.6 or i >= n and not idle else live).append(w)
    if not idle:
        idle.append(live.pop())
    total = qlen + rng.randrange(2, 40)

    async def loop(w):
        async for ev in w.w:
            w.got.append(ev["object"])
            ctx.count("received")
        w.ended = True

    async def produce():
        for i in range(total):
            await m.action("E", i)
            ctx.count("events")
        if rng.random() < 0.5:
            await asyncio.sleep(1)
        await m.shutdown()

    loops = [asyncio.ensure_future(loop(w)) for w in live]
    p = asyncio.ensure_future(produce())
    await asyncio.sleep(rng.choice([0, 0.5, 10]))
    await asyncio.sleep(20)
    ctx.check(not p.done(), "a waiting broadcaster dropped events or did not wait for an idle watcher's room", qlen=qlen, total=total)
    rng.shuffle(idle)
    # also one of the live ones stops while the broadcast is blocked
    order = idle + ([live[0]] if live and rng.random() < 0.4 else [])
    rng.shuffle(order)
    for w in order:
        n_before = len(w.got)
        ctx.count("stops_while_blocked")
        await _stop(ctx, w)
        if rng.random() < 0.5:
            await asyncio.sleep(rng.random())
        del n_before
    await asyncio.wait([p], timeout=500)
    ctx.check(p.done(), "stopping the idle watchers does not release the broadcast waiting for them")
    await p
    ctx.count("released_broadcasts")
    ctx.count("shutdowns")
    done, pending = await asyncio.wait(loops, timeout=500) if loops else ((), ())
    for t in done:
        await t
    ctx.check(not pending, "a watcher's iteration does not end")
    for w in live:
        ctx.check(w.got == list(range(len(w.got))), "events missing or out of order", got=w.got)
        if not w.stopped:
            ctx.count("full_watchers")
            ctx.check(len(w.got) == total, "a watcher missed events because another one was idle or stopped", got=w.got, total=total)
    for w in idle:
        # its iteration ends, too, after what it still holds
        t = asyncio.ensure_future(loop(w))
        await asyncio.wait([t], timeout=100)
        ctx.check(t.done(), "the iteration of a stopped watcher does not end")
        await t
        ctx.check(w.got == list(range(len(w.got))), "events missing or out of order", got=w.got)
    ctx.rec(qlen, total, len(live), len(idle), [len(w.got) for w in live])
    ctx.nontrivial = True


async def mass(ctx):
    """Thousands of events, queued for, sent before or waiting for watchers."""
    rng = ctx.rng
    qlen = rng.choice([0, 1, 700, 3000])
    ctx.count("queue_length_" + ("0" if qlen == 0 else "1" if qlen == 1 else "many"))
    m = Broadcaster(qlen, FullChannelBehavior.WAIT_IF_CHANNEL_FULL)
    total = rng.choice([600, 1300, 2600])
    prefix = [("P", i) for i in range(rng.choice([0, 3, 1200]))]
    ws = [W(0, await m.watch(), [], 0, 0)]
    ws.append(W(1, await m.watch_with_prefix([{"type": "E", "object": e} for e in prefix]), prefix, 0, 0))
    start = asyncio.Event()

    async def loop(w, idle):
        if idle:
            await start.wait()
        async for ev in w.w:
            w.got.append(ev["object"])
            ctx.count("received")
        w.ended = True

    loops = [asyncio.ensure_future(loop(w, rng.random() < 0.6)) for w in ws]

    async def produce():
        for i in range(total):
            await m.action("E", ("E", i))
            ctx.count("events")

    if rng.random() < 0.5:
        p = asyncio.ensure_future(produce())
        want = [("E", i) for i in range(total)]
    else:
        # all at once
        p = asyncio.gather(*[m.action("E", ("E", i)) for i in range(total)])
        want = None
    await asyncio.sleep(5)
    start.set()
    await asyncio.wait([p], timeout=50)
    ctx.check(p.done(), "a broadcast never returns although all watchers receive")
    p.result()
    sd = asyncio.ensure_future(m.shutdown())
    await asyncio.wait([sd], timeout=50)
    ctx.check(sd.done(), "shutdown never returns although all watchers receive")
    ctx.count("shutdowns")
    done, pending = await asyncio.wait(loops, timeout=50)
    for t in done:
        t.result()
    ctx.check(not pending, "a watcher's iteration does not end")
    want = want or ws[0].got
    ctx.check(sorted(want) == [("E", i) for i in range(total)], "of very many events some are lost or repeated", got=len(want), want=total)
    for w in ws:
        ctx.count("full_watchers")
        ctx.check(w.got == w.prefix + want, "of very many events some are missing or out of order", watcher=w.name, got=len(w.got), want=len(w.prefix) + total)
    ctx.rec("mass", qlen, total, len(prefix))
    ctx.nontrivial = True


SCENARIOS = {"crowd": crowd(FullChannelBehavior.WAIT_IF_CHANNEL_FULL, True), "mass": mass, "deliver": deliver, "cross": cross, "blocked": blocked}
PLAN = {
    "quick": {"crowd": 300, "mass": 12, "deliver": 1200, "cross": 800, "blocked": 500},
    "thorough": {"crowd": 5000, "mass": 200, "deliver": 30000, "cross": 20000, "blocked": 10000},
}
