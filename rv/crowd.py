"""Broadcasts of any objects, equal ones in a row included, to few or very many watchers."""
import asyncio

from aiok8s.watch.mux import Broadcaster

from rv.util import Obj, yields

TYPES = ["ADDED", "MODIFIED", "DELETED", "BOOKMARK", "ERROR", "E", "", None]


def _objects(rng):
    some = [None, 0, "", False, [], {}, (), "x", {"metadata": {"name": "a"}}, Obj("a", "b"), Obj("a", "b"), ValueError("v"), float("nan")]
    return some if rng.random() < 0.5 else rng.sample(some, 2)


def crowd(policy, waits):
    async def scenario(ctx):
        rng = ctx.rng
        many = rng.random() < 0.04
        n = rng.choice([300, 700]) if many else rng.randrange(1, 6)
        total = rng.randrange(1, 6) if many else rng.randrange(1, 40)
        qlen = rng.choice([0, 1, 5, 100]) if waits else 100
        m = Broadcaster(qlen, policy)
        pool = _objects(rng)

        def event():
            return {"type": rng.choice(TYPES), "object": rng.choice(pool)}

        ws = []
        for _ in range(n):
            if rng.random() < 0.3:
                prefix = [event() for _ in range(rng.randrange(0, 6))]
                ws.append([await m.watch_with_prefix(prefix), prefix, []])
                ctx.count("prefix_watchers")
            else:
                ws.append([await m.watch(), [], []])
        ctx.count("crowded_watchers", n)
        stops = {i: rng.randrange(0, total) for i in range(n) if rng.random() < 0.2}

        async def receive(w, limit):
            async for e in w[0]:
                w[2].append(e)
                ctx.count("received")
                if limit is not None and len(w[2]) > limit + len(w[1]):
                    await w[0].stop()
                    ctx.count("stops")
                    return
                if not many:
                    await yields(rng, 2)

        tasks = [asyncio.ensure_future(receive(w, stops.get(i))) for i, w in enumerate(ws)]
        sent = []
        for _ in range(total):
            e = event()
            if sent and rng.random() < 0.3:
                e = dict(sent[-1])
                ctx.count("repeated_events")
            sent.append(e)
            ctx.count("events")
            await asyncio.wait_for(m.action(e["type"], e["object"]), 100)
            if rng.random() < 0.2:
                await asyncio.sleep(rng.random())
        await asyncio.wait_for(m.shutdown(), 100)
        ctx.count("shutdowns")
        _, pending = await asyncio.wait(tasks, timeout=100)
        ctx.check(not pending, "a watcher's iteration does not end after the shutdown")
        for t in tasks:
            t.result()
        for i, (_, prefix, got) in enumerate(ws):
            want = prefix + sent
            if i in stops:
                want = want[: len(prefix) + stops[i] + 1]
            same = len(got) == len(want) and all(a["type"] == b["type"] and a["object"] is b["object"] and set(a) == {"type", "object"} for a, b in zip(got, want))
            ctx.check(same, "a watcher that kept up did not receive exactly the events, equal and empty ones included", watchers=n, got=[repr(e) for e in got][:20], want=[repr(e) for e in want][:20])
        ctx.rec(n, total, qlen, [repr(e) for e in sent][:5])
        ctx.nontrivial = n > 1

    return scenario
