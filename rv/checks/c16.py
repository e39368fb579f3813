"""C16: a work queue never loses, duplicates or concurrently processes an item."""
import asyncio

from rv import wq
from rv.core import Inconclusive
from rv.util import History, linearizable, yields

PROPERTY = "C16"
RULE = (
    "sequential: random add/get/done histories of plain, delaying and rate-limited queues against an exact model after every step; "
    "handoff: waiting workers cancelled for good around adds and dones; concurrent: 2-4 adders, 1-4 workers (some cancelled while waiting), history checked for linearizability, stalls judged at "
    "quiescence; stress: hundreds of operations with online exclusion and coverage monitors and cancelled workers. Mass: hundreds to thousands of items waiting at once. Non-trivial: "
    "an item was re-added while held (sequential, stress) or a waiting worker was woken or cancelled (concurrent)."
)
REQUIRED_COUNTS = ("handouts", "linearizability_checks", "readded_while_held", "coalesced", "cancelled_gets", "quiescent_checks", "coverage_checks", "kind_plain", "kind_delaying", "kind_ratelimited")
ASSUMPTIONS = ["workers call done exactly once per hand-out", "a worker holds an item from the return of get to the call of done"]


async def sequential(ctx):
    rng = ctx.rng
    kind = rng.choice(wq.KINDS)
    ctx.count("kind_" + kind)
    q = wq.make(kind)
    items = [rng.choice([i, str(i), ("t", i)]) for i in range(rng.randrange(1, 6))]
    state = wq.INIT
    for _ in range(rng.randrange(40, 150)):
        r = rng.random()
        if r < 0.5:
            x = rng.choice(items)
            if x in state[2]:
                ctx.count("readded_while_held")
                ctx.nontrivial = True
            if x in state[1]:
                ctx.count("coalesced")
            op, res = ("add", x), None
            how = rng.choice(["add", "add_after", "add_rate_limited"]) if kind != "plain" else "add"
            if how == "add_rate_limited" and kind != "ratelimited":
                how = "add"
            if how == "add":
                await q.add(x)
            elif how == "add_after":
                await q.add_after(x, rng.choice([0, -1, -0.5]))
            else:
                await q.add_rate_limited(x)
        elif r < 0.8:
            if not state[0]:
                t = asyncio.ensure_future(q.get())
                await asyncio.sleep(rng.choice([0, 0.01, 20]))
                for _ in range(3):
                    await asyncio.sleep(0)
                ctx.check(not t.done(), "get returned although nothing is available", got=t.done() and t.result())
                if rng.random() < 0.5:
                    t.cancel()
                    await asyncio.gather(t, return_exceptions=True)
                    ctx.check(t.cancelled(), "cancelling a waiting get did not cancel it")
                    ctx.count("cancelled_gets")
                    continue
                free = [x for x in items if x not in state[2]]
                if not free:
                    t.cancel()
                    await asyncio.gather(t, return_exceptions=True)
                    continue
                x = rng.choice(free)
                await q.add(x)
                state, _ = wq.apply(state, ("add", x))
                try:
                    got = await asyncio.wait_for(t, 1)
                except asyncio.TimeoutError:
                    ctx.fail("a waiting get did not wake on add")
            else:
                got = await asyncio.wait_for(q.get(), 1)
            ctx.check(tuple(got)[1] is False, "get reports shutdown on an open queue")
            res = wq.result_of(got)
            op = ("get", [res])
            ctx.count("handouts")
        elif r < 0.95 and state[2]:
            x = rng.choice(sorted(state[2], key=repr))
            op, res = ("done", x), None
            await q.done(x)
        else:
            op, res = ("len",), len(q)
        ctx.rec(op, res)
        new, want = wq.apply(state, op)
        ctx.check(want is not wq.NO and want == res, f"{op[0]} gave a result the queue's contents do not allow", got=res, queue=state[0], held=sorted(map(repr, state[2])))
        state = new
        ctx.check(len(q) == len(state[0]), "the length is not the number of waiting items", got=len(q), want=len(state[0]))
        ctx.check(not q.shutting_down(), "an open queue reports shutting down")
    await q.shut_down()


async def concurrent(ctx):
    rng = ctx.rng
    kind = rng.choice(wq.KINDS)
    ctx.count("kind_" + kind)
    q = wq.make(kind)
    h = History()
    items = ["x", "y", "z"][: rng.randrange(1, 4)]
    held = set()
    waiting = 0
    events = 0

    async def adder(i):
        for _ in range(rng.randrange(1, 6)):
            await (yields(rng, 3) if rng.random() < 0.7 else asyncio.sleep(rng.random()))
            if rng.random() < 0.15:
                h.call_sync(i, ("len",), lambda: len(q))
                continue
            x = rng.choice(items)
            if x in held:
                ctx.count("readded_while_held")
            await h.call(i, ("add", x), lambda: q.add(x))

    async def worker(i):
        nonlocal waiting, events
        while True:
            await (yields(rng, 3) if rng.random() < 0.7 else asyncio.sleep(rng.random() * 0.5))
            cell = []

            async def get():
                r = wq.result_of(await q.get())
                cell.append(r)
                return r

            t = asyncio.ensure_future(h.call(i, ("get", cell), get))
            waiting += 1
            was_empty = not len(q)
            if rng.random() < 0.3:
                await asyncio.wait([t], timeout=rng.choice([0, 0, 0.1, 0.5]))
                if rng.random() < 0.5:
                    await yields(rng, 4)
                t.cancel()
            try:
                x = await t
            except asyncio.CancelledError:
                if not t.cancelled():
                    raise
                ctx.check(not cell, "a cancelled get swallowed an item")
                ctx.count("cancelled_gets")
                events += 1
                h.ops[:] = [o for o in h.ops if o["op"][0] != "get" or o["op"][1] is not cell]
                continue
            finally:
                waiting -= 1
            if x == "shutdown":
                return
            if was_empty:
                events += 1
            ctx.count("handouts")
            ctx.check(x not in held, "an item was handed to a worker while another one holds it", item=x)
            held.add(x)
            await (yields(rng, 4) if rng.random() < 0.6 else asyncio.sleep(rng.random()))
            held.discard(x)
            await h.call(i, ("done", x), lambda: q.done(x))

    workers = [asyncio.ensure_future(worker(10 + i)) for i in range(rng.randrange(1, 5))]
    await asyncio.gather(*(adder(i) for i in range(rng.randrange(2, 5))))
    # at rest some workers may keep cancelling and retrying: judge several instants
    for _ in range(5):
        await asyncio.sleep(7)
        for w in workers:
            if w.done():
                await w
        ctx.count("quiescent_checks")
        ctx.check(not len(q) or waiting == 0, "an item stays available although a worker is waiting", length=len(q))
    ctx.check(not len(q) and not held, "items were left unprocessed", length=len(q), held=sorted(held))
    await h.call(99, ("shut_down",), q.shut_down)
    done, pending = await asyncio.wait(workers, timeout=30)
    for w in done:
        await w
    ctx.check(not pending, "a waiting worker was not released by shutdown")
    for o in h.ops:
        ctx.rec(o["who"], repr(o["op"]), o["call"], o["ret"])
    ok = linearizable(h.ops, wq.INIT, wq.apply)
    if ok is None:
        raise Inconclusive("linearizability search gave up")
    ctx.count("linearizability_checks")
    ctx.check(ok, "concurrent work queue history is not linearizable", ops=[(o["who"], repr(o["op"]), o["call"], o["ret"]) for o in h.ops])
    ctx.nontrivial = events > 0


async def stress(ctx):
    rng = ctx.rng
    kind = rng.choice(wq.KINDS)
    ctx.count("kind_" + kind)
    q = wq.make(kind)
    items = list(range(rng.randrange(1, 25)))
    held = {}
    tick = 0
    last_add = {}
    adds = {}
    starts = {}
    in_get = set()
    readded = 0

    def now():
        nonlocal tick
        tick += 1
        return tick

    async def adder():
        nonlocal readded
        for _ in range(rng.randrange(10, 80)):
            await yields(rng, 3)
            if rng.random() < 0.05:
                await asyncio.sleep(rng.random())
            x = rng.choice(items)
            if x in held:
                readded += 1
                ctx.count("readded_while_held")
            last_add[x] = now()
            adds[x] = adds.get(x, 0) + 1
            await q.add(x)

    async def worker(i):
        while True:
            in_get.add(i)
            try:
                x, shut = await q.get()
            finally:
                in_get.discard(i)
            if shut:
                return
            ctx.check(x not in held, "an item was handed to a worker while another one holds it", item=x)
            held[x] = i
            starts.setdefault(x, []).append(now())
            ctx.rec("start", x, i)
            ctx.count("handouts")
            try:
                if rng.random() < 0.2:
                    await asyncio.sleep(rng.random())
                else:
                    await yields(rng, 5)
            finally:
                # a cancelled worker still gives its item back
                del held[x]
                await asyncio.shield(q.done(x))

    async def chaos():
        """Replaces random workers, mostly while they wait."""
        for _ in range(rng.randrange(0, 30)):
            await yields(rng, 10)
            i = rng.randrange(len(workers))
            if workers[i].done():
                continue
            if i in in_get:
                ctx.count("cancelled_gets")
            workers[i].cancel()
            await asyncio.gather(workers[i], return_exceptions=True)
            workers[i] = asyncio.ensure_future(worker(i))

    workers = []
    for i in range(rng.randrange(1, 6)):
        workers.append(asyncio.ensure_future(worker(i)))
    await asyncio.gather(*(adder() for _ in range(rng.randrange(1, 5))), chaos())
    await asyncio.sleep(60)
    for w in workers:
        if w.done():
            await w
    ctx.count("quiescent_checks")
    ctx.check(not len(q), "items stay available although workers are waiting", length=len(q))
    for x, t in last_add.items():
        ctx.count("coverage_checks")
        ctx.check(starts.get(x) and starts[x][-1] > t, "an add was not followed by a hand-out of its item", item=x)
        ctx.check(len(starts[x]) <= adds[x], "an item was handed out more often than it was added", item=x)
    await q.shut_down()
    await asyncio.wait_for(asyncio.gather(*workers), 30)
    ctx.nontrivial = readded > 0


async def handoff(ctx):
    """Several waiting workers, some cancelled for good at the very moment items become available."""
    rng = ctx.rng
    kind = rng.choice(wq.KINDS)
    ctx.count("kind_" + kind)
    q = wq.make(kind)
    n = rng.randrange(2, 6)
    got = {}
    held = []
    closed = False

    if rng.random() < 0.3:
        # items that become available by done
        held = [("h", j) for j in range(rng.randrange(1, 3))]
        for x in held:
            await q.add(x)
            await q.get()

    async def waiter(i):
        x, shut = await q.get()
        ctx.check(shut == closed, "get reports shutdown on an open queue")
        if shut:
            return
        ctx.check(x not in got.values(), "an item was handed out twice", item=x)
        got[i] = x

    ws = []
    for i in range(n):
        ws.append(asyncio.ensure_future(waiter(i)))
        await yields(rng, 2)
    for _ in range(3):
        await asyncio.sleep(0)
    items = held + list(range(rng.randrange(1, n + 1)))
    victims = set(rng.sample(range(n), rng.randrange(1, n)))

    async def add():
        for x in items:
            await yields(rng, 1)
            await q.add(x)
            if x in held:
                await yields(rng, 1)
                await q.done(x)

    async def kill():
        for i in victims:
            await yields(rng, 4)
            ctx.rec("cancel", i, ws[i].done())
            ws[i].cancel()

    if rng.random() < 0.5:
        await asyncio.gather(add(), kill())
    else:
        await asyncio.gather(kill(), add())
    await asyncio.sleep(30)
    live = [i for i in range(n) if i not in victims]
    for w in ws:
        if w.done() and not w.cancelled():
            await w
    waiting = [i for i in live if not ws[i].done()]
    ctx.count("cancelled_gets", len(victims))
    ctx.count("quiescent_checks")
    ctx.rec("end", sorted(got.items(), key=repr), waiting, len(q))
    ctx.check(len(q) == len(items) - len(got), "items are unaccounted for after workers were cancelled", length=len(q), got=got, items=items)
    ctx.check(not waiting or not len(q), "an item stays available although a worker is waiting", length=len(q), waiting=waiting, got=got)
    ctx.nontrivial = True
    ctx.count("handouts", len(got))
    closed = True
    await q.shut_down()
    await asyncio.wait_for(asyncio.gather(*ws, return_exceptions=True), 10)


async def mass(ctx):
    """Thousands of items wait at once; some are added again meanwhile and while held."""
    rng = ctx.rng
    kind = rng.choice(wq.KINDS)
    q = wq.make(kind)
    n = rng.choice([600, 1200, 2600])
    for i in range(n):
        await q.add(i)
        if rng.random() < 0.2:
            await q.add(rng.randrange(i + 1))
    ctx.check(len(q) == n, "the length is not the number of waiting items", got=len(q), want=n)
    readded = []
    for i in range(n):
        got = await asyncio.wait_for(q.get(), 1)
        ctx.check(tuple(got) == (i, False), "a crowd of items does not come out in order", got=got, want=i)
        ctx.count("handouts")
        if rng.random() < 0.3:
            await q.add(i)
            readded.append(i)
            ctx.count("readded_while_held")
        await q.done(i)
    for i in readded:
        got = await asyncio.wait_for(q.get(), 1)
        ctx.check(tuple(got) == (i, False), "items added again while held do not come out in order", got=got, want=i)
        await q.done(i)
    ctx.check(len(q) == 0, "items are left over", length=len(q))
    held = []
    ws = [asyncio.ensure_future(q.get()) for _ in range(rng.choice([3, 300]))]
    await asyncio.sleep(0.1)
    for i, w in enumerate(ws):
        await q.add(("w", i))
    done, late = await asyncio.wait(ws, timeout=5)
    ctx.check(not late, "an item stays available although a worker is waiting", waiting=len(late))
    held = sorted(w.result()[0][1] for w in ws)
    ctx.check(held == list(range(len(ws))), "a crowd of waiting workers was not given each item once", got=held[:10])
    ctx.rec("mass", n, len(readded), len(ws))
    ctx.nontrivial = True
    await q.shut_down()


SCENARIOS = {"mass": mass, "handoff": handoff, "sequential": sequential, "concurrent": concurrent, "stress": stress}
PLAN = {
    "quick": {"mass": 12, "handoff": 1500, "sequential": 900, "concurrent": 2000, "stress": 400},
    "thorough": {"mass": 200, "handoff": 40000, "sequential": 20000, "concurrent": 50000, "stress": 10000},
}
