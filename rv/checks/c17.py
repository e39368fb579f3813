"""C17: shutting down a work queue drains it and releases every worker."""
import asyncio

from rv import wq
from rv.core import Inconclusive
from rv.util import History, linearizable, yields

PROPERTY = "C17"
RULE = (
    "sequential: random histories of adds of every kind, gets and dones with a shutdown in the middle (often repeated) against an "
    "exact model; concurrent: adders, workers and one or two shutdowns race, history checked for linearizability against the same "
    "model; crowd: up to hundreds of workers, some cancelled, all released by the shutdown; storm: up to thousands of delayed adds in progress at the shutdown. Every case then waits for the largest delay and "
    "looks at the tasks left in the loop. Non-trivial: the shutdown found items waiting, held or delayed, or workers blocked."
)
REQUIRED_COUNTS = (
    "shutdowns", "second_shutdowns", "adds_after_shutdown", "drained_items", "released_gets", "due_items", "undue_items", "leak_checks",
    "linearizability_checks", "storm_adds", "kind_plain", "kind_delaying", "kind_ratelimited",
)
ASSUMPTIONS = ["'promptly' is judged as within one second of virtual time"]


def _tasks():
    return {t for t in asyncio.all_tasks() if not t.done()}


async def _no_leak(ctx, before, delay):
    await asyncio.sleep(delay + 25)
    left = _tasks() - before
    ctx.count("leak_checks")
    ctx.check(not left, "background tasks keep running after the queue was shut down", tasks=[repr(t)[:200] for t in left])


async def sequential(ctx):
    rng = ctx.rng
    kind = rng.choice(wq.KINDS)
    ctx.count("kind_" + kind)
    before = _tasks()
    rate = rng.choice([0.0, 5.0])
    q = wq.make(kind, wq.FixedLimiter(default=rate))
    items = list(range(rng.randrange(1, 6)))
    delayed = set()
    dues = []
    maxdelay = 0
    state = wq.INIT
    n = rng.randrange(5, 40)
    at = rng.randrange(n)
    shut = False
    for i in range(n + 15):
        if i == at or (shut and rng.random() < 0.1):
            try:
                await asyncio.wait_for(q.shut_down(), 1)
            except asyncio.TimeoutError:
                ctx.fail("shut_down does not return promptly")
            state, _ = wq.apply(state, ("shut_down",))
            ctx.rec("shut_down", state[0], sorted(state[2], key=repr))
            ctx.count("second_shutdowns" if shut else "shutdowns")
            if not shut and (state[0] or state[2] or delayed):
                ctx.nontrivial = True
            if not shut:
                ctx.count("undue_items", len(delayed))
            shut = True
        if rng.random() < 0.15:
            await asyncio.sleep(1.7)
            now = asyncio.get_running_loop().time()
            for due, seq, x in sorted(dues):
                if due < now and not shut:
                    delayed.discard(x)
                    state, _ = wq.apply(state, ("add", x))
                    ctx.count("due_items")
            dues = [d for d in dues if d[0] >= now]
        r = rng.random()
        ctx.check(q.shutting_down() == shut, "shutting_down() reports the wrong state", got=q.shutting_down(), want=shut)
        if r < 0.5:
            how = rng.choice({"plain": ["add"], "delaying": ["add", "add_after"], "ratelimited": ["add", "add_after", "add_rate_limited"]}[kind])
            x = rng.choice(items)
            delay = 0
            if shut:
                ctx.count("adds_after_shutdown")
            if how == "add":
                t = q.add(x)
            elif how == "add_after":
                delay = rng.choice([0, -1, 0, 3, 60, 400])
                if delay > 0:
                    x = ("d", x, i)
                t = q.add_after(x, delay)
            else:
                if rate:
                    x = ("r", x, i)
                    delay = rate
                t = q.add_rate_limited(x)
            try:
                await asyncio.wait_for(t, 1)
            except asyncio.TimeoutError:
                ctx.fail("an add does not return promptly", how=how, shut=shut)
            if delay > 0:
                if not shut:
                    delayed.add(x)
                    dues.append((asyncio.get_running_loop().time() + delay, i, x))
                    maxdelay = max(maxdelay, delay)
            else:
                state, _ = wq.apply(state, ("add", x))
        elif r < 0.8:
            if state[0] or shut:
                try:
                    got = await asyncio.wait_for(q.get(), 1)
                except asyncio.TimeoutError:
                    ctx.fail("get waits although the queue is shut down or holds items")
                res = wq.result_of(got)
                ctx.rec("get", res)
                ctx.check(len(got) == 2, "get does not return an item and a shutdown flag")
                new, want = wq.apply(state, ("get", [res]))
                ctx.check(want is not wq.NO, "get returned something the queue's contents do not allow", got=got, queue=state[0], shut=shut)
                state = new
                if shut:
                    ctx.count("released_gets" if res == "shutdown" else "drained_items")
        elif state[2]:
            x = rng.choice(sorted(state[2], key=repr))
            await q.done(x)
            state, _ = wq.apply(state, ("done", x))
        ctx.check(len(q) == len(state[0]), "the length is not the number of waiting items", got=len(q), want=len(state[0]), shut=shut)
    # drain
    while True:
        for x in sorted(state[2], key=repr):
            await q.done(x)
            state, _ = wq.apply(state, ("done", x))
        try:
            got = await asyncio.wait_for(q.get(), 1)
        except asyncio.TimeoutError:
            ctx.fail("get waits on a queue that was shut down", queue=state[0])
        res = wq.result_of(got)
        new, want = wq.apply(state, ("get", [res]))
        ctx.check(want is not wq.NO, "get returned something the queue's contents do not allow", got=got, queue=state[0])
        state = new
        if res == "shutdown":
            ctx.count("released_gets")
            break
        ctx.count("drained_items")
    await asyncio.sleep(maxdelay + 1)
    got = await asyncio.wait_for(q.get(), 1)
    ctx.check(got[1] is True or got[1] == True, "a delayed item was delivered after shutdown", got=got)  # noqa: E712
    ctx.check(len(q) == 0, "a delayed item was added after shutdown")
    await _no_leak(ctx, before, 0)


async def concurrent(ctx):
    rng = ctx.rng
    kind = rng.choice(wq.KINDS)
    ctx.count("kind_" + kind)
    before = _tasks()
    limiter = wq.FixedLimiter(default=rng.choice([0.0, 0.0, 50.0]))
    q = wq.make(kind, limiter)
    h = History()
    items = ["x", "y", "z"][: rng.randrange(1, 4)]
    held = set()
    blocked = 0
    closing = False

    async def adder(i):
        for _ in range(rng.randrange(1, 5)):
            await yields(rng, 4)
            r = rng.random()
            x = rng.choice(items)
            if r < 0.7 or kind == "plain":
                await h.call(i, ("add", x), lambda: q.add(x))
            elif r < 0.9 or kind == "delaying":
                # due long after everything: it must never come out
                ctx.count("undue_items")
                await asyncio.wait_for(q.add_after(("late", x), rng.choice([90, 300])), 1)
            elif limiter.default:
                await asyncio.wait_for(q.add_rate_limited(("late", x)), 1)
            if closing:
                ctx.count("adds_after_shutdown")

    async def worker(i):
        nonlocal blocked
        while True:
            await yields(rng, 3)
            cell = []

            async def get():
                r = wq.result_of(await q.get())
                cell.append(r)
                return r

            was = closing
            blocked += not was
            x = await h.call(i, ("get", cell), get)
            blocked -= not was
            if x == "shutdown":
                ctx.check(closing, "a get reports shutdown on an open queue")
                ctx.count("released_gets")
                return
            ctx.check(not isinstance(x, tuple), "an item was delivered long before it was due", item=x)
            if closing:
                ctx.count("drained_items")
            ctx.check(x not in held, "an item was handed to a worker while another one holds it", item=x)
            held.add(x)
            await (yields(rng, 4) if rng.random() < 0.8 else asyncio.sleep(rng.random()))
            held.discard(x)
            await h.call(i, ("done", x), lambda: q.done(x))

    async def closer(i, first):
        nonlocal closing
        await (yields(rng, 15) if rng.random() < 0.8 else asyncio.sleep(rng.random()))
        if first and (held or len(q) or blocked):
            ctx.nontrivial = True
        closing = True
        ctx.count("shutdowns" if first else "second_shutdowns")
        await h.call(i, ("shut_down",), q.shut_down)
        h.call_sync(i, ("shutting_down",), q.shutting_down)

    workers = [asyncio.ensure_future(worker(10 + i)) for i in range(rng.randrange(1, 5))]
    adders = [asyncio.ensure_future(adder(i)) for i in range(rng.randrange(1, 4))]
    closers = [asyncio.ensure_future(closer(20 + i, i == 0)) for i in range(rng.choice([1, 1, 2]))]
    done, pending = await asyncio.wait([*workers, *adders, *closers], timeout=20)
    for t in done:
        await t
    ctx.check(not pending, "blocked after shutdown", workers=sum(t in pending for t in workers), adders=sum(t in pending for t in adders), closers=sum(t in pending for t in closers))
    for o in h.ops:
        ctx.rec(o["who"], repr(o["op"]), o["call"], o["ret"])
    ok = linearizable(h.ops, wq.INIT, wq.apply)
    if ok is None:
        raise Inconclusive("linearizability search gave up")
    ctx.count("linearizability_checks")
    ctx.check(ok, "history around a shutdown is not linearizable", ops=[(o["who"], repr(o["op"]), o["call"], o["ret"], o["result"]) for o in h.ops])
    await asyncio.sleep(301)
    ctx.check(not len(q), "an item became available after shutdown")
    await _no_leak(ctx, before, 0)


async def storm(ctx):
    """Very many delayed adds in progress when the queue is shut down."""
    rng = ctx.rng
    kind = rng.choice(wq.KINDS[1:])
    ctx.count("kind_" + kind)
    before = _tasks()
    q = wq.make(kind, wq.FixedLimiter(default=4.0))
    n = rng.choice([5, 200, 1500, 2500])
    adds = []
    done_times = 0
    getters = [asyncio.ensure_future(q.get()) for _ in range(rng.randrange(0, 4))]
    await yields(rng, 3)

    async def add(i):
        nonlocal done_times
        await yields(rng, 2)
        if kind == "ratelimited" and rng.random() < 0.5:
            await q.add_rate_limited(i)
        else:
            await q.add_after(i, rng.choice([0.5, 3, 30, 200]))
        done_times += 1

    adds = [asyncio.ensure_future(add(i)) for i in range(n)]
    await yields(rng, 6)
    ctx.rec("in progress", n - done_times)
    ctx.count("storm_adds", n)
    ctx.count("undue_items", n)
    ctx.count("shutdowns")
    try:
        await asyncio.wait_for(asyncio.gather(*(q.shut_down() for _ in range(rng.choice([1, 2])))), 1)
    except asyncio.TimeoutError:
        ctx.fail("shut_down does not return promptly")
    ctx.check(q.shutting_down(), "the queue does not report shutting down")
    done, pending = await asyncio.wait([*adds, *getters], timeout=1)
    ctx.check(not any(t in pending for t in getters), "a blocked get was not released by shutdown")
    ctx.check(not pending, "delayed adds in progress do not return promptly after shutdown", pending=len(pending), n=n)
    for t in done:
        await t
    for g in getters:
        ctx.check(g.result()[1], "get did not report the shutdown", got=g.result())
        ctx.count("released_gets")
    await asyncio.sleep(210)
    ctx.check(not len(q), "a delayed item was added after shutdown")
    got = await asyncio.wait_for(q.get(), 1)
    ctx.check(got[1], "a delayed item was delivered after shutdown", got=got)
    ctx.count("released_gets")
    ctx.nontrivial = True
    await _no_leak(ctx, before, 0)


async def crowd(ctx):
    """Many workers, most of them blocked, are all released."""
    rng = ctx.rng
    kind = rng.choice(wq.KINDS)
    ctx.count("kind_" + kind)
    q = wq.make(kind, wq.FixedLimiter(default=0.0))
    n = rng.choice([2, 7, 20, 60, 300])
    ended = []
    taken = []

    async def worker(i):
        while True:
            x, shut = await q.get()
            if shut:
                ended.append(i)
                ctx.count("released_gets")
                return
            taken.append(x)
            ctx.count("drained_items")
            await (yields(rng, 4) if rng.random() < 0.7 else asyncio.sleep(rng.random()))
            await q.done(x)

    ws = [asyncio.ensure_future(worker(i)) for i in range(n)]
    if rng.random() < 0.8:
        await yields(rng, 5)
        await asyncio.sleep(0.001)
    m = rng.choice([0, 1, n // 2, n, 2 * n])
    items = list(range(m))
    if rng.random() < 0.5:
        await asyncio.gather(*(q.add(x) for x in items))
    else:
        for x in items:
            await q.add(x)
    await yields(rng, 3)
    gone = {i for i in rng.sample(range(n), rng.randrange(0, n // 2 + 1)) if rng.random() < 0.3}
    for i in gone:
        # this one gives up
        ws[i].cancel()
    ctx.count("shutdowns")
    await q.shut_down()
    done, pending = await asyncio.wait(ws, timeout=30)
    ctx.check(not pending, "blocked after shutdown", workers=len(pending), of=n)
    for w in done:
        if not w.cancelled():
            w.result()
    lost = [x for x in items if x not in taken]
    ctx.check(len(taken) == len(set(taken)), "an item was handed out twice", items=m)
    # a worker that was cancelled when it had just been handed an item takes that with it
    ctx.check(len(lost) <= len(gone), "items waiting at the shutdown were not handed out", lost=len(lost), items=m, workers=n)
    ctx.rec(n, m, len(gone), len(taken))
    ctx.nontrivial = len(ended) > 0


SCENARIOS = {"crowd": crowd, "sequential": sequential, "concurrent": concurrent, "storm": storm}
PLAN = {
    "quick": {"crowd": 300, "sequential": 2500, "concurrent": 3000, "storm": 60},
    "thorough": {"crowd": 6000, "sequential": 60000, "concurrent": 80000, "storm": 1500},
}
