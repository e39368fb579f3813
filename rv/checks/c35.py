"""C35: components keep nothing of what they have finished with."""
import asyncio
import gc
import os
import tracemalloc
import weakref

from aiok8s.cache import controller, delta_fifo, fifo, index, shared_informer, store
from aiok8s.leaderelection import leaderelection
from aiok8s.util import clock, retry, wait
from aiok8s.watch import mux, watch
from aiok8s.workqueue import default_rate_limiters as limiters
from aiok8s.workqueue import delaying_queue, queue, rate_limiting_queue

from rv import core, mgr, wq
from rv import server as S
from rv.util import Obj, horizon, yields

PROPERTY = "C35"
RULE = (
    "Every long-lived component is driven through batches of the same kind of work, always on new objects, items, names, watches, timers or watchers, and brought to rest after "
    "each batch with everything deleted, done, stopped or due. At rest a monitor takes the number of tasks and of armed timers of the loop, the objects still alive of those "
    "handed to the component (weak references, after a garbage collection), and the bytes that lines of the library and of asyncio's queues and locks hold (tracemalloc). "
    "None of these may grow with the number of cycles; of the finished objects only a handful may live. Short-lived components must be gone altogether after their stop. "
    "Non-trivial: all batches ran."
)
REQUIRED_COUNTS = (
    "ends_judged",
    "objects_tracked", "rests_judged", "growths_judged", "stores", "fifos", "workqueues", "informers", "broadcasters", "clocks", "helpers", "managers", "electors", "rate_limiters",
    "short_lived", "far_off_items", "reconnections", "cancelled_waits", "relists",
)
ASSUMPTIONS = [
    "the last few objects may stay in suspended frames",
    "a timer abandoned before it is due lives until then",
    "a fake ticker lives as long as its clock",
]
LIB = (os.path.realpath(core.REPO) + "/aiok8s/", os.path.dirname(asyncio.__file__) + "/queues.py", os.path.dirname(asyncio.__file__) + "/locks.py")


def forget(srv):
    """The server's history is not needed any more."""
    srv.watches = srv.open_watches()
    srv.lists = 0
    for w in srv.watches:
        w.rv, w.pos = srv.rv, 0
    srv.log.clear()
    srv.ok_lists.clear()
    if not srv.dicts:  # a manager's reconciler looks names up
        srv.hist.clear()


class Item:
    __slots__ = ("name", "__weakref__")

    def __init__(self, name):
        self.name = name

    def __repr__(self):
        return f"<{self.name}>"


class Meter:
    """What is held at rest."""

    def __init__(self, ctx):
        self.ctx = ctx
        self.refs = []
        self.marks = []
        self.cycles = 0

    def track(self, o):
        self.ctx.count("objects_tracked")
        self.refs.append(weakref.ref(o))
        return o

    def rest(self, limit):
        ctx = self.ctx
        loop = ctx.loop
        loop.contexts.clear()
        # nothing of the harness may grow: its objects could reuse blocks the library once allocated
        ctx.log[:] = [core._digest(ctx.log)]
        gc.collect()
        tasks = [t for t in asyncio.all_tasks(loop) if not t.done()]
        timers = sum(not h._cancelled for h in loop._scheduled)
        size = {}
        for t in tracemalloc.take_snapshot().traces:
            f = t.traceback[0]
            if f.filename.startswith(LIB):
                k = f"{os.path.basename(f.filename)}:{f.lineno}"
                size[k] = size.get(k, 0) + t.size
        self.refs = [r for r in self.refs if r() is not None]
        ctx.count("rests_judged")
        ctx.check(len(self.refs) <= limit, "objects the component has finished with are kept", alive=len(self.refs), of=self.cycles, some=[repr(r())[:100] for r in self.refs[:5]])
        self.marks.append((self.cycles, len(tasks), timers, size, [repr(t.get_coro()) for t in tasks]))

    def judge(self):
        ctx = self.ctx
        # a rest may find a component in one of two states: the smaller of two rests counts
        n = self.marks[-1][0] - self.marks[1][0]
        (_, tasks0, timers0, size0, _), (_, tasks1, timers1, size1, coros) = (min(x, key=lambda m: sum(m[3].values())) for x in (self.marks[:2], self.marks[-2:]))
        ctx.count("growths_judged")
        ctx.rec("growth", n, tasks1 - tasks0, timers1 - timers0)
        ctx.check(tasks1 <= tasks0 + 3, "tasks pile up", before=tasks0, after=tasks1, cycles=n, some=coros[-5:])
        ctx.check(timers1 <= timers0 + 3, "timers pile up", before=timers0, after=timers1, cycles=n)
        grown = {k: v - size0.get(k, 0) for k, v in size1.items() if v - size0.get(k, 0) > 300}
        total = sum(size1.values()) - sum(size0.values())
        ctx.check(total < 2000 + 4 * n, "the memory held grows with every cycle", bytes=total, cycles=n, lines=dict(sorted(grown.items(), key=lambda kv: -kv[1])[:5]))
        ctx.nontrivial = True


def metered(kind, cycles=400, batches=4, limit=6, until=1e7):
    """setup(ctx, meter) returns (cycle, rest): coroutine functions."""

    def deco(setup):
        @horizon(until)
        async def scenario(ctx):
            ctx.count(kind)
            tracemalloc.start(1)
            try:
                m = Meter(ctx)
                cycle, rest, *more = await setup(ctx, m)
                for _ in range(batches):
                    for _ in range(cycles):
                        m.cycles += 1
                        await cycle(m.cycles)
                    await rest()
                    m.rest(more[0] if more else limit)
                m.judge()
            finally:
                tracemalloc.stop()

        return scenario

    return deco


async def give_up(ctx, aw, after=0.01):
    """Waits for it and loses patience."""
    ctx.count("cancelled_waits")
    t = asyncio.ensure_future(aw)
    await (asyncio.sleep(after) if ctx.rng.random() < 0.5 else yields(ctx.rng, 4))
    t.cancel()
    await asyncio.gather(t, return_exceptions=True)
    return t


# ---------------------------------------------------------------- stores and queues


@metered("stores")
async def stores(ctx, m):
    rng = ctx.rng
    indexed = rng.random() < 0.7
    idx = {"app": S.by_app, "n": S.by_n, index.NAMESPACE_INDEX: index.meta_namespace_index_func}
    st = store.new_indexer(controller.deletion_handling_meta_namespace_key_func, index.Indexers(idx)) if indexed else store.new_store(controller.deletion_handling_meta_namespace_key_func)

    replaces = rng.random() < 0.4

    def new(i, same=None):
        ns, name = same or (rng.choice([None, f"ns{i}"]), f"name{i}")
        return m.track(Obj(ns, name, rv=str(i), labels={"app": f"app{i}", "n": rng.choice([f"n{i}", "x"])}))

    async def cycle(i):
        o = new(i)
        same = o.metadata.namespace, o.metadata.name
        await rng.choice([st.add, st.update])(o)
        if rng.random() < 0.5:
            await rng.choice([st.add, st.update])(new(i + 10**6, same))
        if rng.random() < 0.3:
            st.get_by_key(f"absent{i}")
            st.get(Obj("a", f"absent{i}"))
            if indexed:
                await st.by_index("app", f"absent{i}")
                await st.index_keys("n", f"absent{i}")
                await st.index("n", Obj("a", "x", labels={"n": f"none{i}"}))
        r = rng.random()
        if r < 0.2 and replaces:
            await st.replace([], "1")
        elif r < 0.4:
            await st.delete(delta_fifo.DeletedFinalStateUnknown(store.meta_namespace_key_func(o), o)) if rng.random() < 0.3 else await st.delete(Obj(*same))
        elif r < 0.9 or not replaces:
            await st.delete(o)
        elif i % 20 == 0:
            await st.replace([new(i + 2 * 10**6)], "1")

    async def rest():
        if replaces:
            await st.replace([], "1")
        else:
            for o in st.list():
                await st.delete(o)

    return cycle, rest


@metered("fifos")
async def fifos(ctx, m):
    rng = ctx.rng
    key = store.meta_namespace_key_func
    delta = rng.random() < 0.6
    known = store.new_store(controller.deletion_handling_meta_namespace_key_func) if delta and rng.random() < 0.8 else None
    q = delta_fifo.DeltaFIFO(key, known) if delta else fifo.FIFO(key)
    plan = []

    async def process(item):
        if delta and known is not None:
            for d in item:
                await (known.delete(d.object) if d.type is delta_fifo.DeltaType.DELETED else known.update(d.object))
        if rng.random() < 0.2:
            await yields(rng, 3)
        if plan:
            raise plan.pop()

    async def pop():
        plan[:] = rng.choice([[], [], [], [RuntimeError("failed")], [fifo.RequeueError(RuntimeError("again"))]])
        t = asyncio.ensure_future(q.pop(process))
        await asyncio.sleep(0.01)
        if not t.done():
            ctx.count("cancelled_waits")
            t.cancel()
        await asyncio.gather(t, return_exceptions=True)

    async def cycle(i):
        o = m.track(Obj(rng.choice([None, "a"]), f"name{i}", rv=str(i)))
        await rng.choice([q.add, q.update, q.add])(o)
        r = rng.random()
        if r < 0.3:
            await q.update(m.track(Obj(o.metadata.namespace, f"name{i}", rv=str(i + 1))))
        if r < 0.5:
            await pop()
        if 0.3 < r < 0.8:
            await q.delete(o)
        if r > 0.95:
            await q.replace([m.track(Obj("b", f"listed{i}"))] if rng.random() < 0.5 else [], "1")
        elif r > 0.9:
            await q.resync()
        await pop()

    async def rest():
        await q.replace([], "1")
        for o in q.list():
            if not delta:
                await q.delete(o)
        for _ in range(10**4):
            if not q.list_keys():
                break
            await pop()
        ctx.check(not q.list_keys(), "a drained queue still has keys")
        plan.clear()
        await give_up(ctx, q.pop(process))

    return cycle, rest


@metered("workqueues", cycles=250)
async def workqueues(ctx, m):
    rng = ctx.rng
    kind = rng.choice(wq.KINDS)
    q = wq.make(kind, rng.choice([None, limiters.ItemExponentialFailureRateLimiter(0.01, 5), limiters.default_controller_rate_limiter()]))

    if kind != "plain" and rng.random() < 0.4:
        ctx.count("far_off_items")
        await q.add_after(Item("far off"), 3e6)

    async def serve():
        while len(q):
            x, _ = await q.get()
            if rng.random() < 0.3:
                await q.add(x)
            if kind == "ratelimited":
                q.num_requeues(x)
                if rng.random() < 0.3:
                    await q.add_rate_limited(x)
                    await q.done(x)
                    return
                q.forget(x)
            await q.done(x)

    async def cycle(i):
        x = m.track(Item(i))
        r = rng.random()
        if kind == "plain" or r < 0.3:
            await q.add(x)
        elif kind == "ratelimited" and r < 0.6:
            await q.add_rate_limited(x)
        else:
            for _ in range(rng.choice([1, 1, 2])):
                await q.add_after(x, rng.choice([-1, 0, 0.001, 0.5, 5, 30]))
                if rng.random() < 0.1:
                    await give_up(ctx, q.add_after(x, 1), 0)
        if rng.random() < 0.2 and not len(q):
            t = await give_up(ctx, q.get())
            if not t.cancelled():
                if kind == "ratelimited":
                    q.forget(t.result()[0])
                await q.done(t.result()[0])
        await serve()
        if rng.random() < 0.2:
            await asyncio.sleep(rng.random())

    async def rest():
        for _ in range(5):
            await asyncio.sleep(20)
            while len(q):
                x, _ = await q.get()
                if kind == "ratelimited":
                    q.forget(x)
                await q.done(x)

    return cycle, rest


@metered("rate_limiters", cycles=1000)
async def rate_limiters(ctx, m):
    rng = ctx.rng
    lim = rng.choice([limiters.ItemExponentialFailureRateLimiter(0.01, 5), limiters.default_controller_rate_limiter(), limiters.BucketRateLimiter(5, 10)])

    async def cycle(i):
        x = m.track(Item(i))
        for _ in range(rng.choice([0, 1, 1, 3])):
            lim.when(x)
            if rng.random() < 0.3:
                await asyncio.sleep(rng.random())
        if rng.random() < 0.5:
            lim.num_requeues(x)
        lim.forget(x)
        if rng.random() < 0.5:
            lim.num_requeues(x)
        if rng.random() < 0.2:
            lim.forget(x)

    async def rest():
        pass

    return cycle, rest, 1


# ---------------------------------------------------------------- informers


@metered("informers", cycles=60, batches=4)
async def informers(ctx, m):
    rng = ctx.rng
    srv = S.Server(ctx, p_break=rng.choice([0, 0.5, 0.95]))
    srv.log_limit = None
    plain = srv.render
    srv.render = lambda f: m.track(plain(f))
    if rng.random() < 0.3:
        srv.faulty = False
    period = rng.choice([0, 0, 2])
    hs = [S.Handler(ctx, f"h{i}", srv, mode=rng.choice(["fast", "yield", "raise", "slow"])) for i in range(rng.randrange(1, 4))]
    for h in hs:
        h.slowness = 0.2
        h.judge = False
    shared = rng.random() < 0.6
    if shared:
        inf = shared_informer.new_shared_index_informer(srv, Obj, period, S.indexers())
        for h in hs:
            await inf.add_event_handler(h)
    else:
        _, inf = controller.new_informer(srv, Obj, period, hs[0])
    run = asyncio.ensure_future(inf.run())
    faulty = srv.faulty

    async def cycle(i):
        srv.faulty = faulty
        ns = rng.choice([None, f"ns{i % 7}"])
        srv.put(ns, f"name{i}", {"app": f"app{i}", "n": "x"})
        if rng.random() < 0.5:
            await asyncio.sleep(rng.random())
        if rng.random() < 0.5:
            srv.put(ns, f"name{i}")
        if rng.random() < 0.1:
            srv.compact()
        for w in srv.open_watches():
            if faulty and rng.random() < 0.3:
                w.plan, w.break_at = (rng.choice(["close", "raise", "error"]), 0, 0), 0
        srv.poke()
        await (asyncio.sleep(rng.random() * rng.choice([0.1, 3])) if rng.random() < 0.8 else yields(rng, 5))
        srv.remove(ns, f"name{i}")

    async def rest():
        srv.quiet()
        await asyncio.sleep(20000 if any(h.mode == "raise" for h in hs) else 60)  # a failed handler gets a minute's rest
        S.still_running(ctx, run)
        ctx.count("reconnections", len(srv.watches))
        ctx.count("relists", srv.lists)
        forget(srv)

    return cycle, rest, 6 + 4 * len(hs)


@metered("managers", cycles=50, batches=4)
async def managers(ctx, m):
    from aiok8s.controller import reconcile

    rng = ctx.rng
    srv = mgr.new_api(ctx, p_break=rng.choice([0, 0.5]))
    srv.faulty = faulty = rng.random() < 0.6
    man, rec, r = await mgr.build(ctx, srv, lambda rec: [], mode=rng.choice(["fast", "yield", "slow"]), workers=rng.choice([1, 3]))
    fails = {}

    def outcome(k):
        n = fails.setdefault(k, rng.choice([0, 0, 0, 1, 3]))
        fails[k] = n - 1
        if n <= 0:
            return reconcile.Result()
        return rng.choice([RuntimeError("failed"), reconcile.Result(requeue=True), reconcile.Result(requeue_after=rng.random() * 3)])

    r.outcome = outcome
    plain = r.cache.get

    async def get(key, kind):
        return m.track(await plain(key, kind))

    class Cache:
        pass

    r.cache = Cache()
    r.cache.get = get
    run = asyncio.ensure_future(man.start())
    await asyncio.sleep(20)

    async def cycle(i):
        srv.faulty = faulty
        ns = rng.choice(["a", f"ns{i}"])
        srv.put(ns, f"name{i}")
        await (asyncio.sleep(rng.random() * rng.choice([0.1, 3])) if rng.random() < 0.8 else yields(rng, 5))
        if rng.random() < 0.3:
            srv.put(ns, f"name{i}")
            await asyncio.sleep(rng.random())
        srv.remove(ns, f"name{i}")

    async def rest():
        srv.quiet()
        await asyncio.sleep(200)
        S.still_running(ctx, run)
        ctx.count("reconnections", len(srv.watches))
        ctx.count("relists", srv.lists)
        forget(srv)
        fails.clear()
        srv.paths.clear()
        for x in (rec.events, rec.starts, rec.ends):
            x.clear()

    return cycle, rest, 12


# ---------------------------------------------------------------- broadcasters, clocks, helpers, electors


@metered("broadcasters", cycles=300)
async def broadcasters(ctx, m):
    rng = ctx.rng
    drop = rng.random() < 0.5
    b = mux.Broadcaster(rng.choice([1, 2, 5] if drop else [0, 1, 5]), mux.FullChannelBehavior.DROP_IF_CHANNEL_FULL if drop else mux.FullChannelBehavior.WAIT_IF_CHANNEL_FULL)
    steady = await b.watch()

    async def consume():
        async for _ in steady:
            pass

    eater = asyncio.ensure_future(consume())

    async def cycle(i):
        w = await (b.watch() if rng.random() < 0.7 else b.watch_with_prefix([{"type": "ADDED", "object": m.track(Obj("a", f"p{i}"))}]))
        m.track(w)
        for _ in range(rng.randrange(3)):
            t = asyncio.ensure_future(b.action("ADDED", m.track(Obj("a", f"x{i}"))))
            if rng.random() < 0.5:
                await asyncio.gather(*[asyncio.wait_for(w.__anext__(), 0.01)], return_exceptions=True)
            if rng.random() < 0.5:
                await give_up(ctx, w.__anext__())
            if rng.random() < 0.2:
                await asyncio.sleep(0.01)
        if rng.random() < 0.3:
            t = await give_up(ctx, b.watch())
            if not t.cancelled():
                await t.result().stop()
        if rng.random() < 0.3:
            async with w:
                pass
        else:
            await w.stop()

    async def rest():
        await asyncio.sleep(1)
        ctx.check(not eater.done(), "a watcher ended while its broadcaster runs")
        for i in range(3):
            await b.action("ADDED", Obj("a", "last"))
            await asyncio.sleep(0.01)

    return cycle, rest


@metered("clocks")
async def clocks(ctx, m):
    rng = ctx.rng
    fake = clock.FakeClock(1000.0)
    real = clock.RealClock()
    made = []

    async def cycle(i):
        if rng.random() < 0.6:
            t = fake.new_timer(rng.choice([0.5, 1, 5, 50]))
            m.track(t.c())
            r = rng.random()
            if r < 0.2:
                t.reset(rng.choice([1, 3]))
            if r < 0.5:
                t.stop()
                if r < 0.1:
                    t.stop()
            if r < 0.8:
                await fake.step(rng.choice([0.5, 5]))
            if 0.4 < r < 0.6 and not t.c().empty():
                t.c().get_nowait()
        else:
            t = real.new_timer(rng.choice([0, 0.5, 3])) if rng.random() < 0.7 else real.new_ticker(rng.choice([0.1, 1]))
            m.track(t.c())
            m.track(t)
            if rng.random() < 0.5:
                await give_up(ctx, t.c().get(), rng.random())
            t.stop()
        if rng.random() < 0.3:
            await asyncio.sleep(rng.random())

    async def rest():
        await fake.step(100)
        await fake.step(100)
        ctx.check(not fake.has_waiters(), "a fake clock has waiters left when all are due or stopped")
        await asyncio.sleep(10)

    return cycle, rest, 3


@metered("helpers", cycles=150)
async def helpers(ctx, m):
    rng = ctx.rng
    never = asyncio.Event()

    async def f():
        if rng.random() < 0.2:
            raise RuntimeError("failed")
        await yields(rng, 2)

    async def cond():
        await f()
        return rng.random() < 0.3

    async def cycle(i):
        stop = never
        if rng.random() < 0.2:
            stop = asyncio.Event()
            ctx.loop.call_later(rng.random(), stop.set)
        what = rng.randrange(9)
        p = rng.choice([0.01, 0.3, 1])
        aw = [
            lambda: wait.until(f, p, stop),
            lambda: wait.jitter_until(f, p, rng.choice([0, 1]), rng.random() < 0.5, stop),
            lambda: wait.loop(f, p),
            lambda: wait.jitter_loop(f, p, rng.choice([0, 1]), rng.random() < 0.5),
            lambda: wait.poll(p, rng.choice([0.05, 2]), cond),
            lambda: wait.poll_immediate(p, rng.choice([0.05, 2]), cond),
            lambda: wait.poll_infinite(p, cond),
            lambda: wait.exponential_backoff(wait.Backoff(steps=rng.choice([1, 3]), duration=p, factor=2), cond),
            lambda: shared_informer.wait_for_cache_sync(lambda: rng.random() < 0.1),
        ][what]()
        await give_up(ctx, aw, rng.choice([0, 0.5, 10]))

    async def rest():
        await asyncio.sleep(50)

    return cycle, rest


class MemoryLock:
    """A lock record in memory that a stranger takes from time to time."""

    def __init__(self, ctx):
        self.rng = ctx.rng
        self.record = None
        self.n = 0

    def identity(self):
        return "me"

    def describe(self):
        return "lock"

    async def get(self):
        await yields(self.rng, 2)
        if self.rng.random() < self.p_fail:
            raise RuntimeError("no answer")
        return (None, None) if self.record is None else (dict(self.record), repr(self.record))

    async def create(self, record):
        await self.update(record)

    async def update(self, record):
        await yields(self.rng, 2)
        if self.rng.random() < self.p_fail:
            raise RuntimeError("no answer")
        self.record = dict(record)


@metered("electors", cycles=40, batches=4)
async def electors(ctx, m):
    rng = ctx.rng
    lock = MemoryLock(ctx)
    lead, release = rng.choice([True, False]), rng.random() < 0.5
    steady = rng.random() < 0.5
    lock.p_fail = rng.choice([0, 0.1])

    async def leading():
        await asyncio.sleep(1e9 if lead else 1)

    async def nothing(*a):
        pass

    def new():
        return leaderelection.LeaderElector(
            leaderelection.LeaderElectionConfig(
                lock=lock, lease_duration=15, renew_deadline=10, retry_period=2, release_on_cancel=release, name="e",
                callbacks=leaderelection.LeaderCallbacks(leading, nothing, nothing if rng.random() < 0.7 else None),
            )
        )

    state = {}

    async def cycle(i):
        run = state.get("run")
        if run is None or run.done():
            e = m.track(new())
            run = state["run"] = asyncio.ensure_future(e.run())
        await asyncio.sleep(rng.random() * 30)
        r = rng.random() + steady
        if r < 0.2 and lock.record:
            lock.n += 1
            lock.record = {**lock.record, "holderIdentity": f"stranger{lock.n}", "leaderTransitions": lock.n}
        elif r < 0.3:
            run.cancel()
            await asyncio.gather(run, return_exceptions=True)

    async def rest():
        await asyncio.sleep(30)

    return cycle, rest, 2


# ---------------------------------------------------------------- short-lived components


@metered("short_lived", cycles=25, batches=4)
async def short_lived(ctx, m):
    rng = ctx.rng

    async def workqueue():
        q = m.track(rng.choice([queue.new, delaying_queue.new, rate_limiting_queue.new])() if rng.random() < 0.5 else wq.make(rng.choice(wq.KINDS)))
        for i in range(rng.randrange(4)):
            x = m.track(Item(i))
            await q.add(x)
            if hasattr(q, "add_after"):
                await q.add_after(m.track(Item(-i)), rng.random() * 3)
        getter = asyncio.ensure_future(q.get())
        await (asyncio.sleep(rng.random() * 5) if rng.random() < 0.5 else yields(rng, 4))
        await q.shut_down()
        await getter
        await asyncio.sleep(8)
        await ended([q], "a queue that was shut down")

    async def broadcaster():
        b = m.track(mux.Broadcaster(rng.choice([1, 5]), rng.choice(list(mux.FullChannelBehavior))))
        ws = [m.track(await b.watch()) for _ in range(rng.randrange(3))]
        for i in range(rng.randrange(5)):
            await b.action("ADDED", m.track(Obj("a", f"x{i}")))
        for w in ws:
            if rng.random() < 0.5:
                await w.stop()

        async def drain(w):
            async for _ in w:
                pass

        await asyncio.gather(b.shutdown(), *map(drain, ws))
        await ended([b, *ws], "a broadcaster that was shut down")

    async def fake():
        w = m.track(watch.new_fake())

        async def drain():
            async for _ in w:
                pass

        async def send(i):
            await w.action("ADDED", m.track(Obj("a", f"x{i}")))

        for _ in range(rng.choice([1, 1, 3])):
            d = asyncio.ensure_future(drain())
            for i in range(rng.randrange(4)):
                await send(i)
                if rng.random() < 0.3:
                    await asyncio.sleep(rng.random() * 5)
            if rng.random() < 0.4:
                d.cancel()
                await asyncio.gather(d, return_exceptions=True)
                d = asyncio.ensure_future(drain())
            if rng.random() < 0.5:
                await yields(rng, 3)
            await w.stop()
            await d
            await ended([w], "a stopped fake watcher")
            await w.reset()
        await w.stop()

    before = set()

    async def ended(held, what):
        """The held objects are still there, but not one task of theirs."""
        ctx.count("ends_judged")
        await asyncio.sleep(0.01)
        left = [t for t in asyncio.all_tasks() - before if not t.done()]
        ctx.check(not left, f"{what} leaves a task running", tasks=[repr(t.get_coro()) for t in left][:3], held=len(held))

    async def informer():
        srv = S.Server(ctx)
        plain = srv.render
        srv.render = lambda f: m.track(plain(f))
        for i in range(3):
            srv.put("a", f"n{i}")
        h = S.Handler(ctx, "h", srv, mode=rng.choice(["fast", "slow"]))
        if rng.random() < 0.5:
            inf = shared_informer.new_shared_index_informer(srv, Obj, rng.choice([0, 2]), S.indexers())
            await inf.add_event_handler(h)
            m.track(inf.get_indexer())
        else:
            st, inf = controller.new_informer(srv, Obj, rng.choice([0, 2]), h)
            m.track(st)
        m.track(inf)
        run = asyncio.ensure_future(inf.run())
        for _ in range(rng.randrange(5)):
            srv.random_change([("a", f"n{i}") for i in range(4)])
            await (asyncio.sleep(rng.random() * 5) if rng.random() < 0.5 else yields(rng, 4))
        await S.stop(ctx, run, within=10)

    async def manager():
        srv = mgr.new_api(ctx)
        for i in range(3):
            srv.put("a", f"n{i}")
        man, rec, r = await mgr.build(ctx, srv, lambda rec: [])
        m.track(man)
        m.track(man.get_cache())
        run = asyncio.ensure_future(man.start())
        for _ in range(rng.randrange(5)):
            srv.random_change([("a", f"n{i}") for i in range(4)])
            await (asyncio.sleep(rng.random() * 5) if rng.random() < 0.5 else yields(rng, 4))
        await S.stop(ctx, run, within=10)

    async def cycle(i):
        before.clear()
        before.update(asyncio.all_tasks())
        await rng.choice([workqueue, broadcaster, informer, manager, fake])()

    async def rest():
        mgr.new_api(ctx)
        await asyncio.sleep(1000)

    return cycle, rest, 3


SCENARIOS = {
    "stores": stores, "fifos": fifos, "workqueues": workqueues, "rate_limiters": rate_limiters, "informers": informers, "managers": managers,
    "broadcasters": broadcasters, "clocks": clocks, "helpers": helpers, "electors": electors, "short_lived": short_lived,
}
Q = {"stores": 30, "fifos": 40, "workqueues": 40, "rate_limiters": 16, "informers": 60, "managers": 24, "broadcasters": 24, "clocks": 16, "helpers": 24, "electors": 24, "short_lived": 32}
PLAN = {"quick": Q, "thorough": {k: v * 20 for k, v in Q.items()}}
