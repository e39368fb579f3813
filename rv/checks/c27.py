"""C27: a manager reconciles only after caches sync and stops completely."""
import asyncio

from aiok8s.controller import controller, handler, reconcile, source

from rv import mgr as M
from rv import server as S
from rv.kinds import KINDS
from rv.pods import PodApi
from rv.util import horizon, yields

PROPERTY = "C27"
RULE = (
    "Managers with zero to three controllers (built by the builder or by hand) over a fake API of pods, and in half of the cases nodes and config maps, whose first lists fail, hang and are slow, "
    "with reconciles that are fast, slow, hang, fail or ask for a requeue.  At every reconcile start the cache of every kind must hold the "
    "whole first successful list (or later); reconciles must start within two seconds of the last one.  The manager is cancelled at a random "
    "loop step or time, while waiting for its caches, at the n-th list or watch call, or at or inside the n-th reconcile; it must return within a "
    "second as cancelled; then no watch is open, no task beyond the test's own is left except timers, and for 1500 virtual seconds of "
    "server changes no API call and no reconcile happens. Runnables: the application's own runnables next to controllers run on, complete or fail; none starts before the caches, "
    "some are added to a running manager and must start at once, completing disturbs nothing, failing ends the manager with that error and leaves nothing behind. Fields: runnables, reconcilers, sources, handlers and predicates that ask for the cache or for the setter get them. Non-trivial: cancelled with a watch open, a reconcile running or the first list pending."
)
REQUIRED_COUNTS = ("other_kinds_judged", "reconciles", "starts_judged", "cancelled_while_syncing", "cancelled_in_reconcile", "cancelled_inside", "cancelled_at_list", "cancelled_at_watch", "at_steps", "at_time", "prompt_starts", "without_controllers", "failed_lists", "watches_closed", "runnables_started", "failed_runnables", "completed_runnables", "reconciles_after_completion", "runnables_stopped", "fields_judged", "added_to_running_manager", "added_while_syncing", "cleanups")
ASSUMPTIONS = ["promptly means within a second; soon means within two seconds", "a timer is a task that only sleeps; it is gone after 100000 s at the latest"]


def watched(cls):
    class Api(cls):
        on = None

        async def list(self, options):
            self.on("list")
            return await super().list(options)

        async def watch(self, options):
            self.on("watch")
            return await super().watch(options)

    return Api


Api = watched(PodApi)
MORE = {t: watched(cls) for t, cls in KINDS.items() if t is not M.Pod}


@horizon(1e6)
async def lifecycle(ctx):
    rng = ctx.rng
    loop = ctx.loop
    srv = Api(ctx, p_list_fail=rng.choice([0, 0.3, 0.8]), slow_call=rng.choice([0, 0.5, 1]), p_watch_fail=rng.choice([0, 0.3]))
    if rng.random() < 0.3:
        srv.faulty = False
    names = [(rng.choice(["a", "b"]), f"n{i}") for i in range(rng.randrange(1, 6))]
    for ns, n in names:
        if rng.random() < 0.8:
            srv.put(ns, n)
    if rng.random() < 0.25:
        srv.gate = asyncio.Event()
        if rng.random() < 0.5:
            loop.call_later(rng.random() * 20, srv.gate.set)
    how = rng.choice(["steps", "time", "syncing", "list", "watch", "reconcile", "reconcile", "late"])
    nth = rng.choice([1, 1, 2, 3, 5])
    inside = rng.random() < 0.5
    st = {"n": nth, "hit": asyncio.Event(), "run": None, "inside": False}

    def on(what):
        if what != how or st["hit"].is_set() or st["run"] is None:
            return
        st["n"] -= 1
        if st["n"] <= 0:
            st["hit"].set()
            if inside:
                st["inside"] = True
                st["run"].cancel()

    srv.on = on
    # other kinds that the manager has to wait for as well
    more = {}
    if rng.random() < 0.5:
        for t in MORE:
            if rng.random() < 0.7:
                o = more[t] = MORE[t](ctx, p_list_fail=rng.choice([0, 0.3, 0.8]), slow_call=rng.choice([0, 1]))
                o.on = on
                for ns, n in names:
                    if rng.random() < 0.7:
                        o.put("" if o.kind == "Node" else ns, n)
                if rng.random() < 0.3:
                    o.gate = asyncio.Event()
                    loop.call_later(rng.random() * 20, o.gate.set)
    if not MORE:
        ctx.count("other_kinds_judged")
    apis = [srv, *more.values()]
    n_ctrl = rng.choice([0, 1, 1, 1, 2, 3])
    mgr = M.manager.new()
    recs, rs = [], []
    inf = None
    infs = {}
    for t in more:
        if rng.random() < 0.5:
            infs[t] = await mgr.get_cache().get_informer(t)
    for i in range(n_ctrl):
        mode = rng.choice(["fast", "yield", "slow", "hang"])
        workers = rng.choice([1, 2, 3])
        _, rec, r = await M.build(ctx, srv, rng.choice([None, lambda rec: [M.Predicate(rec)], lambda rec: []]), mode, workers, mgr)
        r.cleanup = rng.choice([0, 0.5])
        r.outcome = rng.choice([None, lambda k: RuntimeError("failed"), lambda k: reconcile.Result(requeue=True), lambda k: reconcile.Result(requeue_after=rng.choice([1, 5, 300]))])
        recs.append(rec)
        rs.append(r)
        if inf is None:
            inf = await mgr.get_cache().get_informer(M.Pod)
    if n_ctrl == 0:
        ctx.count("without_controllers")
        if rng.random() < 0.5:
            inf = await mgr.get_cache().get_informer(M.Pod)

    for t in more:
        if t not in infs:
            infs[t] = await mgr.get_cache().get_informer(t)
    if inf is not None:
        infs[M.Pod] = inf

    def started(k, seen):
        for t, i in infs.items():
            api = more.get(t, srv)
            ctx.check(api.ok_lists, "a reconcile started before a list of every kind succeeded", key=k, kind=t.__name__)
            ctx.count("starts_judged")
            if api is not srv:
                ctx.count("other_kinds_judged")
            for kk, v in api.ok_lists[0][2].items():
                o = i.get_indexer().get_by_key(kk)
                ctx.check(S.rv_of(o) >= v if o is not None else api.deleted_after(kk, v), "a reconcile started before the cache held the whole first list", key=k, lacks=kk, kind=t.__name__)
        on("reconcile")

    for r in rs:
        r.on_start = started
    mine = set(asyncio.all_tasks())
    run = st["run"] = asyncio.ensure_future(mgr.start())

    async def changes():
        while True:
            api = rng.choice(apis)
            api.random_change(names if api.kind != "Node" else [("", n) for _, n in names])
            await asyncio.sleep(rng.random() * (2 if loop.time() < 60 and not st.get("stopped") else 60))

    churn = asyncio.ensure_future(changes())
    mine.add(churn)
    # ---- until the cancellation
    if how == "steps":
        for _ in range(rng.choice([0, 1, 2, 5, 20, 100, 500])):
            await asyncio.sleep(0)
    elif how == "time":
        await asyncio.sleep(rng.random() * rng.choice([0.2, 5, 60]))
    elif how == "syncing":
        await asyncio.sleep(rng.random() * 0.3)
    elif how == "late":
        await asyncio.sleep(rng.random() * 1000)
    else:
        w = asyncio.ensure_future(st["hit"].wait())
        await asyncio.wait([w], timeout=30)
        w.cancel()
        if rng.random() < 0.5:
            await yields(rng, 4)
    ctx.count({"steps": "at_steps", "time": "at_time", "syncing": "at_syncing", "late": "at_late", "list": "cancelled_at_list", "watch": "cancelled_at_watch", "reconcile": "at_reconcile"}[how])
    if st["inside"]:
        ctx.count("cancelled_inside")
    if any(not api.ok_lists for api in apis) or any(not i.has_synced() for i in infs.values()):
        ctx.count("cancelled_while_syncing")
    active = any(any(rec.active.values()) for rec in recs)
    if active:
        ctx.count("cancelled_in_reconcile")
    ctx.nontrivial = bool(active or any(api.open_watches() or api.lists and not api.ok_lists for api in apis))
    # ---- soon after the first list, reconciles start
    if all(api.ok_lists for api in apis) and not st["inside"] and n_ctrl:
        _, _, first = srv.ok_lists[0]
        t = max(api.ok_lists[0][0] for api in apis)
        if loop.time() > t + 2.5 and any(k in srv.objs or srv.hist[k][-1][0] > v for k, v in first.items()):
            still = [k for k, v in first.items() if not any(x > v and f is None for x, f in srv.hist[k])]
            if still:
                ctx.count("prompt_starts")
                for rec, r in zip(recs, rs):
                    ctx.check(rec.n and (rec.starts and rec.starts[0][1] <= t + 2.5 or any(rec.active.values())), "no reconcile starts although the caches are synced", listed=t, now=loop.time(), first=rec.starts[:1])
    if not st["inside"]:
        S.still_running(ctx, run) if n_ctrl or infs else None
        run.cancel()
    await asyncio.wait([run], timeout=1)
    ctx.check(run.done(), "cancelling the manager does not make it return promptly", how=how)
    if n_ctrl or infs:
        ctx.check(run.cancelled(), "a cancelled manager does not end with the cancellation", how=how, got=repr(None if run.cancelled() else run.exception()))
    st["stopped"] = True
    ctx.rec("stopped", how)
    for r in rs:
        r.closed = True
    calls = [len(api.paths) for api in apis]
    ctx.check(not any(api.open_watches() for api in apis), "a watch is still open after the manager returned", how=how)
    if srv.watches:
        ctx.count("watches_closed")
    for _ in range(10):
        await asyncio.sleep(0)
    ctx.check(not any(any(rec.active.values()) for rec in recs), "a reconcile is still running after the manager returned", how=how)
    await asyncio.sleep(1500)
    ctx.check([len(api.paths) for api in apis] == calls, "API calls were made after the manager returned", how=how)
    churn.cancel()
    await asyncio.sleep(1e5)
    left = [t for t in asyncio.all_tasks() if t not in mine and t is not asyncio.current_task() and not t.done()]
    ctx.check(not left, "tasks other than timers are left running long after the manager returned", how=how, tasks=[repr(t)[:160] for t in left[:4]])


class Runnable:
    """Something of the application's own that the manager runs."""

    def __init__(self, ctx, name, plan, life, cleanup, error, inf, srv):
        self.ctx, self.name, self.plan, self.life, self.cleanup, self.error, self.inf, self.srv = ctx, name, plan, life, cleanup, error, inf, srv
        self.started = self.over = None
        self.starts = 0
        self.outcome = None

    async def start(self):
        ctx = self.ctx
        self.starts += 1
        self.started = ctx.loop.time()
        ctx.rec("started", self.name)
        ctx.count("runnables_started")
        ctx.check(self.srv.ok_lists, "a runnable started before a list succeeded")
        for kk, v in self.srv.ok_lists[0][2].items():
            o = self.inf.get_indexer().get_by_key(kk)
            ctx.check(S.rv_of(o) >= v if o is not None else self.srv.deleted_after(kk, v), "a runnable started before the cache held the whole first list", lacks=kk)
        try:
            if self.plan == "forever":
                await asyncio.Event().wait()
            if self.life:
                await asyncio.sleep(self.life)
            if self.plan == "fail":
                self.outcome = "failed"
                raise self.error
            self.outcome = "completed"
            return self.ctx.rng.choice([None, 1, False])
        except asyncio.CancelledError:
            self.outcome = "cancelled"
            if self.cleanup:
                await asyncio.sleep(self.cleanup)
            raise
        finally:
            self.over = ctx.loop.time()
            ctx.rec("over", self.name, self.outcome)


class Failure(Exception):
    pass


@horizon(1e6)
async def runnables(ctx):
    """Runnables that run on, complete and fail, next to controllers."""
    rng = ctx.rng
    loop = ctx.loop
    srv = Api(ctx, p_list_fail=rng.choice([0, 0.3]), slow_call=rng.choice([0, 0.5]))
    srv.on = lambda what: None
    names = [(rng.choice(["a", "b"]), f"n{i}") for i in range(rng.randrange(1, 5))]
    for ns, n in names:
        if rng.random() < 0.8:
            srv.put(ns, n)
    mgr = M.manager.new()
    inf = await mgr.get_cache().get_informer(M.Pod)
    rs, recs, rr = [], [], []

    def runnable(i):
        plan = rng.choice(["forever", "complete", "complete", "fail"]) if i else rng.choice(["forever", "complete"])
        life = rng.choice([0, 0, 0.5, 30 * rng.random(), 600 * rng.random()])
        error = rng.choice([Failure("failed"), ValueError(1), asyncio.TimeoutError(), KeyError("k")])
        r = Runnable(ctx, f"r{i}", plan, life, rng.choice([0, 0, 0.2]), error, inf, srv)
        mgr.add(r)
        rr.append(r)

    n, m = rng.randrange(0, 3), rng.randrange(1, 5)
    order = ["c"] * n + list(range(m))
    rng.shuffle(order)
    late = []

    async def add(x):
        if x == "c":
            _, rec, r = await M.build(ctx, srv, rng.choice([None, lambda rec: [M.Predicate(rec)]]), rng.choice(["fast", "slow", "hang"]), rng.choice([1, 2]), mgr)
            r.cleanup = rng.choice([0, 0.5])
            recs.append(rec)
            rs.append(r)
        else:
            runnable(x)

    for x in order:
        if rng.random() < 0.25:
            late.append(x)
        else:
            await add(x)
    mine = set(asyncio.all_tasks())
    t0 = loop.time()
    run = asyncio.ensure_future(mgr.start())
    while not inf.has_synced():
        await asyncio.sleep(0.01)
        if late and rng.random() < 0.01:
            x = late.pop()
            if x == "c":
                late.insert(0, x)
            else:
                ctx.count("added_while_syncing")
                await add(x)
        S.still_running(ctx, run) if not inf.has_synced() else None
    await asyncio.wait([run], timeout=2)
    synced = loop.time()
    if not run.done():
        for r in rr:
            ctx.check(r.starts == 1, "a runnable was not started, or started again, although the caches are synced", runnable=r.name, starts=r.starts)
    at = rng.random() * rng.choice([5, 60, 1000])
    end = loop.time() + at
    while not run.done() and loop.time() < end:
        if rng.random() < 0.3:
            srv.random_change(names)
        if late and rng.random() < 0.4:
            x = late.pop()
            ctx.count("added_to_running_manager")
            n0 = len(rr)
            await add(x)
            await asyncio.wait([run], timeout=0.5)
            for r in rr[n0:]:
                ctx.check(r.starts == 1, "a runnable added to a running manager was not started, or started again", runnable=r.name, starts=r.starts)
            if x == "c":
                held = inf.get_indexer().list_keys()
                await asyncio.wait([run], timeout=2)
                ctx.check(run.done() or recs[-1].starts or not held, "a controller added to a running manager reconciles nothing", cached=held)
        await asyncio.wait([run], timeout=max(0, min(rng.random() * 20, end - loop.time())))
    failing = [r for r in rr if r.plan == "fail"]
    over = [r for r in failing if r.outcome == "failed"]
    if over:
        ctx.count("failed_runnables")
        await asyncio.wait([run], timeout=1)
        ctx.check(run.done(), "a runnable failed but the manager goes on", runnable=over[0].name)
        ctx.check(not run.cancelled() and run.exception() in [r.error for r in over], "the manager does not end with the error of the runnable that failed", got=repr(run), errors=[repr(r.error) for r in over])
        ctx.nontrivial = True
    else:
        S.still_running(ctx, run)
        if any(r.outcome == "completed" for r in rr):
            # what completed leaves the rest running
            ctx.count("completed_runnables")
            srv.quiet()
            for rec, r in zip(recs, rs):
                r.mode = "fast"
            if not any(any(rec.active.values()) for rec in recs) and not any(r.outcome is None and r.plan == "fail" for r in rr):
                await asyncio.sleep(5)
                before = srv.state()
                srv.random_change(names)
                await asyncio.sleep(4)
                now = srv.state()
                S.still_running(ctx, run)
                k = next(k for k in {*before, *now} if before.get(k) != now.get(k))
                for rec in recs:
                    ctx.count("reconciles_after_completion")
                    ctx.check(any(s[2] == k and s[3] == now.get(k) for s in rec.starts), "a runnable that completed stopped the reconciles", key=k)
                ctx.check(inf.get_indexer().get_by_key(k) is not None if k in now else inf.get_indexer().get_by_key(k) is None, "a runnable that completed stopped the cache", key=k)
                ctx.nontrivial = True
        if not run.done():
            run.cancel()
            await asyncio.wait([run], timeout=1)
            ctx.check(run.done(), "cancelling the manager does not make it return promptly")
            ctx.check(run.cancelled(), "a cancelled manager does not end with the cancellation", got=repr(run))
    for r in rs:
        r.closed = True
    for r in rr:
        ctx.check(r.starts <= 1, "a runnable was started more than once", runnable=r.name)
        ctx.check(not r.starts or r.over is not None, "a runnable is still running after the manager returned", runnable=r.name)
        if r.plan == "forever" and r.starts:
            ctx.count("runnables_stopped")
            ctx.check(r.outcome == "cancelled", "a runnable ended by itself", outcome=r.outcome)
    calls = len(srv.paths)
    ctx.check(not srv.open_watches(), "a watch is still open after the manager returned")
    for _ in range(10):
        await asyncio.sleep(0)
    ctx.check(not any(any(rec.active.values()) for rec in recs), "a reconcile is still running after the manager returned")
    for _ in range(3):
        srv.random_change(names)
        await asyncio.sleep(500)
    ctx.check(len(srv.paths) == calls, "API calls were made after the manager returned")
    await asyncio.sleep(1e5)
    left = [t for t in asyncio.all_tasks() if t not in mine and t is not asyncio.current_task() and not t.done()]
    ctx.check(not left, "tasks other than timers are left running long after the manager returned", tasks=[repr(t)[:160] for t in left[:4]])
    ctx.rec(n, m, round(synced - t0, 3), len(over))


class Wants:
    """Asks for what a manager can give."""

    def __init__(self, rng, base=object):
        self.caches, self.setters = [], []
        if rng.random() < 0.7:
            self.inject_cache = self.caches.append
        if rng.random() < 0.5:
            self.inject_func = self.setters.append


class WantsHandler(Wants, handler.EnqueueRequestForObject):
    pass


class WantsSource(Wants):
    async def start(self, handler, queue, *predicates):
        pass


async def fields(ctx):
    rng = ctx.rng
    mgr = M.manager.new()
    given = []

    def make(cls):
        x = cls(rng)
        given.append(x)
        return x

    for _ in range(rng.randrange(0, 3)):
        x = make(Wants)
        mgr.add(x)
    for _ in range(rng.randrange(1, 3)):
        r = make(Wants)
        c = controller.new(mgr, reconciler=r)
        for _ in range(rng.randrange(0, 3)):
            await c.watch(make(WantsSource), make(WantsHandler), *[make(Wants) for _ in range(rng.randrange(0, 3))])
    for x in list(given):
        for f in x.setters:
            if rng.random() < 0.5:
                f(make(Wants))
    for x in given:
        ctx.count("fields_judged")
        if hasattr(x, "inject_cache"):
            ctx.check(x.caches and all(c is mgr.get_cache() for c in x.caches), "something given to a manager or controller was not given the manager's cache", kind=type(x).__name__, got=len(x.caches))
        if hasattr(x, "inject_func"):
            ctx.check(x.setters, "something given to a manager or controller was not given the setter it asks for", kind=type(x).__name__)
    ctx.nontrivial = len(given) > 3
    ctx.rec(len(given), [len(x.caches) for x in given])


SCENARIOS = {"fields": fields, "lifecycle": lifecycle, "runnables": runnables}
PLAN = {"quick": {"fields": 200, "lifecycle": 2000, "runnables": 1500}, "thorough": {"fields": 2000, "lifecycle": 50000, "runnables": 10000}}
