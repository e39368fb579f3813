"""C25: every change to a watched object leads to a reconcile that sees it."""
import asyncio
import collections
import random

from kubernetes_asyncio.client import models

from aiok8s.controller import controller, event, handler, manager, reconcile, source
from aiok8s.workqueue import queue

from rv import mgr as M
from rv import server as S
from rv.kinds import KINDS
from rv.util import failure, horizon, yields

PROPERTY = "C25"
RULE = (
    "Real managers (through the builder, or controllers with predicates and up to four workers) over a faulty fake pod API beneath the real "
    "kubernetes_asyncio client and watch code; pods are created, updated, deleted and re-created while lists, watches and streams fail, "
    "expire and are missed. Recorded: every event that reached the controller with its predicate decision, every reconcile with what its cached "
    "read returned. Judged: each accepted event is followed by a reconcile of its name that started later, each reconcile sees at least "
    "every version accepted before it started, there are never more reconciles than accepted events explain (rejected ones suppress exactly "
    "themselves), names existed, and once all is quiet the last reconcile of every object that was ever cached saw its final state. "
    "Watches: one controller with two to four watches of several kinds, predicates and handlers, some of the application's own, some watches added while it runs, judged the same way. "
    "Failing: predicates and handlers that raise on some events, before or after asking for a reconcile; only those events may be lost, and changes a minute later are reconciled. "
    "Bare: events lacking metadata ask for nothing themselves. Mass: hundreds to thousands of pods existing before the start or created at once. Non-trivial: a deletion was noticed only by a relist, or a predicate rejected an event, or a change arrived while its object was reconciled."
)
REQUIRED_COUNTS = ("reconciles", "events_accepted", "events_rejected", "accepted_events_judged", "final_states_judged", "relist_deletions", "changes_during_reconcile", "built_by_builder", "several_workers", "single_changes_judged", "lists", "broken_watches", "failed_lists", "failed_watches", "watches_of_one_controller", "mapped_watches", "budgets_of_several_watches", "failed_events", "changes_after_failed_events", "events_without_metadata", "watches_added_later")
ASSUMPTIONS = ["all is quiet five seconds after changes, faults, and slow reconciles stopped", "an update event may cause two reconciles (it enqueues the names of the old and the new object)"]


def seen_ok(srv, k, seen, v, kind):
    """A cached read made after an event with this version was told."""
    if kind == "delete":
        return seen is None or seen > v
    if seen is None:
        return srv.deleted_after(k, v)
    return seen >= v


def judge_events(ctx, srv, rec):
    """Offline: accepted events and reconciles match."""
    starts = collections.defaultdict(list)
    for s, t, k, seen in rec.starts:
        starts[k].append((s, seen))
    budget = collections.Counter()
    timeline = sorted([(e[0], "event", e) for e in rec.events] + [(s[0], "start", s) for s in rec.starts])
    newest = {}
    for _, what, x in timeline:
        if what == "event":
            _, _, kind, k, v, ok = x
            if ok:
                budget[k] += 2 if kind == "update" else 1
                newest[k] = (v, kind)
        else:
            _, _, k, seen = x
            budget[k] -= 1
            ctx.check(budget[k] >= 0, "an object was reconciled more often than accepted events explain", key=k)
            v, kind = newest[k]
            ctx.check(seen_ok(srv, k, seen, v, kind), "a reconcile did not see the change that led to it", key=k, event=(kind, v), seen=seen)
    for s, t, kind, k, v, ok in rec.events:
        if ok:
            ctx.count("accepted_events_judged")
            ctx.check(any(j > s for j, _ in starts[k]), "an event is not followed by a reconcile", kind=kind, key=k, version=v)


@horizon(1e5)
async def reconciled(ctx):
    rng = ctx.rng
    srv = M.new_api(ctx, p_break=rng.choice([0.2, 0.6, 0.9]), p_list_fail=rng.choice([0, 0.3]), latency=rng.choice([0, 0.3]), slow_call=0.2)
    names = [(rng.choice(["a", "b"]), f"n{i}") for i in range(rng.randrange(1, 5))]
    for ns, n in names:
        if rng.random() < 0.6:
            srv.put(ns, n)
    with_builder = rng.random() < 0.3
    workers = rng.choice([1, 1, 2, 4])
    mode = rng.choice(["fast", "yield", "slow"])
    policy = rng.choice(["all", "some", "kinds"])
    reject_kind = rng.choice(["create", "update", "delete"])
    salt = rng.randrange(3)

    def decide(kind, k, v):
        if policy == "all":
            return True
        if policy == "kinds":
            return kind != reject_kind
        return (v + salt) % 3 != 0

    def preds(rec):
        ps = [M.Predicate(rec, decide)]
        if rng.random() < 0.3:
            ps.insert(0, M.Predicate(rec, lambda kind, k, v: (v + salt) % 5 != 0, last=False))
        return ps

    mgr, rec, r = await M.build(ctx, srv, None if with_builder else preds, mode, workers)
    if with_builder:
        ctx.count("built_by_builder")
        policy = "all"
    elif workers > 1:
        ctx.count("several_workers")
    inf = await mgr.get_cache().get_informer(M.Pod)
    watcher = S.Handler(ctx, "watcher", srv, None, mode="fast")
    run = asyncio.ensure_future(mgr.start())

    async def watch():
        # a change made before the controller registered leads to nothing
        while not inf.has_synced():
            await asyncio.sleep(0.05)
        await asyncio.sleep(0.3)
        await inf.add_event_handler(watcher)

    watching = asyncio.ensure_future(watch())
    for i in range(rng.randrange(5, 60)):
        x = rng.random()
        if x < 0.5:
            srv.random_change(names, p_delete=0.4)
        elif x < 0.53:
            srv.compact()
        elif x < 0.6:
            for w in list(srv.open_watches()):
                w.plan = (rng.choice(["close", "raise", "error"]), 0, 0)
                w.break_at = 0
            srv.poke()
            if rng.random() < 0.5:
                await asyncio.sleep(rng.random() * 0.5)
                for _ in range(rng.randrange(4)):
                    srv.random_change(names, p_delete=0.6)
        elif x < 0.65 and not run.done():
            await asyncio.sleep(rng.random() * 10)
        else:
            await (asyncio.sleep(rng.random() * rng.choice([0.01, 0.5])) if rng.random() < 0.6 else yields(rng, 6))
        if any(rec.active.values()):
            ctx.count("changes_during_reconcile")
    srv.quiet()
    r.mode = "fast"
    await asyncio.sleep(15)
    for _ in range(rng.randrange(3)):
        before, n = srv.state(), len(rec.starts)
        srv.random_change(names)
        d = rng.choice([0, 0.01, 1])
        await asyncio.sleep(d)
        if d == 1 and policy == "all" and ctx.counts["events_rejected"] == 0:
            now = srv.state()
            k = next(k for k in {*before, *now} if before.get(k) != now.get(k))
            ctx.count("single_changes_judged")
            ctx.check(any(s[2] == k and s[3] == now.get(k) for s in rec.starts[n:]), "a change is not followed by a reconcile that sees it", key=k, version=now.get(k))
    await asyncio.sleep(5)
    S.still_running(ctx, run)
    await watching
    final = srv.state()
    ctx.check(watcher.state == final, "the informer has not converged", got=watcher.state, want=final)
    ctx.count("relist_deletions", ctx.counts["tombstones"])
    ctx.nontrivial = bool(ctx.counts["tombstones"] or ctx.counts["events_rejected"] or ctx.counts["changes_during_reconcile"])
    if not with_builder:
        judge_events(ctx, srv, rec)
    last = {}
    for _, _, k, seen in rec.starts:
        last[k] = seen
    if policy == "all" and ctx.counts["events_rejected"] == 0:
        for k in watcher.top:
            ctx.count("final_states_judged")
            ctx.check(k in last, "an object was never reconciled", key=k)
            ctx.check(last[k] == final.get(k), "the last reconcile of an object did not see its final state", key=k, seen=last[k], final=final.get(k), tombstones=ctx.counts["tombstones"])
    run.cancel()


class ToOwner:
    """An application's own handler: every event leads to the owner of the object."""

    async def create(self, event, queue):
        await queue.add(owner_of(event.meta.name))

    async def update(self, event, queue):
        await queue.add(owner_of(event.meta_new.name))

    async def delete(self, event, queue):
        await queue.add(owner_of(event.meta.name))


def owner_of(name):
    return reconcile.Request(reconcile.NamespacedName(namespace="owners", name="o" + name[-1]))


class Reader:
    """Reads every kind under the requested name."""

    def __init__(self, rec, kinds, cache, mode, workers):
        self.rec, self.kinds, self.cache, self.mode, self.workers = rec, kinds, cache, mode, workers
        self.rng = random.Random(rec.ctx.rng.random())
        self.reads = {t: [] for t in kinds}  # (seq, key, version)

    async def reconcile(self, req):
        rec, ctx = self.rec, self.rec.ctx
        k = M.req_key(req)
        ctx.check(not rec.active.get(k), "two reconciles of one object overlap", key=k)
        rec.active[k] = True
        ctx.check(sum(rec.active.values()) <= self.workers, "more reconciles run at once than there are workers")
        ctx.count("reconciles")
        start, t0 = rec.seq(), ctx.loop.time()
        for t in self.kinds:
            try:
                o = await self.cache.get(req.namespaced_name, t)
                ctx.check(isinstance(o, t) and S.key(o) == k, "a cached read returned another object", key=k, kind=t.__name__)
                v = S.rv_of(o)
            except KeyError:
                v = None
            self.reads[t].append((start, k, v))
        rec.starts.append((start, t0, k, None))
        ctx.rec("reconcile", k)
        try:
            if self.mode == "yield":
                await yields(self.rng, 5)
            elif self.mode == "slow":
                await asyncio.sleep(self.rng.random() * 2)
        finally:
            rec.active[k] = False
        return reconcile.Result()


@horizon(1e5)
async def watches(ctx):
    """One controller with several watches, of several kinds, with handlers and predicates of their own."""
    rng = ctx.rng
    opts = {"p_break": rng.choice([0.2, 0.6]), "p_list_fail": rng.choice([0, 0.3]), "latency": rng.choice([0, 0.3]), "slow_call": 0.2}
    apis = {t: cls(ctx, **opts) for t, cls in KINDS.items()}
    names = {t: [(None if a.kind == "Node" else rng.choice(["a", "b"]), f"n{i}") for i in range(rng.randrange(1, 4))] for t, a in apis.items()}
    for t, a in apis.items():
        for ns, n in names[t]:
            if rng.random() < 0.6:
                a.put(ns, n)
    mgr = manager.new()
    rec = M.Recorder(ctx)
    workers = rng.choice([1, 1, 2, 4])
    r = Reader(rec, list(apis), mgr.get_cache(), rng.choice(["fast", "yield", "slow"]), workers)
    c = controller.new(mgr, reconciler=r)
    c.max_concurrent_reconciles = workers
    for t in apis:
        await mgr.get_cache().get_informer(t)
    ws = []  # (type, recorder or None, mapped, policy)
    late = []
    for i in range(rng.randrange(2, 5)):
        t = rng.choice(list(apis))
        mapped = rng.random() < 0.3
        policy = rng.choice(["all", "all", "some", "kinds"])
        salt, kind_out = rng.randrange(3), rng.choice(["create", "update", "delete"])
        mine = M.Recorder(ctx)
        mine.seq = rec.seq

        def decide(kind, k, v, policy=policy, salt=salt, kind_out=kind_out):
            return policy == "all" or (kind != kind_out if policy == "kinds" else (v + salt) % 3 != 0)

        if policy == "all" and rng.random() < 0.4:
            ps, mine = [], None
        else:
            ps = [M.Predicate(mine, decide)]
        watch = (source.Kind(t), ToOwner() if mapped else handler.EnqueueRequestForObject(), *ps)
        if rng.random() < 0.3:
            late.append(watch)
        else:
            await c.watch(*watch)
        ws.append((t, mine, mapped, policy))
    ctx.count("watches_of_one_controller", len(ws))
    ctx.count("mapped_watches", sum(w[2] for w in ws))
    run = asyncio.ensure_future(mgr.start())
    adding = []
    for _ in range(rng.randrange(5, 50)):
        x = rng.random()
        if late and rng.random() < 0.1:
            ctx.count("watches_added_later")
            adding.append(asyncio.ensure_future(c.watch(*late.pop())))
        t = rng.choice(list(apis))
        a = apis[t]
        if x < 0.5:
            a.random_change(names[t], p_delete=0.4)
        elif x < 0.55:
            a.compact()
        elif x < 0.6:
            for w in list(a.open_watches()):
                w.plan = (rng.choice(["close", "raise", "error"]), 0, 0)
                w.break_at = 0
            a.poke()
        elif x < 0.7:
            await asyncio.sleep(rng.random() * 10)
        else:
            await (asyncio.sleep(rng.random() * rng.choice([0.01, 0.5])) if rng.random() < 0.6 else yields(rng, 6))
    for a in apis.values():
        a.quiet()
    r.mode = "fast"
    if late:
        await asyncio.sleep(5)
        for w in late:
            ctx.count("watches_added_later")
            adding.append(asyncio.ensure_future(c.watch(*w)))
    await asyncio.sleep(15)
    for x in adding:
        ctx.check(x.done(), "adding a watch to a running controller does not end")
        x.result()
    for t, a in apis.items():
        a.random_change(names[t])
    await asyncio.sleep(5)
    S.still_running(ctx, run)
    budget = collections.Counter()
    for t, mine, mapped, policy in ws:
        a = apis[t]
        by = collections.defaultdict(list)
        for s, k, v in r.reads[t]:
            by[k].append((s, v))
        told = set(a.state())

        def target(k):
            return M.req_key(owner_of(k)) if mapped else k

        if mine:
            told |= {e[3] for e in mine.events}
            ctx.check(set(a.state()) <= {e[3] for e in mine.events}, "a watch of a controller was not told of every object", missing=sorted(set(a.state()) - {e[3] for e in mine.events}), watch=t.__name__)
            for s, _, kind, k, v, ok in mine.events:
                if not ok:
                    continue
                budget[target(k)] += 2 if kind == "update" else 1
                ctx.count("accepted_events_judged")
                ctx.check(any(j > s and (mapped or seen_ok(a, k, seen, v, kind)) for j, seen in by[target(k)]), "an event of one of several watches is not followed by a reconcile that sees it", kind=kind, key=k, version=v, watch=t.__name__)
        if policy == "all":
            final = a.state()
            for k in told:
                ctx.count("final_states_judged")
                ctx.check(by[target(k)], "an object of one of several watches was never reconciled", key=k, watch=t.__name__)
                if not mapped:
                    ctx.check(by[k][-1][1] == final.get(k), "the last reconcile of an object did not see its final state", key=k, seen=by[k][-1][1], final=final.get(k), watch=t.__name__)
    if all(w[1] for w in ws):
        got = collections.Counter(s[2] for s in rec.starts)
        for k, n in got.items():
            ctx.check(n <= budget[k], "an object was reconciled more often than accepted events explain", key=k, got=n, accepted=budget[k])
        ctx.count("budgets_of_several_watches")
    ctx.nontrivial = len(ws) > 1 and bool(rec.starts)
    run.cancel()


@horizon(1e5)
async def mass(ctx):
    """Thousands of objects are all reconciled."""
    rng = ctx.rng
    srv = M.new_api(ctx, p_break=0, p_list_fail=0, latency=0, slow_call=0)
    srv.faulty = False
    n = rng.choice([300, 600, 1300])
    names = [(rng.choice(["a", "b"]), f"n{i}") for i in range(n)]
    for ns, m in names:
        srv.put(ns, m)
    workers = rng.choice([1, 4])
    mgr, rec, r = await M.build(ctx, srv, lambda rec: [M.Predicate(rec)], "fast", workers)
    run = asyncio.ensure_future(mgr.start())
    await asyncio.sleep(5)
    for _ in range(rng.choice([0, 500, 1200])):
        srv.random_change(names)
    await asyncio.sleep(2)
    for w in list(srv.open_watches()):
        w.plan = ("raise", 0, 0)
        w.break_at = 0
    srv.poke()
    await asyncio.sleep(0.01)
    for _ in range(rng.choice([10, 1200])):
        srv.random_change(names, p_delete=0.6)
    srv.compact()
    await asyncio.sleep(15)
    S.still_running(ctx, run)
    judge_events(ctx, srv, rec)
    final = srv.state()
    last = {}
    for _, _, k, seen in rec.starts:
        last[k] = seen
    for ns, m in names:
        k = S.key_of(ns, m)
        ctx.count("final_states_judged")
        ctx.check(k in last, "one of very many objects was never reconciled", key=k)
        ctx.check(last[k] == final.get(k), "the last reconcile of one of very many objects did not see its final state", key=k, seen=last[k], final=final.get(k))
    ctx.rec("mass", n)
    ctx.nontrivial = True
    run.cancel()


class SomeFail(handler.EnqueueRequestForObject):
    """Fails on some events, before or after having queued the request."""

    def __init__(self, rec, fails):
        self.rec, self.fails = rec, fails

    async def _run(self, event, queue, f):
        how = self.fails("handler")
        if how == "before":
            s, t, kind, k, v, _ = self.rec.events.pop()
            self.rec.events.append((s, t, kind, k, v, False))
        else:
            await f(event, queue)
        if how:
            raise failure(self.rec.ctx.rng, "event handler failed as told")

    async def create(self, event, queue):
        await self._run(event, queue, super().create)

    async def update(self, event, queue):
        await self._run(event, queue, super().update)

    async def delete(self, event, queue):
        await self._run(event, queue, super().delete)


@horizon(1e5)
async def failing(ctx):
    """A predicate or handler that fails on an event loses that event only."""
    rng = ctx.rng
    srv = M.new_api(ctx, p_break=rng.choice([0, 0.5]), p_list_fail=0, latency=0, slow_call=0.2)
    names = [(rng.choice(["a", "b"]), f"n{i}") for i in range(rng.randrange(1, 5))]
    for ns, n in names:
        if rng.random() < 0.6:
            srv.put(ns, n)
    left = [rng.randrange(1, 5)]
    where = rng.choice(["handler", "predicate", "both"])
    lost = []

    def fails(what):
        if left[0] and where in (what, "both") and rng.random() < 0.3:
            left[0] -= 1
            ctx.count("failed_events")
            how = rng.choice(["before", "after"])
            lost.append(how == "before" or what == "predicate")
            return how

    def decide(kind, k, v):
        if fails("predicate"):
            raise failure(rng, "predicate failed as told")
        return True

    mgr = manager.new()
    rec = M.Recorder(ctx)
    r = M.Reconciler(rec, srv, mgr.get_cache(), rng.choice(["fast", "slow"]), 1)
    c = controller.new(mgr, reconciler=r)
    inf = await mgr.get_cache().get_informer(M.Pod)
    watcher = S.Handler(ctx, "watcher", srv, None, mode="fast")
    await inf.add_event_handler(watcher)
    await c.watch(source.Kind(M.Pod), SomeFail(rec, fails), M.Predicate(rec, decide))
    run = asyncio.ensure_future(mgr.start())
    for _ in range(rng.randrange(5, 40)):
        x = rng.random()
        if x < 0.6:
            srv.random_change(names, p_delete=0.4)
        elif x < 0.63:
            srv.compact()
        else:
            await asyncio.sleep(rng.random() * rng.choice([0.01, 0.5, 20]))
    srv.quiet()
    r.mode = "fast"
    await asyncio.sleep(15)
    ctx.check(watcher.state == srv.state(), "another handler has not converged while one fails", got=watcher.state, want=srv.state())
    # each failure may hold its own handler up for a minute
    await asyncio.sleep(70 * len(lost) + 70)
    left[0] = 0
    for _ in range(rng.randrange(1, 4)):
        n = len(rec.starts)
        k = S.key_of(*rng.choice(names))
        srv.put(*next(x for x in names if S.key_of(*x) == k))
        await asyncio.sleep(65)
        ctx.check(any(s[2] == k and s[3] == srv.state()[k] for s in rec.starts[n:]), "a change after an earlier event failed is not followed by a reconcile that sees it", key=k)
        ctx.count("changes_after_failed_events", bool(lost))
    S.still_running(ctx, run)
    judge_events(ctx, srv, rec)
    ctx.nontrivial = bool(lost)
    run.cancel()


@horizon(1e3)
async def bare(ctx):
    """Events without metadata ask for nothing and disturb nothing."""
    rng = ctx.rng
    q = queue.new()
    h = handler.EnqueueRequestForObject()
    want = set()

    def some():
        if rng.random() < 0.4:
            return None
        return models.V1ObjectMeta(name=f"n{rng.randrange(4)}", namespace=rng.choice([None, "a", "b"]))

    for _ in range(rng.randrange(1, 12)):
        what = rng.choice(["create", "update", "delete"])
        m, m2 = some(), some()
        if what == "create":
            await h.create(event.CreateEvent(m, object()), q)
        elif what == "delete":
            await h.delete(event.DeleteEvent(m, object()), q)
        else:
            await h.update(event.UpdateEvent(m, object(), m2, object()), q)
        want |= {(x.namespace, x.name) for x in ([m, m2] if what == "update" else [m]) if x}
        if m is None or (what == "update" and m2 is None):
            ctx.count("events_without_metadata")
    got = []
    for _ in range(len(q)):
        item, _ = await q.get()
        got.append((item.namespaced_name.namespace, item.namespaced_name.name))
        await q.done(item)
    ctx.rec("bare", sorted(got, key=str))
    ctx.check(len(set(got)) == len(got) and set(got) == want, "a handler did not ask for exactly the objects that events with metadata named", got=got, want=sorted(want, key=str))
    ctx.nontrivial = bool(want)


SCENARIOS = {"bare": bare, "failing": failing, "mass": mass, "reconciled": reconciled, "watches": watches}
PLAN = {"quick": {"bare": 500, "failing": 400, "mass": 5, "reconciled": 3000, "watches": 800}, "thorough": {"bare": 5000, "failing": 5000, "mass": 100, "reconciled": 25000, "watches": 10000}}
