"""C37: replicas that elect a leader act one at a time."""
import asyncio
import contextvars

from rv import mgr as M
from rv import server as S
from rv.election import Arena, Elector
from rv.pods import PodApi
from rv.util import horizon, yields

PROPERTY = "C37"
RULE = (
    "One to four replicas, each running a manager with a controller as the leading task of an elector, over one lock and one fake pod API. The network to the lock delays, loses and "
    "hangs requests and partitions single replicas, the pod API fails and breaks watches, replicas are cancelled and restarted (anew or by running the same elector again), reconciles are fast, slow, hanging and take time to clean up. "
    "Every API call and reconcile is attributed to its replica (a context variable): none while another replica leads, none once its own stopped; at every start of leading no other replica has a reconcile under way "
    "and no watch is open. After the faults every object's final state must be reconciled by the one leader. Non-trivial: leadership changed hands after reconciles had been made."
)
REQUIRED_COUNTS = ("leaderships", "reconciles", "changes_of_leader", "calls_attributed", "partitions", "cancelled_leaders", "restarts", "deadline_stops", "active_at_stop", "final_states_judged", "changed_while_nobody_led", "releases", "cleanups", "runs_again")
ASSUMPTIONS = ["cleaning up after a cancelled reconcile takes less than half of the time between renew deadline and lease", "leading lasts from the start callback being called until the stop callback is called", "clocks are synchronized, and callbacks and timers run without delay"]

REPLICA = contextvars.ContextVar("replica", default=None)


class Api(PodApi):
    judge = None

    async def list(self, options):
        self.judge("list")
        return await super().list(options)

    async def watch(self, options):
        self.judge("watch")
        return await super().watch(options)


class Reconciler(M.Reconciler):
    def __init__(self, rec, srv, cache, mode, workers, replica):
        super().__init__(rec, srv, cache, mode, workers)
        self.replica = replica

    async def reconcile(self, req):
        e = self.replica
        e.world.judge("reconcile")
        e.active += 1
        e.reconciled += 1
        try:
            return await super().reconcile(req)
        finally:
            e.active -= 1


class Replica(Elector):
    """An elector whose leading task is a manager of its own."""

    world = None

    def __init__(self, *a, **kw):
        super().__init__(*a, **kw)
        self.active = self.reconciled = 0
        self.recs = []

    async def _lead(self):
        w = self.world
        REPLICA.set(self)
        self.task_state = "running"
        self.leading_over = False
        try:
            mgr = M.manager.new()
            rec = M.Recorder(w.ctx)
            r = Reconciler(rec, w.srv, mgr.get_cache(), w.mode, w.workers, self)
            r.cleanup = w.cleanup
            self.recs.append(rec)
            w.reconcilers.append(r)
            if w.workers == 1:
                await M.builder.build_controller(mgr, r, api_type=M.Pod)
            else:
                c = M.controller.new(mgr, reconciler=r)
                c.max_concurrent_reconciles = w.workers
                await mgr.get_cache().get_informer(M.Pod)
                await c.watch(M.source.Kind(M.Pod), M.handler.EnqueueRequestForObject())
            await mgr.start()
        except asyncio.CancelledError:
            self.task_state = "cancelled"
            raise
        finally:
            self.leading_over = True

    def _stopped(self):
        if self.leading and self.active:
            self.world.ctx.count("active_at_stop")
        return super()._stopped()


class World:
    """All replicas, and what they may do."""

    def __init__(self, ctx):
        self.ctx = ctx
        rng = ctx.rng
        self.srv = Api(ctx, p_list_fail=rng.choice([0, 0.3]), p_watch_fail=rng.choice([0, 0.3]), slow_call=rng.choice([0, 0.5]))
        self.srv.judge = self.judge
        self.mode = rng.choice(["fast", "yield", "slow", "hang"])
        self.workers = rng.choice([1, 1, 2, 4])
        self.reconcilers = []
        self.arena = a = Arena(ctx, rng.random() < 0.3, tell=rng.random() < 0.5)
        self.cleanup = rng.choice([0, 0, 0.45]) * (a.lease - a.renew)
        started = a.started

        def on_start(e):
            started(e)
            if len(a.leaders) > 1 and a.leaders[-2] is not e:
                ctx.count("changes_of_leader")
                if any(o.reconciled for o in a.electors):
                    ctx.nontrivial = True
            for o in a.electors:
                ctx.check(o is e or not o.active, "a replica starts to lead while a reconcile of another is under way", leads=e.who, other=o.who)
            ctx.check(not self.srv.open_watches(), "a replica starts to lead while another still watches", leads=e.who)

        a.started = on_start
        a.make = Replica

    def judge(self, what):
        e, ctx = REPLICA.get(), self.ctx
        ctx.count("calls_attributed")
        ctx.check(e is not None, "a call was made outside of any replica's leading task", what=what)
        others = [o.who for o in self.arena.electors if o.leading and o is not e]
        ctx.check(not others, "a replica acts while another leads", what=what, replica=e.who, leading=others)
        now = ctx.loop.time()
        ctx.check(e.leading or now <= e.stops[-1] + 1e-3, "a replica acts after it stopped leading", what=what, replica=e.who, stopped=e.stops[-1:], now=now)


@horizon(1e6)
async def replicas(ctx):
    rng = ctx.rng
    loop = ctx.loop
    w = World(ctx)
    a, srv = w.arena, w.srv
    a.net.p.update(slow=rng.choice([0.1, 0.5]), lost=rng.choice([0, 0.1, 0.3]), reply_lost=rng.choice([0, 0.1]), hang=rng.random(), linger=rng.random())
    names = [(rng.choice(["a", "b"]), f"n{i}") for i in range(rng.randrange(1, 5))]
    for ns, n in names:
        if rng.random() < 0.7:
            srv.put(ns, n)
    a.initial()
    n = rng.choice([1, 2, 2, 3, 4])
    live = []

    async def begin(identity=None, again=None):
        live.append(a.elector(identity, again).start())
        live[-1].world = w
        await (asyncio.sleep(rng.random() * a.retry) if rng.random() < 0.5 else yields(rng, 5))

    for _ in range(n):
        await begin()
    for _ in range(rng.randrange(10, 40)):
        x = rng.random()
        if x < 0.12:
            e = a.leader() if rng.random() < 0.8 else rng.choice(live)
            if e:
                ctx.count("partitions")
                a.net.cut.add(e.who)
                if rng.random() < 0.5:
                    loop.call_later(rng.random() * rng.choice([1, 2]) * a.lease, a.net.cut.discard, e.who)
        elif x < 0.25:
            a.net.heal()
        elif x < 0.33:
            e = a.leader() if rng.random() < 0.7 else rng.choice(live)
            if e and not e.run.done() and not e.asked_to_end:
                if e.leading:
                    ctx.count("cancelled_leaders")
                e.why = "cancel"
                e.cancel()
        elif x < 0.42:
            for e in list(live):
                if e.run.done():
                    live.remove(e)
                    ctx.count("restarts")
                    await (begin(again=e) if rng.random() < 0.5 else begin(rng.choice([e.id, None])))
            while len(live) < n:
                await begin()
        elif x < 0.7:
            if not a.leader():
                ctx.count("changed_while_nobody_led")
            srv.random_change(names, p_delete=0.4)
            if rng.random() < 0.1:
                srv.compact()
        else:
            await (asyncio.sleep(rng.random() * rng.choice([0.05, 0.2, 1, 2]) * a.lease) if rng.random() < 0.85 else yields(rng, 20))
    a.net.quiet()
    srv.quiet()
    w.mode = "fast"
    for r in w.reconcilers:
        r.mode = "fast"
    # Replicas which end are restarted, as their platform does.  One that fails to renew because of what was still under way when the faults stopped ends within a lease.
    end = loop.time() + 2 * a.lease + 15 * a.retry
    while loop.time() < end or not live:
        for e in list(live):
            if e.run.done():
                live.remove(e)
                ctx.count("restarts")
        if not [e for e in live if not e.asked_to_end]:
            await begin()
        await asyncio.sleep(0.3 * a.lease)
    await asyncio.sleep(3 * a.lease + 4 * a.retry + 20)
    e = a.leader()
    ctx.check(e, "nobody leads although the network and the API are healthy")
    if not any(any(r.active.values()) for r in e.recs):
        final = srv.state()
        latest = {}
        for s in e.recs[-1].starts:
            latest[s[2]] = s[3]
        for k, v in final.items():
            ctx.count("final_states_judged")
            ctx.check(latest.get(k) == v, "the leader has not reconciled an object's final state", key=k, version=v, seen=latest.get(k))
    for e in a.electors:
        if e.starts and e.stops and e.why != "cancel":
            ctx.count("deadline_stops")
        if not e.asked_to_end:
            e.cancel()
    await asyncio.wait([e.run for e in a.electors], timeout=a.renew + 3 * a.lease)
    for e in a.electors:
        ctx.check(e.run.done(), "a cancelled elector does not end", who=e.who)
        ctx.check(not e.active, "a reconcile is still running after its elector has ended", who=e.who)
    ctx.check(not srv.open_watches(), "a watch is still open after every elector has ended")
    srv.random_change(names)
    calls = len(srv.paths)
    await asyncio.sleep(500)
    ctx.check(len(srv.paths) == calls, "an API call was made after every elector had ended")


SCENARIOS = {"replicas": replicas}
PLAN = {"quick": {"replicas": 2500}, "thorough": {"replicas": 20000}}
