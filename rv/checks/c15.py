"""C15: stopping an informer or reflector stops everything it started."""
import asyncio

from aiok8s.cache import controller, reflector, shared_informer

from rv import server as S
from rv.util import failure, horizon, yields

PROPERTY = "C15"
RULE = (
    "Reflectors, basic informers and shared informers run against a faulty or healthy fake API server with resyncs, suspending stores "
    "and fast, slow, blocked, raising handlers, and are cancelled at a random loop step, at a random virtual time, or at a chosen "
    "event (list, watch, stream event, store operation, handler call, back-off, failure pause, resync), from outside or from inside "
    "that call.  Watches, store calls and handlers may take a moment to end when cancelled. The run must end as cancelled within a second; then every watch must be closed, no task beyond the test's own may "
    "exist, and for the next 700 virtual seconds of server changes no list, watch, store or handler call may happen; handlers registered "
    "afterwards are ignored. Non-trivial: the cancellation hit while a component was working (a watch open, or inside a call)."
)
REQUIRED_COUNTS = ("cancelled_reflector", "cancelled_basic", "cancelled_shared", "at_steps", "at_time", "at_list", "at_watch", "at_event", "at_store", "at_handler", "at_resync", "inside_calls", "during_backoff", "blocked_handlers", "during_failure_pause", "late_registrations", "watches_closed", "slow_closes", "slow_ends", "failed_closes", "registered_while_stopping")
ASSUMPTIONS = ["promptly means within a second of virtual time", "a cancelled task is given ten loop iterations to finish"]


class Trigger:
    """Cancels the run at the n-th occurrence of an event."""

    def __init__(self, ctx, what, nth):
        self.ctx, self.what, self.left = ctx, what, nth
        self.hit = asyncio.Event()
        self.inside = ctx.rng.random() < 0.4
        self.task = None
        self.on_cancel = lambda: None

    def at(self, what):
        if what != self.what or self.hit.is_set() or self.task is None:
            return
        self.left -= 1
        if self.left <= 0:
            self.hit.set()
            if self.inside:
                self.ctx.count("inside_calls")
                self.ctx.rec("cancelled inside", what)
                self.task.cancel()
                self.on_cancel()


class Server(S.Server):
    trigger = None

    async def list(self, options):
        self.trigger.at("list")
        return await super().list(options)

    async def watch(self, options):
        self.trigger.at("watch")
        return await super().watch(options)


class Store:
    """A store for a bare reflector: suspends, sometimes fails."""

    def __init__(self, ctx, trigger):
        self.ctx, self.trigger = ctx, trigger
        self.calls = 0
        self.closed = False
        self.busy = 0
        self.slow_end = ctx.rng.random() < 0.4

    async def _op(self, name):
        self.ctx.check(not self.closed, "a store call was made after the reflector had stopped", op=name)
        self.calls += 1
        self.busy += 1
        try:
            self.trigger.at("resync" if name == "resync" else "store")
            rng = self.ctx.rng
            r = rng.random()
            if r < 0.3:
                await asyncio.sleep(rng.random() * 2)
            elif r < 0.7:
                await yields(rng, 4)
            if rng.random() < 0.1:
                raise failure(rng, "store failed")
        except asyncio.CancelledError:
            if self.slow_end:
                self.ctx.count("slow_ends")
                await asyncio.sleep(0.15)
            raise
        finally:
            self.busy -= 1

    async def add(self, obj):
        await self._op("add")

    async def update(self, obj):
        await self._op("update")

    async def delete(self, obj):
        await self._op("delete")

    async def replace(self, items, rv):
        await self._op("replace")

    async def resync(self):
        await self._op("resync")


@horizon(1e5)
async def stopping(ctx):
    rng = ctx.rng
    loop = ctx.loop
    kind = rng.choice(["reflector", "basic", "shared", "shared"])
    how = rng.choice(["steps", "time", "list", "watch", "event", "store" if kind == "reflector" else "handler", "handler" if kind != "reflector" else "store", "resync" if kind == "reflector" else "handler", "backoff"])
    srv = Server(ctx, dicts=rng.random() < 0.3, slow_call=rng.choice([0.3, 1]), p_list_fail=rng.choice([0, 0.4]))
    if rng.random() < 0.3:
        srv.faulty = False
    trigger = srv.trigger = Trigger(ctx, how, rng.choice([1, 1, 2, 3, 6]))
    names = [(rng.choice(["a", "b"]), f"n{i}") for i in range(rng.randrange(1, 6))]
    for ns, n in names:
        if rng.random() < 0.7:
            srv.put(ns, n)
    if rng.random() < 0.1:
        srv.gate = asyncio.Event()  # the list never answers
    period = rng.choice([0, 0, 1, 3])
    handlers = []
    store = inf = None

    def handler():
        mode = rng.choice(["fast", "yield", "slow", "block", "raise"])
        h = S.Handler(ctx, f"h{len(handlers)}", srv, None, mode=mode, judge=False)

        def poll():
            ctx.check(not h.closed, "a handler was called after its informer had stopped", handler=h.name)
            h.calls += 1
            trigger.at("handler")

        plain, slow_end = h._behave, rng.random() < 0.3

        async def behave(k):
            try:
                await plain(k)
            except asyncio.CancelledError:
                if slow_end:
                    ctx.count("slow_ends")
                    await asyncio.sleep(0.15)
                raise

        h._behave = behave
        h.calls = 0
        h.poll = poll
        handlers.append(h)
        return h

    if kind == "reflector":
        store = Store(ctx, trigger)
        comp = reflector.Reflector(srv, srv.expected, store, period)
    elif kind == "basic":
        _, comp = controller.new_informer(srv, srv.expected, period, handler())
    else:
        inf = comp = await S.informer_with_indexers(ctx, srv, period)
        for _ in range(rng.randrange(3)):
            await inf.add_event_handler(handler())
    mine = set(asyncio.all_tasks())
    run = asyncio.ensure_future(comp.run())
    trigger.task = run

    async def changes():
        while True:
            srv.random_change(names)
            await asyncio.sleep(rng.random() * 1.5)

    churn = asyncio.ensure_future(changes())
    mine.add(churn)

    async def register():
        await asyncio.sleep(rng.random() * 5)
        await inf.add_event_handler(handler())

    regs = []
    if kind == "shared" and rng.random() < 0.5:
        regs.append(asyncio.ensure_future(register()))
        mine.add(regs[0])

    async def register_soon(n):
        for _ in range(n):
            await asyncio.sleep(0)
        h = handler()
        await inf.add_event_handler(h, **rng.choice([{}, {"resync_period": 5}]))
        ctx.count("registered_while_stopping")

    def stopping_now():
        """Registrations at each of the next steps, while the informer stops."""
        if kind == "shared" and rng.random() < 0.5:
            for _ in range(rng.randrange(1, 4)):
                regs.append(asyncio.ensure_future(register_soon(rng.randrange(12))))
                mine.add(regs[-1])

    trigger.on_cancel = stopping_now
    # ---- until the moment of cancellation
    if how == "steps":
        for _ in range(rng.choice([1, 3, 10, 60, 300])):
            await asyncio.sleep(0)
            if rng.random() < 0.1:
                break
    elif how == "time":
        await asyncio.sleep(rng.random() * rng.choice([0.1, 3, 30, 400]))
    elif how == "backoff":
        end = loop.time() + 30
        while loop.time() < end:
            n = ctx.counts["failed_lists"] + ctx.counts["failed_watches"] + ctx.counts["broken_watches"] + ctx.counts["handler_failures"]
            if n >= trigger.left:
                break
            await asyncio.sleep(0.05)
        await asyncio.sleep(rng.random() * 0.9)
    elif how == "event":
        left = trigger.left
        end = loop.time() + 40
        n = len(ctx.log)
        while loop.time() < end:
            left -= sum(e[1] == "event" for e in ctx.log[n:])
            n = len(ctx.log)
            if left <= 0:
                break
            await asyncio.sleep(rng.choice([0, 0, 0.01]))
    else:
        waiter = asyncio.ensure_future(trigger.hit.wait())
        await asyncio.wait([waiter], timeout=40)
        waiter.cancel()
    await yields(rng, rng.choice([0, 0, 3]))
    ctx.count("at_" + how)
    ctx.count("cancelled_" + kind)
    open_before = len(srv.open_watches())
    ctx.nontrivial = bool(open_before or any(h.busy or h.blocked for h in handlers) or store and store.busy)
    if any(h.blocked for h in handlers):
        ctx.count("blocked_handlers")
    if any(h.mode == "raise" and h.raised for h in handlers) and kind == "shared":
        ctx.count("during_failure_pause")
    if not srv.open_watches() and (ctx.counts["failed_lists"] or ctx.counts["failed_watches"] or ctx.counts["broken_watches"]):
        ctx.count("during_backoff")
    if not (trigger.inside and trigger.hit.is_set()):
        S.still_running(ctx, run)
        trigger.hit.set()  # it is cancelled once
        run.cancel()
        stopping_now()
    t0 = loop.time()
    await asyncio.wait([run], timeout=1)
    ctx.check(run.done(), "cancelling does not make the run return promptly", kind=kind, how=how, handlers=[(h.mode, h.blocked) for h in handlers])
    ctx.check(run.cancelled(), "a cancelled run does not end with the cancellation", kind=kind, how=how, got=repr(None if run.cancelled() else run.exception()))
    ctx.rec("stopped", kind, how, loop.time() - t0)
    # ---- nothing may happen any more
    for reg in regs:
        await asyncio.wait([reg], timeout=10)
        ctx.check(reg.done(), "a registration hangs after the informer stopped")
        if not reg.cancelled() and reg.exception():
            raise reg.exception()
    for h in handlers:
        h.closed = True
    if store:
        store.closed = True
    calls = srv.calls
    ctx.check(not srv.open_watches(), "a watch is still open after the run returned", kind=kind, how=how, open=len(srv.open_watches()))
    if srv.watches:
        ctx.count("watches_closed")
    for _ in range(10):
        await asyncio.sleep(0)
    left = [t for t in asyncio.all_tasks() if t not in mine and t is not asyncio.current_task() and not t.done()]
    ctx.check(not left, "tasks are left running after the run returned", kind=kind, how=how, tasks=[repr(t)[:160] for t in left[:4]], handlers=[h.mode for h in handlers])
    if inf is not None and rng.random() < 0.5:
        h = handler()
        h.closed = True
        await asyncio.wait_for(inf.add_event_handler(h, **rng.choice([{}, {"resync_period": 5}])), 5)
        ctx.count("late_registrations")
    await asyncio.sleep(700)
    ctx.check(srv.calls == calls, "list or watch calls were made after the run returned", kind=kind, how=how)
    churn.cancel()


SCENARIOS = {"stopping": stopping}
PLAN = {"quick": {"stopping": 2500}, "thorough": {"stopping": 80000}}
