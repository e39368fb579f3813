"""C36: a fake watcher hands every event over, one at a time and in order."""
import asyncio

from aiok8s.watch import watch

from rv.util import Obj, yields

PROPERTY = "C36"
RULE = (
    "rounds: 1-3 senders send events of every kind through a fake watcher, some giving up while they wait; one receiver iterates over it, fast, slow or pausing, with receives that "
    "time out or are cancelled at any loop iteration; between rounds the watcher is stopped and reset, at once or later. Received events are compared with the sent ones: each once, "
    "unaltered, in the order of the sends, a send returning neither before its event is being received nor much later. stops: the watcher is stopped at any instant of a "
    "round, by anyone, or left as a context; everything whose send had returned was received and the iteration ends. renewed: reset at once after a stop, and sent events "
    "before the old receiver has run, which must end all the same and get none of them. Mass: hundreds to thousands of events through one watcher. Non-trivial: a receive timed out, or the watcher was reset or stopped early."
)
REQUIRED_COUNTS = ("events", "received", "timed_out_receives", "cancelled_receives", "abandoned_sends", "resets", "ends", "blocked_ends", "early_stops", "contexts", "idle_receiver", "pending_sends", "unnoticed_stops", "rounds_judged", "given_up_rounds")
ASSUMPTIONS = [
    "one receiver at a time",
    "a send that is waiting or made when the watcher is stopped need not return, as it has no receiver",
    "resets come after a stop, without a send in progress",
]
KINDS = {"add": "ADDED", "modify": "MODIFIED", "delete": "DELETED", "error": "ERROR"}


class Run:
    def __init__(self, ctx, pace):
        self.ctx = ctx
        self.fw = watch.new_fake()
        self.pace = pace
        self.tick = 0
        self.sent = []  # in the order of the calls: [type, object, sender, called, returned, abandoned]
        self.got = []  # (event, start of the receive)
        self.receiving = None
        self.paused = False
        self.ends = 0
        self.interesting = False

    def now(self):
        self.tick += 1
        return self.tick

    async def send(self, who, n):
        ctx, rng = self.ctx, self.ctx.rng
        o = Obj(rng.choice([None, "ns"]), f"o{n}", rv=str(len(self.sent)))
        how = rng.choice([*KINDS, "action"])
        if how == "action":
            t = rng.choice([*KINDS.values(), "BOOKMARK", "OTHER"])
            aw = self.fw.action(t, o)
        else:
            t = KINDS[how]
            aw = getattr(self.fw, how)(o)
        e = [t, o, who, self.now(), None, False]
        self.sent.append(e)
        ctx.count("events")
        task = asyncio.ensure_future(aw)
        if rng.random() < 0.1:
            for _ in range(rng.randrange(1, 8)):
                await asyncio.sleep(0)
            if not task.done():
                ctx.count("abandoned_sends")
                task.cancel()
                e[5] = True
            await asyncio.gather(task, return_exceptions=True)
            if not e[5]:
                task.result()
                e[4] = self.now()
            return
        await task
        e[4] = self.now()
        for _ in range(6):
            if any(ev["object"] is o for ev, _ in self.got):
                break
            await asyncio.sleep(0)
        else:
            self.ctx.fail("a send returned although its event was not received", event=(t, o))

    async def receive(self):
        """One receive, given up or not."""
        ctx, rng = self.ctx, self.ctx.rng
        self.receiving = start = self.now()
        try:
            r = rng.random()
            if r < 0.2:
                ev = await asyncio.wait_for(self.fw.__anext__(), rng.choice([0.001, self.pace * 0.5 + 0.001, 0]))
            elif r < 0.4:
                t = asyncio.ensure_future(self.fw.__anext__())
                for _ in range(rng.randrange(0, 7)):
                    await asyncio.sleep(0)
                t.cancel()
                try:
                    ev = await t
                except asyncio.CancelledError:
                    ctx.count("cancelled_receives")
                    self.interesting = True
                    return
            else:
                ev = await self.fw.__anext__()
        except asyncio.TimeoutError:
            ctx.count("timed_out_receives")
            self.interesting = True
            return
        finally:
            self.receiving = None
        ctx.check(set(ev) == {"type", "object"}, "an event was altered", event=ev)
        self.got.append((ev, start))
        ctx.count("received")
        ctx.rec("got", ev["type"], ev["object"].metadata.name)

    async def iterate(self, slow):
        """Until the iteration ends."""
        rng = self.ctx.rng
        while True:
            r = rng.random()
            if r < slow:
                self.paused = True
                self.ctx.count("idle_receiver")
                await asyncio.sleep(self.pace * rng.random() * 2)
                self.paused = False
            else:
                await yields(rng, 2)
            try:
                if rng.random() < 0.3 and not slow:
                    async for ev in self.fw:
                        self.got.append((ev, None))
                        self.ctx.count("received")
                        if rng.random() < 0.3:
                            break
                    else:
                        raise StopAsyncIteration
                else:
                    await self.receive()
            except StopAsyncIteration:
                self.ends += 1
                self.ctx.count("ends")
                return

    def judge(self, complete):
        ctx = self.ctx
        by = {id(e[1]): e for e in self.sent}
        seen = set()
        last = {}
        order = []
        for ev, start in self.got:
            e = by.get(id(ev["object"]))
            ctx.check(e is not None, "an event was received that nobody sent", event=ev)
            ctx.check(ev["type"] == e[0], "an event was received with another type", event=ev, sent=e[:3])
            ctx.check(id(e) not in seen, "an event was received twice", event=e[:3])
            seen.add(id(e))
            ctx.check(last.get(e[2], -1) < e[3], "the events of one sender were received out of order", event=e[:3])
            last[e[2]] = e[3]
            order.append(e)
            if e[4] is not None and start is not None:
                ctx.check(e[4] > start, "a send returned before anybody received its event", event=e[:3])
        for a, b in zip(order, order[1:]):
            ctx.check(b[4] is None or b[4] > a[3], "an event was received after one that was sent later", events=(a[:3], b[:3]))
        for e in self.sent:
            if e[4] is not None or complete and not e[5]:
                ctx.check(id(e) in seen, "an event was lost", event=e[:3], sent=len(self.sent), received=len(self.got))


def _run(ctx):
    return Run(ctx, ctx.rng.choice([0, 0.01, 1]))


async def _sends(run, who, n):
    rng = run.ctx.rng
    for i in range(n):
        if rng.random() < 0.3:
            await asyncio.sleep(run.pace * rng.random())
        else:
            await yields(rng, 2)
        await run.send(who, i)


async def rounds(ctx):
    rng = ctx.rng
    run = _run(ctx)
    slow = rng.choice([0, 0.2, 0.9])
    over = False
    go = asyncio.Event()
    go.set()

    async def receiver():
        while not over:
            await run.iterate(slow)
            await go.wait()

    rc = asyncio.ensure_future(receiver())
    n_rounds = rng.randrange(1, 5)
    for r in range(n_rounds):
        ps = [asyncio.ensure_future(_sends(run, p, rng.randrange(0, 8))) for p in range(rng.randrange(1, 4))]
        await asyncio.wait(ps, timeout=500)
        if rc.done():
            rc.result()
        ctx.check(all(p.done() for p in ps), "a send never returns although somebody keeps receiving", round=r, sent=len(run.sent), received=len(run.got))
        for p in ps:
            p.result()
        ctx.check(not run.fw.is_stopped(), "a fake watcher is stopped before anybody stopped it")
        # an abandoned send may still be waiting for its receiver
        await asyncio.sleep(run.pace * 5 + 0.1)
        ctx.check(run.ends <= r, "the iteration ended before the watcher was stopped")
        over = r == n_rounds - 1
        if rng.random() < 0.5:
            await yields(rng, 10)
        go.clear()
        await run.fw.stop()
        ctx.check(run.fw.is_stopped(), "a stopped fake watcher says it is not")
        if over:
            go.set()
            break
        if rng.random() < 0.5:
            await (yields(rng, 3) if rng.random() < 0.5 else asyncio.sleep(run.pace * 5 + 0.1))
        t = asyncio.ensure_future(run.fw.reset())
        await asyncio.wait([t], timeout=50)
        ctx.check(t.done(), "resetting a stopped fake watcher never returns")
        t.result()
        ctx.check(not run.fw.is_stopped(), "a fake watcher that was reset says it is stopped")
        ctx.count("resets")
        run.interesting = True
        go.set()
    await asyncio.wait([rc], timeout=200)
    ctx.check(rc.done(), "the iteration over a stopped fake watcher does not end")
    rc.result()
    run.judge(True)
    ctx.nontrivial = run.interesting and len(run.got) > 0


async def stops(ctx):
    """Stopped at any instant, while the receiver waits or works."""
    rng = ctx.rng
    run = _run(ctx)
    rc = asyncio.ensure_future(run.iterate(rng.choice([0, 0.2, 0.9])))
    ps = [asyncio.ensure_future(_sends(run, p, rng.randrange(0, 8))) for p in range(rng.randrange(1, 4))]
    if rng.random() < 0.3:
        await asyncio.wait(ps, timeout=500)
        await asyncio.sleep(run.pace * 5 + 0.1)
    elif rng.random() < 0.6:
        await asyncio.sleep(run.pace * rng.random() * 5)
    else:
        await yields(rng, 60)
    if not all(p.done() for p in ps):
        ctx.count("early_stops")
        run.interesting = True
    if run.receiving is not None:
        ctx.count("blocked_ends")
    if rc.done():
        rc.result()
    ctx.check(not rc.done(), "the iteration ended before the watcher was stopped")
    if rng.random() < 0.3:
        ctx.count("contexts")
        async with run.fw as same:
            ctx.check(same is run.fw, "entering a fake watcher yields something else")
        if rng.random() < 0.5:
            await run.fw.stop()
    else:
        t = asyncio.ensure_future(run.fw.stop())
        await asyncio.wait([t], timeout=50)
        ctx.check(t.done(), "stopping a fake watcher blocks")
        t.result()
    ctx.check(run.fw.is_stopped(), "a stopped fake watcher says it is not")
    await asyncio.wait([rc], timeout=200)
    ctx.check(rc.done(), "the iteration over a stopped fake watcher does not end")
    rc.result()
    for p in ps:
        if p.done():
            p.result()
        else:
            ctx.count("pending_sends")
            p.cancel()
    await asyncio.gather(*ps, return_exceptions=True)
    run.judge(False)
    # and it has ended for good
    again = asyncio.ensure_future(run.iterate(0))
    await asyncio.wait([again], timeout=200)
    ctx.check(again.done(), "iterating anew over a stopped fake watcher does not end")
    again.result()
    ctx.nontrivial = run.interesting


async def renewed(ctx):
    """Stopped and reset, perhaps before the waiting receiver has run: it ends, and gets nothing of the next round."""
    rng = ctx.rng
    w = watch.new_fake()

    async def iterate():
        got = []
        async for e in w:
            got.append(e["object"])
        return got

    n = 0
    earlier = []
    for r in range(rng.randrange(2, 6)):
        if rng.random() < 0.4:
            # an event whose sender and receiver both give up dies with its round
            ctx.count("given_up_rounds")
            receive = asyncio.ensure_future(w.__anext__())
            await yields(rng, 4)
            send = asyncio.ensure_future(w.add(-1))
            for _ in range(rng.randrange(0, 5)):
                await asyncio.sleep(0)
            both = [receive, send]
            rng.shuffle(both)
            for x in both:
                x.cancel()
                if rng.random() < 0.3:
                    await asyncio.sleep(0)
            await asyncio.wait(both, timeout=5)
            ctx.check(receive.done() and send.done(), "a call that was cancelled does not end")
            await w.stop()
            await yields(rng, 3)
            await w.reset()
        t = asyncio.ensure_future(iterate())
        mine = list(range(n, n + rng.randrange(0, 4)))
        n += len(mine) + 1
        if rng.random() < 0.5:
            await yields(rng, 8)
        sends = [asyncio.ensure_future(w.add(i)) for i in mine]
        if sends:
            await asyncio.wait(sends, timeout=5)
        ctx.check(all(s.done() for s in sends), "a send never returns although a receiver waits", round=r)
        for _ in range(10):
            await asyncio.sleep(0)
        ctx.check(not t.done(), "the iteration ended before the watcher was stopped", round=r)
        ctx.check(all(e.done() for e, _ in earlier), "a receiver does not notice that its watcher was stopped, as it was reset at once", round=r)
        earlier.append((t, mine))
        await w.stop()
        if rng.random() < 0.4:
            await yields(rng, 6)
        await w.reset()
        ctx.check(not w.is_stopped(), "a fake watcher that was reset says it is stopped")
        if not t.done():
            ctx.count("unnoticed_stops")
            ctx.nontrivial = True
        if rng.random() < 0.5:
            # somebody sends at once, before there is a new receiver
            early = n
            n += 1
            s = asyncio.ensure_future(w.add(early))
            await asyncio.sleep(rng.choice([0, 0.1]))
            if not t.done():
                await asyncio.sleep(0.1)
            ctx.check(t.done(), "a receiver does not notice that its watcher was stopped, as it was reset at once", round=r)
            ctx.check(not s.done(), "a send returned before anybody received its event", round=r)
            e = await asyncio.wait_for(w.__anext__(), 5)
            ctx.check(e["object"] == early, "the wrong event was received", got=e, want=early)
            await asyncio.wait([s], timeout=5)
            ctx.check(s.done(), "a send never returns although its event was received", round=r)
    await asyncio.sleep(0.1)
    for t, mine in earlier:
        ctx.check(t.done(), "the iteration over a stopped fake watcher does not end")
        ctx.check(t.result() == mine, "a receiver got other events than those sent before its watcher was stopped", got=t.result(), want=mine)
        ctx.count("rounds_judged")
    ctx.rec(n)


async def mass(ctx):
    """A crowd of senders waits for one receiver."""
    rng = ctx.rng
    run = _run(ctx)
    n = rng.choice([150, 600, 1300])
    ps = [asyncio.ensure_future(run.fw.add(i)) for i in range(n)]
    await asyncio.sleep(1)
    ctx.check(not any(p.done() for p in ps), "a send returns before its event is being received")
    got = []

    async def receive():
        async for e in run.fw:
            got.append(e["object"])
            ctx.count("received")

    rc = asyncio.ensure_future(receive())
    await asyncio.wait(ps, timeout=100)
    ctx.check(all(p.done() for p in ps), "a send never returns although somebody keeps receiving", left=sum(not p.done() for p in ps))
    ctx.check(got == list(range(n)), "of a crowd's events some are lost, repeated or out of order", got=len(got), want=n)
    await run.fw.stop()
    await asyncio.wait([rc], timeout=100)
    ctx.check(rc.done(), "the iteration over a stopped fake watcher does not end")
    rc.result()
    ctx.rec("mass", n)
    ctx.nontrivial = True


SCENARIOS = {"mass": mass, "rounds": rounds, "stops": stops, "renewed": renewed}
PLAN = {"quick": {"mass": 6, "rounds": 3000, "stops": 3000, "renewed": 1000}, "thorough": {"mass": 100, "rounds": 60000, "stops": 60000, "renewed": 20000}}
