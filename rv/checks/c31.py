"""C31: a free lock is taken promptly, kept while healthy and handed over on failure."""
import asyncio
import json

from rv.election import KEY, Arena, holder
from rv.util import horizon, yields

PROPERTY = "C31"
RULE = (
    "One to four electors (any lease settings, release on cancel or not, leading tasks that run on, return, raise or end slowly) on a network with small delays "
    "and, in some cases, single failures that a leader can ride out. In some cases the API has trouble at first. The lock starts absent, bare, released or held by a holder that is gone; "
    "then several rounds end the current leader: cut off, cancelled, its lock taken by a stranger, or all of them at once. Monitors in virtual "
    "time: time until somebody leads, gaps between a leader's writes, no stop while healthy for ten leases, one stop callback and a finished "
    "leading task for every leader that ended, time to the successor after a release or failure, leader reports of every elector against the "
    "holders it read, and is_leader against the last record it read. Half run on the real config-map lock. Non-trivial: at least one handover."
)
REQUIRED_COUNTS = ("runs_again", "first_leaders", "first_after_ghost", "renewal_gaps", "kept_leads", "ridden_out_failures", "handovers_cut", "handovers_cancel", "handovers_release", "handovers_stolen", "stops_judged", "leaders_told", "told_judged", "is_leader_judged", "is_leader_true", "real_locks", "quiet_callbacks", "cancelled_before_leading", "stop_once_judged", "holders_back", "leaders_returned", "failed_at_first", "told_losers", "ends_judged")
ASSUMPTIONS = ["a few retry periods means three, each up to 2.2 times the setting because they are jittered", "a leader is healthy while every call is answered and at most one in three fails"]


@horizon(1e6)
async def handover(ctx):
    rng = ctx.rng
    loop = ctx.loop
    real = rng.random() < 0.5
    if real:
        ctx.count("real_locks")
    tell = rng.random() < 0.9
    if not tell:
        ctx.count("quiet_callbacks")
    a = Arena(ctx, real, faults=False, tell=tell)
    few = 3 * 2.2 * a.retry
    what = a.initial()
    n = rng.choice([1, 2, 2, 3, 4])
    for _ in range(n):
        a.elector().start()
        if rng.random() < 0.5:
            await (asyncio.sleep(rng.random() * a.retry) if rng.random() < 0.5 else yields(rng, 5))

    late = what == "ghost"

    def alive():
        return [e for e in a.electors if not e.run.done() and not e.stops and e.who not in a.net.cut and e.why is None]

    async def sampler():
        while True:
            await (asyncio.sleep(rng.random() * a.retry * 2) if rng.random() < 0.8 else yields(rng, 5))
            for e in a.electors:
                if not e.run.done():
                    e.judge_is_leader()

    if rng.random() < 0.4:
        # the API has trouble at first
        inner = a.net.call

        async def failing(who, apply):
            if rng.random() < 0.6:
                ctx.count("failed_at_first")
                await yields(rng, 3)
                raise rng.choice([ConnectionResetError, asyncio.TimeoutError, RuntimeError])()
            return await inner(who, apply)

        a.net.call = failing
        await asyncio.sleep(rng.random() * 4 * a.retry)
        del a.net.call
        late = late or any(e.starts for e in a.electors) or holder(a.store.raw()) is not None
        for e in a.electors:
            ctx.check(e.starts or not e.run.done(), "an elector gave up because the API had trouble", who=e.who)
        if a.leader():
            # it may have missed too many renewals
            await asyncio.sleep(a.renew + a.retry)
        while len(alive()) < n:
            a.elector().start()
    sampling = asyncio.ensure_future(sampler())

    async def somebody_leads(within, msg, since=None):
        end = (since if since is not None else loop.time()) + within
        while a.leader() is None or a.leader() not in alive():
            ctx.check(loop.time() <= end, msg, within=within, holder=holder(a.store.raw()))
            await asyncio.sleep(a.retry / 50)

    await somebody_leads((a.lease if late else 0) + few, "nobody becomes leader of a free lock")
    ctx.count("first_leaders")
    if what == "ghost":
        ctx.count("first_after_ghost")

    async def keep(leases, shaky):
        e = a.leader()
        t0 = loop.time()
        i0 = len(a.writes)
        stop = loop.time() + leases * a.lease
        if shaky and 4 * a.retry < a.renew:
            # single failures, never two calls in a row
            inner = a.net.call
            state = {}

            async def call(who, apply):
                if state.get(who, 3) >= 3 and rng.random() < 0.4:
                    state[who] = 0
                    ctx.count("ridden_out_failures")
                    await yields(rng, 3)
                    raise rng.choice([ConnectionResetError, asyncio.TimeoutError, RuntimeError])()
                state[who] = state.get(who, 3) + 1
                return await inner(who, apply)

            a.net.call = call
            if rng.random() < 0.3:
                a.store.edit(lambda cm: cm["metadata"].setdefault("labels", {}).update(x="y"))
            await asyncio.sleep(leases * a.lease)
            del a.net.call
        else:
            shaky = False
            await asyncio.sleep(leases * a.lease)
        ctx.count("kept_leads")
        ctx.check(a.leader() is e and not e.stops and not e.run.done(), "a healthy leader does not stay leader", who=e.who)
        own = [t0] + [t for t, w, h in a.writes[i0:] if w == e.who] + [loop.time()]
        for x, y in zip(own, own[1:]):
            ctx.count("renewal_gaps")
            ctx.check(y - x <= (1.5 if not shaky else 3.5) * a.retry, "a healthy leader does not keep renewing", gap=y - x, retry=a.retry)
        if tell and not shaky and leases * a.lease >= few:
            for o in alive():
                ctx.count("told_judged")
                ctx.check(o.told[-1:] == [e.id], "an elector was not told of the leader", who=o.who, told=o.told[-3:], leader=e.id)
                if o is not e:
                    ctx.check(not o.le.is_leader(), "an elector reports being leader while another leads", who=o.who)
        if not shaky:
            ctx.check(e.le.is_leader() or e.spy.busy, "a leader does not report being leader", who=e.who)

    async def ended(e, by, how):
        while loop.time() < by and not e.run.done():
            await asyncio.sleep(a.retry / 20)
        ctx.check(e.run.done(), "an elector that must stop leading does not end", who=e.who, how=how)
        e.judge_end()
        ctx.count("stop_once_judged")
        ctx.check(len(e.stops) == 1, "the stop callback of a leader was not called exactly once", how=how, calls=len(e.stops))
        ctx.check(e.task_state in ("cancelled", "done", None), "the leading task was not cancelled", how=how, state=e.task_state)
        if how == "stolen" and tell and e.seen_at.get("ghost", loop.time()) < e.stops[0] - 0.1 * a.retry:
            await yields(rng, 3)
            ctx.count("told_losers")
            ctx.check(e.told[-1:] == ["ghost"], "a leader that lost the lock was not told of the new leader it saw", told=e.told[-3:])
        if e.body in ("forever", "slow_end") and e.task_state is not None:
            ctx.check(e.task_state == "cancelled", "the leading task was not cancelled", how=how, state=e.task_state)

    def ghosts():
        g = json.dumps(a.ghost())
        for o in a.electors:
            o.seen_at.pop("ghost", None)
        a.store.edit(lambda cm: cm["metadata"]["annotations"].update({KEY: g}))

    async def comes_back(t0):
        """The stranger releases the lock, and takes it again just after somebody saw it free."""
        end = loop.time() + few
        while loop.time() < end and holder(a.store.raw()) == "ghost" and not all(o.observed[-1:] == ["ghost"] for o in alive()):
            await asyncio.sleep(a.retry / 20)
        if holder(a.store.raw()) != "ghost":
            return t0
        done = []

        def snatch():
            a.snatch = None
            if holder(a.store.raw()) is None:
                done.append(loop.time())
                ghosts()

        a.snatch = snatch
        free = json.dumps({"holderIdentity": "", "leaseDurationSeconds": 1, "leaderTransitions": 9})
        a.store.edit(lambda cm: cm["metadata"]["annotations"].update({KEY: free}))
        end = loop.time() + few
        while a.snatch and loop.time() < end:
            await asyncio.sleep(a.retry / 20)
        a.snatch = None
        if done:
            ctx.count("holders_back")
        return done[0] if done else loop.time()

    for _ in range(rng.randrange(1, 5)):
        await keep(rng.choice([0.1, 1, 3, 10]), rng.random() < 0.3)
        e = a.leader()
        how = rng.choice(["cut", "cancel", "cancel", "stolen"])
        if rng.random() < 0.3:
            o = rng.choice([o for o in alive()])
            if o is not e:
                # a candidate leaves before it ever led
                o.why = "left"
                o.cancel()
                ctx.count("cancelled_before_leading")
                await asyncio.wait([o.run], timeout=a.renew + 1)
                if o.run.done():
                    o.judge_end()
                ctx.check(o.run.done() and not o.starts and len(o.stops) <= 1, "an elector that never led does not just end when cancelled", stops=len(o.stops))
        while len(alive()) < 2:
            gone = [o for o in a.electors if o.run.done() and a.spies[o.who] is o]
            if gone and rng.random() < 0.5:
                o = rng.choice(gone)
                a.net.cut.discard(o.who)
                a.elector(again=o).start()
            else:
                a.elector().start()
            await asyncio.sleep(a.retry * rng.random() * 3)
        if rng.random() < 0.3:
            await yields(rng, 30)
        t0 = loop.time()
        ctx.rec("end", how, e.who)
        if how == "cut":
            a.net.cut.add(e.who)
            e.why = how
            await ended(e, t0 + 2 * a.renew + a.retry, how)
            await somebody_leads(a.lease + few, "nobody takes over from a leader that is gone", t0)
        elif how == "cancel":
            e.why = how
            e.cancel()
            await ended(e, t0 + 2 * a.retry, how)
            if e.release and e.task_state is not None:
                # a renewal caught halfway may have changed the lock under the release
                clean = holder(a.store.raw()) != e.id
                lingering = ctx.counts["lingering_calls"] > 0
                ctx.check(clean or lingering, "a cancelled leader did not give up its lock", who=e.who)
                if clean:
                    ctx.count("handovers_release")
                    await somebody_leads(2.2 * a.retry + 0.5 * a.retry, "nobody leads soon after the lock was released")
                else:
                    await somebody_leads(a.lease + few, "nobody takes over from a cancelled leader")
            else:
                ctx.check(e.release or holder(a.store.raw()) == e.id, "a lock was released although releasing was not asked for", who=e.who)
                await somebody_leads(a.lease + few, "nobody takes over from a cancelled leader")
        else:
            ghosts()
            e.why = how
            await ended(e, t0 + a.renew + a.retry, how)
            if rng.random() < 0.5:
                t0 = await comes_back(t0)
            await somebody_leads(a.lease + few, "nobody takes over from a holder that is gone", t0)
        ctx.count(f"handovers_{how}")
        ctx.nontrivial = True
    # all leave
    for e in alive():
        e.why = "end"
        led = e.leading
        e.cancel()
        if led:
            await ended(e, loop.time() + a.renew + a.retry, "end")
    sampling.cancel()


SCENARIOS = {"handover": handover}
PLAN = {"quick": {"handover": 1500}, "thorough": {"handover": 40000}}
