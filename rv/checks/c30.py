"""C30: at most one elector leads at any time."""
import asyncio

from aiok8s.leaderelection import leaderelection

from rv.election import Arena, FakeLock
from rv.util import horizon, sync, yields

PROPERTY = "C30"
RULE = (
    "One to five electors (lease settings from defaults to the tightest the constructor allows; lock initially absent, bare, released or held by a holder that "
    "is gone) compete through a network that delays, loses, hangs and late-applies requests, loses replies, partitions single electors for "
    "any time and lets cancelled requests linger; electors are cancelled, restarted under the same identity or run again, and bystanders edit the config map. Half run on a "
    "lock on the fake store, half on the real config-map lock and client over fake HTTP. Online monitors: the set of leading electors "
    "at every start; every applied write against what its writer last read (same record), and for another's lock against how long it had "
    "seen that record unrenewed; at every stop the time since the last applied write (shorter than the lease) and since the last successful renewal request (within the deadline); the leading task must not run on while a slow stop callback does. "
    "Electors are also made with random good and bad settings. Non-trivial: leadership changed hands at least once with a fault in between."
)
REQUIRED_COUNTS = ("leaderships", "takeovers", "writes_judged", "stops_judged", "deadline_stops", "partitions", "cancelled_leaders", "lost_replies", "hung_calls", "lingering_calls", "releases", "restarts", "bystander_edits", "real_locks", "conflicting_electors", "settings_refused", "settings_accepted", "slow_stop_callbacks", "ends_judged", "runs_again")
ASSUMPTIONS = ["clocks are synchronized, and callbacks and timers run without delay; nobody but electors writes the lock record", "leading lasts from the start callback being called until the stop callback is called"]


@horizon(1e6)
async def compete(ctx):
    rng = ctx.rng
    loop = ctx.loop
    real = rng.random() < 0.4
    a = Arena(ctx, real, slow_stops=True)
    if real:
        ctx.count("real_locks")
    a.net.p.update(slow=rng.choice([0.1, 0.5, 0.9]), lost=rng.choice([0, 0.1, 0.4]), reply_lost=rng.choice([0, 0.1, 0.4]), hang=rng.random(), linger=rng.random())
    a.net.longest = rng.choice([0.1, 1, 1, 3])
    a.initial()
    n = rng.choice([1, 2, 2, 3, 3, 5])
    live = []

    async def begin(identity=None, again=None):
        e = a.elector(identity, again).start()
        live.append(e)
        if rng.random() < 0.5:
            await (asyncio.sleep(rng.random() * a.retry) if rng.random() < 0.5 else yields(rng, 5))

    for _ in range(n):
        await begin()
    if n > 1:
        ctx.count("conflicting_electors")
    for _ in range(rng.randrange(10, 60)):
        x = rng.random()
        if x < 0.15:
            # cut somebody off, the leader most of all
            e = a.leader() if rng.random() < 0.7 else rng.choice(live)
            if e:
                ctx.count("partitions")
                a.net.cut.add(e.who)
                if rng.random() < 0.5:
                    loop.call_later(rng.random() * rng.choice([1, 2]) * a.lease, a.net.cut.discard, e.who)
        elif x < 0.25:
            a.net.heal()
        elif x < 0.33:
            e = a.leader() if rng.random() < 0.5 else rng.choice(live)
            if e and not e.run.done():
                if e.leading:
                    ctx.count("cancelled_leaders")
                e.why = "cancel"
                e.cancel()
                if rng.random() < 0.3:
                    await yields(rng, 6)
                    e.cancel()  # an impatient owner
        elif x < 0.4:
            for e in list(live):
                if e.run.done():
                    live.remove(e)
                    ctx.count("restarts")
                    await (begin(again=e) if rng.random() < 0.5 else begin(rng.choice([e.id, None])))
            while len(live) < n:
                await begin()
        elif x < 0.43:
            ctx.count("bystander_edits")
            a.store.edit(lambda cm: cm.setdefault("data", {}).update(x=str(rng.random())))
        elif x < 0.48:
            # renew exactly when others look
            await asyncio.sleep(a.lease)
        else:
            await (asyncio.sleep(rng.random() * rng.choice([0.2, 1, 1, 2]) * a.lease) if rng.random() < 0.8 else yields(rng, 20))
        for e in live:
            if not e.run.done():
                e.judge_is_leader()
    a.net.quiet()
    await asyncio.sleep(2 * a.lease)
    for e in a.electors:
        if e.starts and e.stops and e.why != "cancel":
            ctx.count("deadline_stops")
        if not e.run.done():
            e.cancel()
    await asyncio.wait([e.run for e in a.electors], timeout=a.renew + 3 * a.lease)
    for e in a.electors:
        ctx.check(e.run.done(), "a cancelled elector does not end", who=e.who)
        e.judge_end()
        ctx.check(not e.leading, "an elector ended without stopping to lead", who=e.who)
    ctx.nontrivial = len({e.who for e in a.leaders}) > 1 and (ctx.counts["lost_calls"] + ctx.counts["partitions"] > 0)


@sync
def settings(ctx):
    """An elector can be made exactly with settings that leave room to stop in time."""
    rng = ctx.rng
    a = Arena(ctx, times=(15, 10, 2))

    async def nothing(*x):
        pass

    for _ in range(40):
        base = rng.choice([0.01, 1, 15, 3600])
        retry = base * rng.choice([rng.uniform(0.01, 1), rng.uniform(0.01, 1), 1, 0, -1])
        renew = retry * rng.choice([1, 1.1, 1.19, 1.25, 2, 5, -1, 0]) if rng.random() < 0.6 else base * rng.uniform(-0.5, 2)
        lease = renew * rng.choice([1, 0.99, 1.001, 1.5, 3]) if rng.random() < 0.6 else base * rng.uniform(-0.5, 2)
        parts = {"lock": FakeLock(a.store, a.net, "x", "x"), "start": nothing, "stop": nothing}
        if rng.random() < 0.15:
            parts[rng.choice(list(parts))] = None
        good = 0 < lease and 0 < renew < lease and 0 < retry and all(parts.values())
        if abs(renew - 1.2 * retry) < 1e-9 * abs(renew):
            continue
        good = good and renew > 1.2 * retry
        try:
            leaderelection.LeaderElector(
                leaderelection.LeaderElectionConfig(
                    lock=parts["lock"], callbacks=leaderelection.LeaderCallbacks(parts["start"], parts["stop"], rng.choice([None, nothing])), name="x",
                    lease_duration=lease, renew_deadline=renew, retry_period=retry, release_on_cancel=rng.random() < 0.5,
                )
            )
        except Exception:
            ctx.count("settings_refused")
            ctx.check(not good, "good settings were refused", lease=lease, renew=renew, retry=retry)
        else:
            ctx.count("settings_accepted")
            ctx.check(good, "settings were accepted that cannot keep two electors from leading", lease=lease, renew=renew, retry=retry, parts=[k for k, v in parts.items() if not v])
        ctx.rec("settings", good, lease, renew, retry)
    ctx.nontrivial = True


SCENARIOS = {"compete": compete, "settings": settings}
PLAN = {"quick": {"compete": 1500, "settings": 100}, "thorough": {"compete": 60000, "settings": 2000}}
