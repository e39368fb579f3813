"""C09: a reflector resyncs its store once per period while it is connected."""
import asyncio

from aiok8s.cache import reflector

from rv import lw as L
from rv.util import horizon

PROPERTY = "C09"
RULE = (
    "A reflector with a random period, question (none, always, scripted answers) and store (slow and failing resyncs) runs for dozens of "
    "periods in virtual time over a lister-watcher whose watches keep ending cleanly, breaking or staying open; the times of questions and "
    "resyncs are judged against the connection's intervals, and event latency is judged during slow resyncs. Non-trivial: at least "
    "four questions in one connection spanning a watch reconnection, or a failed resync."
)
REQUIRED_COUNTS = ("asks", "resyncs", "declined", "asks_across_reconnect", "failed_resyncs", "slow_resyncs", "no_period_cases", "events_during_resync", "period_gaps_judged")
ASSUMPTIONS = ["a question may be measured from the previous question or from the end of the previous resync", "tolerance 0.05 s of virtual time"]
EPS = 0.05


@horizon(1e6)
async def resync(ctx):
    rng = ctx.rng
    form = L.Form("typed")
    period = rng.choice([0, 0.7, 3, 10, 30])
    now = ctx.loop.time
    lw = L.ScriptedLW(
        ctx,
        form,
        10**6,
        slow=rng.choice([0.0, 0.3]),
        p_foreign=0,
        p_list_fail=rng.choice([0, 0.1]),
        p_watch_fail=rng.choice([0, 0, 0.1]),
        p_empty=0.0,
        max_events=rng.choice([2, 8, 20]),
        ends=rng.choice([["close"], ["hang_close"], ["close", "hang_close", "hang_close"], ["close"] * 6 + ["raise"], ["hang"]]),
    )
    st = L.RecordingStore(ctx, p_fail=0, p_slow=rng.choice([0, 0.2]), max_sleep=0.3, resync_fail=rng.choice([0, 0, 0.15, 0.4]), resync_slow=rng.choice([0, 0.4]))
    r = reflector.Reflector(lw, form.expected, st, period)
    ask_mode = rng.choice(["none", "always", "script", "script"])
    conn = None  # the current connection: since, last ask, last resync end, expecting
    owed = None  # a yes that has not led to a resync yet
    failed_at = None
    running = 0
    resync_started = None
    recv = []
    last_finish = [0.0]
    best = 0

    def ask_seen():
        nonlocal best
        t = now()
        ctx.count("asks")
        ctx.rec("ask")
        ctx.check(period > 0, "a reflector without a period resyncs")
        ctx.check(conn is not None and conn["up"] is not None, "a resync was considered before the store was filled")
        ctx.check(running == 0, "a resync was considered while one is in progress")
        due = conn["base"] + period
        ctx.count("period_gaps_judged")
        ctx.check(t >= due - EPS, "a resync was considered before its period had passed", gap=t - conn["base"], period=period)
        ctx.check(t <= max(due, conn["free"] + period) + EPS, "a resync was considered later than its period", late=t - max(due, conn["free"] + period), period=period)
        conn["base"] = conn["free"] = t
        conn["asks"] += 1
        if conn["watches"] > 1:
            ctx.count("asks_across_reconnect")
            best = max(best, conn["asks"])

    def should():
        nonlocal owed
        ask_seen()
        a = True if ask_mode == "always" else rng.random() < 0.6
        if a:
            owed = now()
        else:
            ctx.count("declined")
        return a

    if ask_mode != "none":
        r.should_resync = should

    def listen(kind, *a):
        nonlocal conn, failed_at
        if kind == "list_called":
            if conn is not None and conn["up"] is not None:
                overdue_check("reconnected")
            conn = None
            failed_at = None
        elif kind == "listed":
            conn = {"up": None, "watches": 0, "asks": 0}
        elif kind == "watch_called" and conn:
            conn["watches"] += 1
            ctx.check(failed_at is None, "after a failed resync the reflector went on watching instead of listing")
        elif kind == "event" and L.store_op_for(form, a[1]):
            recv.append((a[1]["object"], now()))

    def overdue_check(where):
        """The current connection has lasted until now: was a question due?"""
        if period and conn and conn["up"] is not None and running == 0 and failed_at is None:
            due = max(conn["base"], conn["free"]) + period
            # the reflector pauses a second before it lists again: judged only up to the end of the watch
            until = now() if where == "polled" else min(now(), last_broken[0] if last_broken[0] is not None else now())
            ctx.check(until <= due + EPS, "a resync question was missed while connected", overdue=until - due, period=period)

    last_broken = [None]

    def listen2(kind, *a):
        if kind in ("ended", "closed", "watch_failed"):
            last_broken[0] = now()
        elif kind == "watch_opened":
            last_broken[0] = None

    lw.listeners += [listen2, listen]

    def on_start(op, arg, rv):
        nonlocal owed, running, resync_started
        if op == "resync":
            ctx.rec("resync")
            ctx.count("resyncs")
            ctx.check(period > 0, "a reflector without a period resyncs")
            if ask_mode == "none":
                ask_seen()
            else:
                ctx.check(owed is not None, "the store was resynced without a positive answer")
                ctx.check(now() - owed <= EPS, "a resync started late after the positive answer", late=now() - owed)
                owed = None
            running += 1
            resync_started = now()
        elif op != "replace":
            o, t = recv.pop(0)
            if running and t > resync_started:
                ctx.count("events_during_resync")
            ctx.check(o is arg, "events are handed over out of order")
            ctx.check(now() - max(t, last_finish[0]) <= EPS, "a watch event waited although the store was free", waited=now() - max(t, last_finish[0]), resyncing=running)

    def on_finish(op, arg, ok):
        nonlocal running, failed_at
        if op == "resync":
            running -= 1
            if now() - resync_started > 0.5:
                ctx.count("slow_resyncs")
            if conn is not None and conn["up"] is not None:
                conn["free"] = now()
            if not ok and not t.cancelled() and not stopping and conn is not None:
                failed_at = now()
                if resync_fail_real[0]:
                    ctx.count("failed_resyncs")
        else:
            last_finish[0] = now()
            if op == "replace" and ok and conn is not None:
                conn.update(up=now(), base=now(), free=now())
                recv.clear()

    resync_fail_real = [True]
    st.on_start, st.on_finish = on_start, on_finish
    stopping = False
    t = asyncio.ensure_future(r.run())
    horizon_ = min(400, max(60, period * rng.randrange(5, 25)))
    while now() < horizon_:
        await asyncio.sleep(0.21)
        if t.done():
            await t
        if conn is not None and conn["up"] is not None and lw.open_watches() and not lw.open_watches()[0].ended:
            overdue_check("polled")
        if owed is not None:
            ctx.check(now() - owed <= 0.3, "a positive answer was not followed by a resync")
        if failed_at is not None:
            ctx.check(now() - failed_at <= 5, "a failed resync did not lead to a fresh list")
    stopping = True
    failed_at = None
    t.cancel()
    await asyncio.gather(t, return_exceptions=True)
    if not period:
        ctx.count("no_period_cases")
    ctx.nontrivial = best >= 4 or ctx.counts["failed_resyncs"] > 0


SCENARIOS = {"resync": resync}
PLAN = {"quick": {"resync": 1000}, "thorough": {"resync": 40000}}
