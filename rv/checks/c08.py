"""C08: a reflector recovers from every list or watch failure without a gap."""
import asyncio

from aiok8s.cache import reflector

from rv import lw as L
from rv.util import horizon

PROPERTY = "C08"
RULE = (
    "Scripted sequences of list failures, garbage lists, watch call failures, error events, streams that break at every position, clean "
    "closes with and without events, immediate closes, failing store replaces, and slow stores; an online automaton judges every next call (list or watch, from which version, with which time "
    "limit, with all earlier watches closed and all earlier events handed over) and a watchdog judges idle stretches in virtual "
    "time. Non-trivial: at least three recoveries of two different kinds."
)
REQUIRED_COUNTS = (
    "after_clean_close",
    "after_raise",
    "after_error_event",
    "after_watch_failed",
    "after_list_failed",
    "after_replace_failed",
    "after_empty_close",
    "after_enter_failed",
    "watch_versions_judged",
    "timeouts_judged",
    "bursts",
    "idle_samples",
)
ASSUMPTIONS = ["a few seconds means five", "after a clean close without any handled event both a watch and a list are accepted"]
LIMIT = 5.0


@horizon(1e5)
async def recover(ctx):
    rng = ctx.rng
    form = L.Form(rng.choice(["typed", "any", "core", "group"]))
    lw = L.ScriptedLW(
        ctx,
        form,
        rng.randrange(4, 16),
        slow=rng.choice([0.0, 0.5, 1.0]),
        p_foreign=rng.choice([0, 0.1]),
        p_list_fail=rng.choice([0, 0.3, 0.7]),
        p_watch_fail=rng.choice([0, 0.3]),
        p_empty=rng.choice([0.1, 0.5]),
        ends=rng.choice([["close"], ["raise"], ["close", "raise", "error", "hang_close", "enter"]]),
        p_exit_fail=rng.choice([0, 0, 0.2]),
        p_burst=rng.choice([0, 0, 0, 0.2]),
    )
    st = L.RecordingStore(ctx, p_fail=0, p_slow=rng.choice([0, 0.3, 0.8]), max_sleep=rng.choice([0.3, 3]))
    st.p_fail = rng.choice([0, 0, 0.2])
    period = rng.choice([0, 0, 7])
    r = reflector.Reflector(lw, form.expected, st, period)
    # ---- automaton
    s = {"last": "start", "list_rv": None, "handled": None, "optional": set(), "watch": None, "in_call": False}
    unmatched = []  # received store-worthy events not finished yet
    kinds = set()

    def next_call(kind, call):
        ctx.check(not lw.open_watches(), f"a {kind} was started while a watch is still open", open=len(lw.open_watches()))
        last = s["last"]
        ctx.check(not s["in_call"], f"a {kind} was started while another list or watch call is in progress")
        s["in_call"] = True
        ctx.count("after_" + last)
        kinds.add(last)
        if last in ("start", "raise", "error_event", "watch_failed", "list_failed", "replace_failed", "enter_failed"):
            ctx.check(kind == "list", f"a {kind} followed {last}, expected a full list", options=call["options"])
        elif last in ("replaced", "clean_close"):
            ctx.check(kind == "watch", f"a {kind} followed {last}, expected a watch", options=call["options"])
        else:
            ctx.check(last == "empty_close", f"a {kind} was started in state {last}")
        if kind == "watch":
            ctx.check(not unmatched and not st.active, "a watch was started before all earlier events were handed to the store", pending=len(unmatched))
            rv = call["options"].get("resource_version")
            ctx.count("watch_versions_judged")
            ctx.check(rv == s["handled"] or rv in s["optional"], "a watch does not start from the version of the last list or event handled", got=rv, want=s["handled"], also=sorted(map(str, s["optional"])))
            ts = call["options"].get("timeout_seconds")
            ctx.count("timeouts_judged")
            ctx.check(isinstance(ts, (int, float)) and 300 <= ts <= 600, "a watch does not ask for a bound of five to ten minutes", timeout=ts)

    def listen(kind, *a):
        if kind == "list_called":
            next_call("list", a[0])
        elif kind == "watch_called":
            next_call("watch", a[0])
        elif kind == "list_failed":
            s["last"] = "list_failed"
            s["in_call"] = False
        elif kind == "listed":
            s["last"] = "listed"
            s["in_call"] = False
            s["list_rv"] = a[2]
        elif kind == "watch_failed":
            s["last"] = "watch_failed"
            s["in_call"] = False
        elif kind == "watch_opened":
            s["last"] = "watching"
            s["in_call"] = False
            s["events"] = 0
            s["broken"] = False
        elif kind == "event":
            w, e = a
            if s["broken"]:
                return
            if e["type"] == "ERROR":
                s["last"] = "error_event"
                s["broken"] = True
                return
            op = L.store_op_for(form, e)
            if op:
                unmatched.append(e["object"])
                s["events"] += 1
                s["pending_rv"] = L.rv_of(e["object"])
                s["tail"] = set()
            elif e["type"] == "BOOKMARK" and L.rv_of(e["object"]):
                s["events"] += 1
                s["pending_rv"] = L.rv_of(e["object"])
                s["tail"] = set()
            else:
                s.setdefault("tail", set()).add(L.rv_of(e["object"]))
        elif kind == "ended":
            w = a[0]
            if s["broken"]:
                return
            if w.ended == "raise":
                s["last"] = "raise" if w.entered and w.end != "enter" else "enter_failed"
            else:
                s["last"] = "clean_close" if s["events"] else "empty_close"
        elif kind == "exit_failed":
            s["last"] = "raise"

    def on_start(op, arg, rv):
        ctx.rec("store", op, rv or L.rv_of(arg))

    def on_finish(op, arg, ok):
        if op == "replace":
            if ok:
                s["last"] = "replaced"
                s["handled"] = s["list_rv"]
                s["optional"] = set()
                s["pending_rv"] = s["list_rv"]
                s["tail"] = set()
            else:
                s["last"] = "replace_failed"
        elif op != "resync" and unmatched and unmatched[0] is arg:
            unmatched.pop(0)

    # the version the next watch must use: that of the last handled event; events are handled in order
    class Handled(dict):
        def __getitem__(self, k):
            if k == "handled":
                return dict.get(self, "pending_rv")
            if k == "optional":
                return dict.get(self, "tail", set())
            return dict.__getitem__(self, k)

    s = Handled(s)
    st.on_start, st.on_finish = on_start, on_finish
    lw.listeners.append(listen)
    t = asyncio.ensure_future(r.run())
    idle_since = None
    for _ in range(3000):
        await asyncio.sleep(0.25)
        if t.done():
            await t
        live = [w for w in lw.open_watches() if not w.ended and not s.get("broken")]
        busy = st.active or live or s["in_call"]
        ctx.count("idle_samples")
        if busy:
            idle_since = None
        elif idle_since is None or lw.calls[-1]["at"] > idle_since:
            idle_since = ctx.loop.time()
        elif ctx.loop.time() - idle_since > LIMIT:
            ctx.fail("no new attempt within a few seconds", last=s["last"], idle=ctx.loop.time() - idle_since)
        if lw.budget <= 0 and live and not live[0].steps and not st.active:
            break
        if not busy:
            continue
    else:
        ctx.fail("the reflector never settled on a healthy server", calls=len(lw.calls))
    await asyncio.sleep(20)
    ctx.check(len(lw.open_watches()) == 1, "not exactly one watch is open on a healthy server")
    t.cancel()
    await asyncio.gather(t, return_exceptions=True)
    ctx.check(not lw.open_watches(), "a watch was left open")
    ctx.nontrivial = len(kinds - {"start", "replaced", "listed"}) >= 2


SCENARIOS = {"recover": recover}
PLAN = {"quick": {"recover": 3000}, "thorough": {"recover": 60000}}
