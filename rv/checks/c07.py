"""C07: a reflector mirrors the list and watch streams into its store faithfully."""
import asyncio

from aiok8s.cache import list_watch, reflector

from rv import lw as L
from rv.util import horizon

PROPERTY = "C07"
RULE = (
    "A reflector for typed objects, any objects, or dictionaries of a core-group or other-group kind runs against a scripted lister-watcher (lists "
    "and watches that fail, stall, end, break, carry foreign objects, missing metadata, bookmarks, unknown types) and a recording "
    "store that suspends and fails at random; each store call is matched online with the stream of lists and events handed "
    "out, and the reported version is sampled at every call and by a poller. Non-trivial: at least 3 events were applied and one ignorable event was seen."
)
REQUIRED_COUNTS = ("store_ops_matched", "replaces_matched", "ignorable_events", "store_failures", "version_samples", "plain_function_stores", "form_typed", "form_any", "form_core", "form_group", "watches_broken")
ASSUMPTIONS = ["events received before a stream breaks count as received"]


@horizon(1e5)
async def mirror(ctx):
    rng = ctx.rng
    form = L.Form(rng.choice(["typed", "any", "core", "group"]))
    ctx.count("form_" + form.name)
    lw = L.ScriptedLW(ctx, form, rng.randrange(3, 14), slow=rng.choice([0.0, 0.5, 1.0]), p_foreign=rng.choice([0, 0.2, 0.5]))
    st = L.RecordingStore(ctx, p_fail=rng.choice([0, 0, 0.2]), p_slow=rng.choice([0, 0.3, 0.8]))
    sink, source = st, lw
    if rng.random() < 0.15:
        ctx.count("plain_function_stores")
        sink = st.custom()
    if rng.random() < 0.3:
        source = list_watch.ListWatch(lw.list, lw.watch)
    r = reflector.Reflector(source, form.expected, sink, 0)
    pos = 0  # everything received before this position has been matched
    version = {"allowed": {""}, "at": None, "prev": set(), "busy": False}
    seen = {"ops": 0, "ignored": 0}
    error_at = {}

    def skip():
        """Move over received things that call for no store operation."""
        nonlocal pos
        skipped = set()
        while pos < len(lw.received):
            what = lw.received[pos]
            if what[0] == "list":
                break
            e, w = what[1], what[2]
            if e["type"] != "ERROR" and w not in error_at and L.store_op_for(form, e):
                break
            if e["type"] == "ERROR":
                error_at[w] = True
            ctx.count("ignorable_events")
            seen["ignored"] += 1
            if L.rv_of(e["object"]) is not None:
                skipped.add(L.rv_of(e["object"]))
            pos += 1
        version["allowed"] = version["allowed"] | skipped

    def sample(where):
        got = r.last_sync_resource_version()
        ctx.count("version_samples")
        allowed = set(version["allowed"])
        if version["at"] == ctx.loop.time():
            allowed |= version["prev"]
        # ignorable events received but not passed yet may have been handled already
        for what in lw.received[pos:]:
            if what[0] == "list" or L.store_op_for(form, what[1]) and what[2] not in error_at:
                break
            allowed.add(L.rv_of(what[1]["object"]))
        ctx.check(got in allowed, f"the last synced version is not that of the last list or event handed to the store ({where})", got=got, allowed=sorted(map(str, allowed)))

    def on_start(op, arg, rv):
        nonlocal pos
        ctx.rec("store", op, rv or L.rv_of(arg))
        ctx.check(st.active == 1, "two store operations of one reflector overlap")
        sample("store operation started")
        skip()
        ctx.check(pos < len(lw.received), f"the store got a {op} for which nothing was received", arg=arg)
        what = lw.received[pos]
        if what[0] == "list":
            ctx.check(op == "replace", f"a list led to {op}")
            ctx.check(sorted(map(id, arg)) == sorted(map(id, what[1])), "replace does not carry the listed objects", got=arg, want=what[1])
            ctx.check(rv == what[2], "replace does not carry the list's version", got=rv, want=what[2])
            ctx.count("replaces_matched")
        else:
            want = L.store_op_for(form, what[1])
            ctx.check(op == want and arg is what[1]["object"], "a store operation does not match the next received event", got=(op, L.rv_of(arg) if op != "replace" else rv), want=(want, L.rv_of(what[1]["object"])))
            ctx.count("store_ops_matched")
            seen["ops"] += 1

    def on_finish(op, arg, ok):
        nonlocal pos
        if pos >= len(lw.received):
            return
        what = lw.received[pos]
        rv = what[2] if what[0] == "list" else L.rv_of(what[1]["object"])
        pos += 1
        if op == "replace" and not ok:
            return  # the list was not taken: the next attempt lists again
        version["prev"] = version["allowed"]
        version["allowed"] = {rv}
        version["at"] = ctx.loop.time()

    st.on_start, st.on_finish = on_start, on_finish
    def listen(kind, *a):
        if kind == "ended" and a[0].ended == "raise":
            ctx.count("watches_broken")

    lw.listeners.append(listen)
    t = asyncio.ensure_future(r.run())
    for _ in range(2000):
        await asyncio.sleep(rng.choice([0, 0, 0.1, 1]))
        sample("polled")
        if t.done():
            await t
        if lw.budget <= 0 and lw.open_watches() and not lw.open_watches()[0].steps and not st.active:
            break
    await asyncio.sleep(30)
    skip()
    ctx.check(lw.budget <= 0 and lw.open_watches(), "the reflector stopped making attempts", calls=len(lw.calls))
    # everything received was handed over
    ctx.check(pos == len(lw.received), "a received list or event was never handed to the store", next=lw.received[pos] if pos < len(lw.received) else None)
    sample("at rest")
    t.cancel()
    await asyncio.gather(t, return_exceptions=True)
    ctx.nontrivial = seen["ops"] >= 3 and seen["ignored"] >= 1


SCENARIOS = {"mirror": mirror}
PLAN = {"quick": {"mirror": 6000}, "thorough": {"mirror": 60000}}
