"""C24: the fake controller source serves consistent lists and gap-free watches."""
import asyncio
import copy

from kubernetes_asyncio.client import V1ObjectMeta, V1Pod

from aiok8s.api import meta
from aiok8s.cache.testing.fake_controller_source import FakeControllerSource

from rv.util import yields

PROPERTY = "C24"
RULE = (
    "1-4 writers making changes of every kind (some without notifying watchers, deletions of absent objects in cases of their own), listers that edit "
    "what they are given, watchers from every kind of version (past, current, future) that are slow, stop or run to the shutdown; "
    "versions give the order of changes, and every list and watch is judged against the state and changes that order defines. "
    "Mass: a tracker of hundreds to thousands of objects, listed and watched. Non-trivial: a watch replayed past changes and saw future ones."
)
REQUIRED_COUNTS = ("changes", "silent_changes", "lists", "watches", "replayed", "live_events", "future_watches", "edits", "complete_watches", "absent_deletes", "typed", "dicts", "sequential_checks")
ASSUMPTIONS = [
    "every change is made with an object of its own",
    "deleting an object that does not exist either fails without effect or counts as a change like any other",
    "objects delivered live are shared with the source, as upstream",
]


def _make(rng, typed, ns, name, uid, payload):
    if typed:
        return V1Pod(api_version="v1", kind="Pod", metadata=V1ObjectMeta(namespace=ns, name=name, uid=uid, labels={"p": payload}))
    return {"apiVersion": "v1", "kind": "Pod", "metadata": {"namespace": ns, "name": name, "uid": uid, "labels": {"p": payload}}}


def _ident(obj):
    a = meta.accessor(obj)
    labels = obj["metadata"]["labels"] if isinstance(obj, dict) else obj.metadata.labels
    return (a.namespace, a.name, a.uid), labels["p"], a.resource_version


def _edit(ctx, obj):
    ctx.count("edits")
    if isinstance(obj, dict):
        obj["metadata"]["labels"]["p"] = "edited"
        obj["metadata"]["resourceVersion"] = "777777"
        obj["metadata"]["name"] = "edited"
    else:
        obj.metadata.labels["p"] = "edited"
        obj.metadata.resource_version = "777777"
        obj.metadata.name = "edited"


class Run:
    def __init__(self, ctx):
        self.ctx = ctx
        self.src = FakeControllerSource()
        self.changes = {}  # version -> dict(type, key, payload, silent, call, ret)
        self.pending = []  # change calls in flight or finished
        self.lists = []
        self.watches = []
        self.tick = 0
        self.payload = 0
        self.live = set()
        self.busy = set()  # keys being changed

    def now(self):
        self.tick += 1
        return self.tick

    async def change(self, rng):
        ctx = self.ctx
        typed = rng.random() < 0.5
        ctx.count("typed" if typed else "dicts")
        ns = rng.choice(["a", "b", None])
        name = rng.choice("xyz")
        uid = rng.choice([None, "u1"])
        key = (ns, name, uid)
        if key in self.busy:
            return
        self.payload += 1
        p = str(self.payload)
        obj = _make(rng, typed, ns, name, uid, p)
        kind = rng.choice(["add", "modify", "delete"]) if key in self.live else rng.choice(["add", "modify"])
        silent = rng.random() < 0.15
        rec = {"type": {"add": "ADDED", "modify": "MODIFIED", "delete": "DELETED"}[kind], "key": key, "payload": p, "silent": silent, "call": self.now(), "ret": None}
        if kind == "delete":
            self.live.discard(key)
        else:
            self.live.add(key)
        self.pending.append(rec)
        self.busy.add(key)
        await getattr(self.src, kind + ("_drop_watch" if silent else ""))(obj)
        self.busy.discard(key)
        rec["ret"] = self.now()
        v = _ident(obj)[2]
        ctx.check(v is not None and v.isdigit(), "a changed object carries no version", got=v)
        ctx.check(int(v) not in self.changes, "two changes have the same version", version=v)
        rec["v"] = int(v)
        self.changes[int(v)] = rec
        ctx.count("silent_changes" if silent else "changes")
        ctx.rec(kind, key, v, silent)

    def done_changes(self):
        return sum(r["ret"] is not None for r in self.pending)

    def started_changes(self):
        return len(self.pending)

    async def list(self, rng):
        ctx = self.ctx
        rec = {"call": self.now(), "lo": self.done_changes()}
        l = await self.src.list({})
        rec["hi"] = self.started_changes()
        rec["v"] = int(meta.list_accessor(l).resource_version)
        items = list(meta.extract_list(l))
        rec["items"] = [_ident(o) for o in items]
        self.lists.append(rec)
        ctx.count("lists")
        ctx.rec("list", rec["v"], len(items))
        if rng.random() < 0.5:
            for o in items:
                _edit(ctx, o)

    async def watch(self, rng, finished, stop_after=None):
        ctx = self.ctx
        n = self.done_changes()
        future = rng.random() < 0.1
        if future:
            r = self.started_changes() + 50 + rng.randrange(3)
            ctx.count("future_watches")
            try:
                await asyncio.wait_for(self.src.watch({"resource_version": str(r)}), 500)
            except asyncio.TimeoutError:
                ctx.fail("a watch from a future version hangs")
            except Exception:
                return
            ctx.fail("a watch from a future version is not refused", version=r)
        r = rng.choice([0, n, rng.randrange(n + 1), max(0, n - 1), max(0, n - 3)])
        rec = {"from": r, "lo": n, "got": [], "complete": False, "stopped": False}
        w = await self.src.watch({"resource_version": str(r)})
        rec["hi"] = self.started_changes()
        self.watches.append(rec)
        ctx.count("watches")
        slow = rng.random() < 0.3
        async for ev in w:
            key, p, v = _ident(ev["object"])
            rec["got"].append((ev["type"], key, p, int(v)))
            if int(v) <= n:
                ctx.count("replayed")
                if rng.random() < 0.5:
                    _edit(ctx, ev["object"])
            if slow:
                await asyncio.sleep(rng.random() * 0.2)
            if stop_after is not None and len(rec["got"]) >= stop_after:
                rec["stopped"] = True
                await w.stop()
                return
        rec["complete"] = True

    def judge(self):
        ctx = self.ctx
        n = len(self.changes)
        ctx.check(sorted(self.changes) == list(range(1, n + 1)), "versions do not count the changes", got=sorted(self.changes))
        order = [self.changes[i] for i in range(1, n + 1)]
        # the version order respects real time
        latest_call = 0
        for c in order:
            ctx.check(c["ret"] > latest_call, "a change has a smaller version than one that completed before it started", change=c)
            latest_call = max(latest_call, c["call"])
        states = [{}]
        for c in order:
            s = dict(states[-1])
            if c["type"] == "DELETED":
                s.pop(c["key"], None)
            else:
                s[c["key"]] = (c["payload"], str(c["v"]))
            states.append(s)
        for l in self.lists:
            ctx.check(l["lo"] <= l["v"] <= l["hi"] and l["v"] <= n, "a list is labelled with a wrong version", version=l["v"], bounds=(l["lo"], l["hi"]))
            got = {k: (p, v) for k, p, v in l["items"]}
            ctx.check(len(got) == len(l["items"]), "a list holds an object twice")
            ctx.check(got == states[l["v"]], "a list is not the objects left by the changes up to its version", version=l["v"], got=got, want=states[l["v"]])
        for w in self.watches:
            ok = False
            best = None
            ev = [(c["type"], c["key"], c["payload"], c["v"]) for c in order]
            for s in range(w["lo"], min(w["hi"], n) + 1):
                want = ev[w["from"] : s] + [e for e, c in zip(ev[s:], order[s:]) if not c["silent"]] if s >= w["from"] else [e for e, c in zip(ev[w["from"] :], order[w["from"] :]) if not c["silent"]]
                got = w["got"]
                if got == want or (w["stopped"] and got == want[: len(got)]):
                    ok = True
                    break
                best = want
            ctx.check(ok, "a watch did not deliver exactly the changes after its version, in order", start=w["from"], got=w["got"], want=best, opened_at=(w["lo"], w["hi"]))
            if w["complete"]:
                ctx.count("complete_watches")
            live = [g for g in w["got"] if g[3] > w["hi"]]
            ctx.count("live_events", len(live))
            if live and any(g[3] <= w["lo"] for g in w["got"]):
                ctx.nontrivial = True


async def concurrent(ctx):
    rng = ctx.rng
    run = Run(ctx)
    finished = asyncio.Event()

    async def writer():
        for _ in range(rng.randrange(3, 30)):
            await (yields(rng, 4) if rng.random() < 0.6 else asyncio.sleep(rng.random() * 0.3))
            await run.change(rng)

    async def lister():
        for _ in range(rng.randrange(1, 8)):
            await (yields(rng, 10) if rng.random() < 0.5 else asyncio.sleep(rng.random()))
            await run.list(rng)

    async def watcher():
        await (yields(rng, 30) if rng.random() < 0.5 else asyncio.sleep(rng.random() * 3))
        await run.watch(rng, finished, rng.choice([None, None, None, 0, 1, 5]) or None)

    ws = [asyncio.ensure_future(watcher()) for _ in range(rng.randrange(1, 7))]
    others = [asyncio.ensure_future(t) for t in [*(writer() for _ in range(rng.randrange(1, 5))), *(lister() for _ in range(rng.randrange(1, 3)))]]
    done, pending = await asyncio.wait(others, timeout=2000)
    for t in [*done, *(w for w in ws if w.done())]:
        await t
    ctx.check(not pending, "changes or lists hang")
    await asyncio.sleep(60)
    # a list and a change still work, also after refused watches
    await asyncio.wait_for(run.change(rng), 100)
    await asyncio.wait_for(run.list(rng), 100)
    await asyncio.wait_for(run.src.shutdown(), 1000)
    done, pending = await asyncio.wait(ws, timeout=1000)
    for t in done:
        await t
    ctx.check(not pending, "a watch does not end after shutdown")
    run.judge()


async def sequential(ctx):
    """One step at a time; every watcher judged after every step."""
    rng = ctx.rng
    run = Run(ctx)
    open_ = []

    def expect(w):
        order = [run.changes[i] for i in sorted(run.changes)]
        ev = [(c["type"], c["key"], c["payload"], c["v"]) for c in order]
        return ev[w["from"] : w["at"]] + [e for e, c in zip(ev[w["at"] :], order[w["at"] :]) if not c["silent"]]

    async def follow(rec, w):
        async for ev in w:
            key, p, v = _ident(ev["object"])
            rec["got"].append((ev["type"], key, p, int(v)))
            if int(v) <= rec["at"] and rng.random() < 0.5:
                _edit(ctx, ev["object"])
                ctx.count("replayed")
            elif int(v) > rec["at"]:
                ctx.count("live_events")

    state = {}
    for _ in range(rng.randrange(10, 50)):
        r = rng.random()
        n = len(run.changes)
        if r < 0.55:
            await run.change(rng)
            if len(run.changes) > n:
                c = run.changes.get(n + 1)
                ctx.check(c is not None, "a change's version does not count the changes so far", versions=sorted(run.changes))
                if c["type"] == "DELETED":
                    state.pop(c["key"], None)
                else:
                    state[c["key"]] = (c["payload"], str(c["v"]))
        elif r < 0.75:
            await run.list(rng)
            l = run.lists[-1]
            ctx.check(l["v"] == n and {k: (p, v) for k, p, v in l["items"]} == state, "a list is not the current state", got=l, want=state, version=n)
        elif r < 0.95:
            if rng.random() < 0.2:
                ctx.count("future_watches")
                try:
                    await asyncio.wait_for(run.src.watch({"resource_version": str(n + rng.choice([1, 2, 100]))}), 10)
                except asyncio.TimeoutError:
                    ctx.fail("a watch from a future version hangs")
                except Exception:
                    continue
                ctx.fail("a watch from a future version is not refused")
            rec = {"from": rng.randrange(n + 1), "at": n, "got": []}
            w = await asyncio.wait_for(run.src.watch({"resource_version": str(rec["from"])}), 10)
            ctx.count("watches")
            rec["w"] = w
            rec["task"] = asyncio.ensure_future(follow(rec, w))
            open_.append(rec)
        elif open_:
            rec = open_.pop(rng.randrange(len(open_)))
            await rec["w"].stop()
            await asyncio.wait_for(rec["task"], 5)
        await asyncio.sleep(0.01)
        for w in open_:
            ctx.count("sequential_checks")
            ctx.check(w["got"] == expect(w), "a watch has not delivered exactly the changes after its version", start=w["from"], opened_at=w["at"], got=w["got"], want=expect(w))
            if w["task"].done():
                await w["task"]
                ctx.fail("a watch ended by itself")
    ctx.nontrivial = any(w["from"] < w["at"] and w["got"] and w["got"][-1][3] > w["at"] for w in open_)
    await asyncio.wait_for(run.src.shutdown(), 10)
    for w in open_:
        ctx.count("complete_watches")
        await asyncio.wait_for(w["task"], 5)
        ctx.check(w["got"] == expect(w), "a watch ended with changes missing", got=w["got"], want=expect(w))
    copy.copy(state)


async def absent(ctx):
    """Deleting an object that is not there either counts as a change or does nothing."""
    rng = ctx.rng
    run = Run(ctx)
    for _ in range(rng.randrange(0, 6)):
        await run.change(rng)
    n = len(run.changes)
    before = await run.src.list({})
    from_ = rng.randrange(n + 1)
    ctx.count("absent_deletes")
    try:
        await (run.src.delete if rng.random() < 0.5 else run.src.delete_drop_watch)(_make(rng, rng.random() < 0.5, "a", "absent", None, "0"))
    except KeyError:
        counted = 0
    else:
        counted = 1
    after = await run.src.list({})
    v = int(meta.list_accessor(after).resource_version)

    def items(l):
        return sorted(map(repr, map(_ident, meta.extract_list(l))))

    ctx.rec("absent", n, counted, v)
    ctx.nontrivial = True
    ctx.check(items(before) == items(after), "deleting an absent object changed the others", before=items(before), after=items(after))
    if counted == 0 and v == n + 1:
        ctx.fail("a refused deletion of an absent object still counts as a change", mechanism="absent-delete-half-applied", version=v, changes=n)
    ctx.check(v == n + counted, "deleting an absent object does not count as one change or none", version=v, changes=n, counted=counted)
    got = []

    async def follow():
        async for ev in await run.src.watch({"resource_version": str(from_)}):
            got.append(ev["type"])

    t = asyncio.ensure_future(follow())
    await asyncio.sleep(1)
    await asyncio.wait_for(run.src.shutdown(), 10)
    await asyncio.wait_for(t, 10)
    ctx.check(len(got) == v - from_, "a watch after the deletion of an absent object is not complete", start=from_, got=got, version=v)


async def mass(ctx):
    """Thousands of changes, replayed and then followed."""
    rng = ctx.rng
    run = Run(ctx)
    n = rng.choice([300, 1200, 2200])
    for _ in range(n):
        await run.change(rng)
    n = len(run.changes)
    from_ = rng.choice([0, rng.randrange(n)])
    w = await asyncio.wait_for(run.src.watch({"resource_version": str(from_)}), 10)
    got = []

    async def follow():
        async for ev in w:
            got.append(int(meta.accessor(ev["object"]).resource_version))

    t = asyncio.ensure_future(follow())
    more = rng.choice([0, 50, 1200])
    for _ in range(more):
        await run.change(rng)
        if rng.random() < 0.1:
            await asyncio.sleep(0.01)
    await asyncio.sleep(1)
    total = len(run.changes)
    await asyncio.wait_for(run.src.shutdown(), 10)
    await asyncio.wait_for(t, 10)
    want = [v for v in range(from_ + 1, total + 1) if v <= n or not run.changes[v]["silent"]]
    ctx.count("complete_watches")
    ctx.check(got == want, "of very many changes a watch misses or repeats some", start=from_, changes=total, got=len(got), want=len(want))
    ctx.rec("mass", n, total, from_)
    ctx.nontrivial = True


SCENARIOS = {"mass": mass, "concurrent": concurrent, "sequential": sequential, "absent": absent}
PLAN = {
    "quick": {"mass": 6, "concurrent": 1200, "sequential": 800, "absent": 100},
    "thorough": {"mass": 100, "concurrent": 30000, "sequential": 20000, "absent": 500},
}
