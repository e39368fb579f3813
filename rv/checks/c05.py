"""C05: relisting makes the delta queue's consumer converge on the listed objects."""
import asyncio
import random

from aiok8s.cache import controller, delta_fifo, fifo, store

from rv.util import key_of, obj_class, yields

PROPERTY = "C05"
RULE = (
    "A scripted server history (creations, updates, deletions, re-creations under the same name, outages whose events are missed, relists, "
    "resyncs) is fed to the delta queue as a reflector would; a consumer applies the popped deltas to the known-object "
    "store, either interleaved step by step (stepwise), as a concurrent task with suspensions and requeues (concurrent), or with hundreds of "
    "objects at once (large). Lookups in that store fail at random (unreliable): no deletion may get lost and no other object suffer. "
    "Non-trivial: a relist found both a missed deletion and a missed change while changes were pending."
)
REQUIRED_COUNTS = ("relists", "relists_with_pending", "tombstones_judged", "resyncs_judged", "recreated_in_outage", "convergence_checks", "versions_judged", "large_relists", "failed_lookups")
ASSUMPTIONS = ["lists and events come from one totally ordered server history", "only the queue's consumer writes to the known-object store"]

DT = delta_fifo.DeltaType
DFSU = delta_fifo.DeletedFinalStateUnknown


class Server:
    def __init__(self, rng, names):
        self.rng = rng
        self.cls = obj_class(rng)
        self.names = names
        self.rv = 0
        self.objs = {}

    def change(self):
        """One change: returns (type, object)."""
        self.rv += 1
        name = self.rng.choice(self.names)
        k = key_of("ns", name)
        o = self.cls("ns", name, rv=str(self.rv))
        if k not in self.objs:
            self.objs[k] = o
            return "add", o
        if self.rng.random() < 0.45:
            del self.objs[k]
            return "delete", o
        self.objs[k] = o
        return "update", o


class Rig:
    def __init__(self, ctx, size=None):
        self.ctx = ctx
        rng = self.rng = ctx.rng
        self.known = store.new_store(controller.deletion_handling_meta_namespace_key_func)
        self.q = delta_fifo.DeltaFIFO(store.meta_namespace_key_func, self.known)
        self.server = Server(rng, [f"n{i}" for i in range(size or rng.randrange(1, 5))])
        self.churn = max(6, (size or 0) * 2)  # most changes missed in an outage
        self.expected = {}  # what the consumer must end up with: the listed objects as changed by the events since
        self.applied = {}  # highest version applied per key
        self.live = {}  # our own record of the consumer's state
        self.connected = False
        self.missed = set()

    async def feed(self):
        """One step of the reflector side."""
        rng, ctx, q = self.rng, self.ctx, self.q
        if not self.connected:
            n = rng.randrange(0, self.churn)
            for _ in range(n):
                t, o = self.server.change()
                k = key_of("ns", o.metadata.name)
                if t == "add" and k in self.expected:
                    ctx.count("recreated_in_outage")
                ctx.rec("missed", t, k, self.server.rv)
            before = dict(self.expected)
            items = list(self.server.objs.values())
            rng.shuffle(items)
            pending = q.list_keys()
            ctx.rec("relist", [o.metadata.name + "@" + o.metadata.resource_version for o in items])
            await q.replace(items, str(self.server.rv))
            self.expected = dict(self.server.objs)
            self.connected = True
            ctx.count("relists")
            if pending:
                ctx.count("relists_with_pending")
                if set(before) - set(self.expected) and any(self.expected[k] is not before.get(k) for k in self.expected):
                    ctx.nontrivial = True
            return
        r = rng.random()
        if r < 0.2:
            self.connected = False
        elif r < 0.3:
            await q.resync()
            ctx.rec("resync")
        else:
            t, o = self.server.change()
            k = key_of("ns", o.metadata.name)
            ctx.rec("event", t, k, self.server.rv)
            if t == "delete":
                self.expected.pop(k, None)
                await q.delete(o)
            else:
                self.expected[k] = o
                await getattr(q, t)(o)

    async def process(self, deltas, fate="ok", wait=None):
        ctx = self.ctx
        if wait:
            await wait()
        if fate == "requeue":
            ctx.count("requeues")
            raise fifo.RequeueError
        for d in deltas:
            k = controller.deletion_handling_meta_namespace_key_func(d.object)
            have = self.known.get_by_key(k)
            ctx.check(have is self.live.get(k), "the known-object store changed behind the consumer's back", key=k)
            ctx.rec("apply", d.type.name, k, getattr(getattr(d.object, "metadata", None), "resource_version", "?"))
            if d.type is DT.DELETED:
                if isinstance(d.object, DFSU):
                    ctx.check(not isinstance(d.object.obj, DFSU), "a tombstone wraps another tombstone", key=k)
                    if have is not None:
                        ctx.check(d.object.obj is have, "a vanished object was not reported with its last known state", key=k, got=d.object.obj, known=have)
                        ctx.count("tombstones_judged")
                    elif d.object.obj is not None:
                        ctx.check(key_of("ns", d.object.obj.metadata.name) == k, "a tombstone carries another object", key=k)
                else:
                    self.version(k, d.object)
                await self.known.delete(d.object)
                self.live.pop(k, None)
            else:
                self.version(k, d.object)
                if have is not None:
                    await self.known.update(d.object)
                else:
                    await self.known.add(d.object)
                self.live[k] = d.object
            if wait:
                await wait()

    def version(self, k, o):
        v = int(o.metadata.resource_version)
        self.ctx.check(v >= self.applied.get(k, 0), "an applied version went backwards", key=k, version=v, before=self.applied.get(k))
        self.ctx.count("versions_judged")
        self.applied[k] = v

    def converged(self):
        ctx = self.ctx
        got = {k: self.known.get_by_key(k) for k in self.known.list_keys()}
        ctx.count("convergence_checks")
        ctx.check(set(got) - set(self.expected) == set(), "vanished objects survive in the consumer's store", extra=sorted(set(got) - set(self.expected)))
        ctx.check(set(self.expected) - set(got) == set(), "listed objects are missing from the consumer's store", missing=sorted(set(self.expected) - set(got)))
        ctx.check(all(got[k] is self.expected[k] for k in got), "the consumer's store holds stale objects", stale=[k for k in got if got[k] is not self.expected[k]])


async def stepwise(ctx):
    rng = ctx.rng
    rig = Rig(ctx)
    q = rig.q
    for _ in range(rng.randrange(10, 70)):
        r = rng.random()
        if r < 0.55:
            await rig.feed()
        elif r < 0.62:
            await judged_resync(ctx, rig)
        elif q.list_keys():
            await q.pop(lambda d: rig.process(d, rng.choice(["ok", "ok", "ok", "requeue"])))
        if rng.random() < 0.1:
            while q.list_keys():
                await q.pop(rig.process)
            if rig.connected:
                rig.converged()
    rig.connected = False
    await rig.feed()
    while q.list_keys():
        await q.pop(rig.process)
    rig.converged()


async def judged_resync(ctx, rig):
    q = rig.q
    before = {k: list(q.get_by_key(k)) for k in q.list_keys()}
    known = {k: rig.known.get_by_key(k) for k in rig.known.list_keys()}
    await q.resync()
    ctx.rec("resync")
    after = {k: q.get_by_key(k) for k in q.list_keys()}
    ctx.count("resyncs_judged")
    ctx.check(set(after) == set(before) | set(known), "resync did not offer exactly the known objects", pending=sorted(before), known=sorted(known), after=sorted(after))
    for k, d in after.items():
        if k in before:
            ctx.check(list(d) == before[k], "resync altered pending changes", key=k)
        else:
            ctx.check(len(d) == 1 and d[0].type is DT.SYNC and d[0].object is known[k], "resync offered something else than the known object once", key=k, deltas=repr(d))
    ctx.check({k: rig.known.get_by_key(k) for k in rig.known.list_keys()} == known, "resync changed the known objects")


async def large(ctx):
    """Hundreds of objects, changed in bulk while disconnected and while connected."""
    rng = ctx.rng
    rig = Rig(ctx, rng.choice([50, 120, 300, 700, 1300]))
    q = rig.q
    for _ in range(rng.randrange(2, 5)):
        rig.connected = False
        await rig.feed()
        for _ in range(rng.choice([0, 1, 3, 2000])):
            if not q.list_keys():
                break
            await q.pop(rig.process)
        await judged_resync(ctx, rig)
        for _ in range(rng.choice([0, 10, 500])):
            t, o = rig.server.change()
            k = key_of("ns", o.metadata.name)
            if t == "delete":
                rig.expected.pop(k, None)
            else:
                rig.expected[k] = o
            await getattr(q, t)(o)
        if rng.random() < 0.5:
            await judged_resync(ctx, rig)
    ctx.count("large_relists")
    while q.list_keys():
        await q.pop(rig.process)
    rig.converged()
    ctx.nontrivial = True


async def concurrent(ctx):
    rng = ctx.rng
    rig = Rig(ctx)
    r2 = random.Random(rng.random())
    slow = rng.choice([0, 0.2, 1.0])

    async def wait():
        if r2.random() < slow:
            await asyncio.sleep(r2.random() * 3)
        else:
            await yields(r2, 2)

    async def consume():
        try:
            while True:
                await wait()
                await rig.q.pop(lambda d: rig.process(d, r2.choice(["ok"] * 5 + ["requeue"]), wait))
        except fifo.FIFOClosedError:
            pass
        except fifo.ProcessError as e:
            raise e.__cause__

    t = asyncio.ensure_future(consume())
    for _ in range(rng.randrange(10, 80)):
        await rig.feed()
        if rng.random() < 0.5:
            await yields(rng, 4)
        elif rng.random() < 0.3:
            await asyncio.sleep(rng.random() * 3)
        if t.done():
            await t
    rig.connected = False
    await rig.feed()
    await rig.q.close()
    await t
    rig.converged()


class Unreliable:
    """A known-object store some of whose lookups fail, or find nothing although the key is listed."""

    def __init__(self, objs):
        self.objs = objs
        self.bad = {}  # key -> "raise" or "none"

    def list_keys(self):
        return list(self.objs)

    def get_by_key(self, k):
        how = self.bad.get(k)
        if how == "raise":
            raise LookupError(k)
        return None if how == "none" else self.objs.get(k)


async def unreliable(ctx):
    """Lookups in the known-object store fail: nothing else suffers, and no deletion is lost."""
    rng = ctx.rng
    cls = obj_class(rng)
    keys = [key_of("ns", f"n{i}") for i in range(rng.randrange(1, 7))]
    objs = {k: cls("ns", k[3:], rv="1") for k in keys if rng.random() < 0.8}
    known = Unreliable(objs)
    q = delta_fifo.DeltaFIFO(store.meta_namespace_key_func, known)
    pending = {}  # key -> [(type, object, tombstone?)]
    for _ in range(rng.randrange(2, 14)):
        for k in keys:
            known.bad[k] = rng.choice([None, None, "raise", "none"])
        r = rng.random()
        before = {k: list(q.get_by_key(k)) for k in q.list_keys()}
        if r < 0.3:
            await q.resync()
            for k in objs:
                if k not in before and not known.bad[k]:
                    pending[k] = [(DT.SYNC, objs[k])]
            ctx.count("failed_lookups", sum(bool(known.bad[k]) for k in objs))
        elif r < 0.6:
            items = [cls("ns", k[3:], rv="2") for k in keys if rng.random() < 0.5]
            listed = {key_of("ns", o.metadata.name): o for o in items}
            await q.replace(items, "2")
            for k, o in listed.items():
                pending.setdefault(k, []).append((DT.SYNC, o))
            for k in set(before) | set(objs):
                if k in listed:
                    continue
                if k in before:
                    if pending[k][-1][0] is DT.DELETED:
                        continue  # collapses; either deletion may stay
                    pending[k].append((DT.DELETED, pending[k][-1][1]))
                else:
                    pending[k] = [(DT.DELETED, None if known.bad[k] else objs[k])]
                    ctx.count("failed_lookups", int(bool(known.bad[k])))
        elif r < 0.8:
            k = rng.choice(keys)
            o = cls("ns", k[3:], rv="3")
            await q.delete(o)
            if k in before or known.bad[k] == "raise" or known.get_by_key(k) is not None:
                if not (k in before and pending[k][-1][0] is DT.DELETED):
                    pending.setdefault(k, []).append((DT.DELETED, o))
                else:
                    pending[k][-1] = (DT.DELETED, ...)
        else:
            while q.list_keys():
                got = await q.pop(lambda d: asyncio.sleep(0))
                k = q.key_of(got)
                pending.pop(k, None)
        now = {k: q.get_by_key(k) for k in q.list_keys()}
        ctx.check(set(now) == set(pending), "an object whose lookup failed is (not) pending, or it affected another", pending=sorted(now), want=sorted(pending), failing={k: v for k, v in known.bad.items() if v})
        for k, want in pending.items():
            ctx.check([d.type for d in now[k]] == [t for t, _ in want], "wrong changes pending while lookups fail", key=k, got=repr(now[k]), want=want)
            for d, (t, o) in zip(now[k], want):
                got = d.object.obj if isinstance(d.object, DFSU) else d.object
                ctx.check(o is ... or got is o or t is DT.DELETED, "wrong object pending while lookups fail", key=k, got=repr(d), want=o)
                if isinstance(d.object, DFSU):
                    ctx.check(d.object.key == k, "a tombstone of another key", key=k, got=repr(d))
        ctx.rec(sorted(pending))
    ctx.nontrivial = any(known.bad.values())


SCENARIOS = {"stepwise": stepwise, "concurrent": concurrent, "large": large, "unreliable": unreliable}
PLAN = {
    "quick": {"stepwise": 2500, "concurrent": 1000, "large": 60, "unreliable": 1500},
    "thorough": {"stepwise": 50000, "concurrent": 20000, "large": 1000, "unreliable": 30000},
}
