"""C06: a queue reports synced exactly when its first batch has been processed."""
import asyncio
import random

from aiok8s.cache import controller, delta_fifo, fifo, store

from rv.util import Obj, failure, key_of, obj_class, yields

PROPERTY = "C06"
RULE = (
    "Random first operations (list, change, deletion, empty list) on plain and delta queues followed by random changes, second lists, "
    "requeues, failures and suspended processings; has_synced() is sampled after every operation, inside every processor before and after its "
    "suspension, and by a polling task at every loop iteration, and compared with the set of initial keys still unprocessed. "
    "Mass: first lists of hundreds to thousands of objects. Non-trivial: the flag was observed both false and true after an initial list of at least two keys."
)
REQUIRED_COUNTS = ("samples_must_be_false", "samples_must_be_true", "inside_processing_samples", "implied_deletions", "requeues", "process_errors", "first_op_change", "first_op_empty_list", "duplicate_first_list", "synced_after_deletions", "lost_objects_deleted")
ASSUMPTIONS = [
    "after a plain FIFO's initial key is deleted, it is judged that the queue is synced once it has handed out what came later; after its contents are replaced again before the first batch was popped, only monotonicity is judged"
]


class Flag:
    """The reference: what has_synced() must be, may be."""

    def __init__(self, ctx, q):
        self.ctx = ctx
        self.q = q
        self.touched = False
        self.waiting = None  # initial keys not yet popped and processed
        self.processing = set()
        self.lenient = False
        self.replaced = False  # another list came before the first was processed
        self.seen_true = False
        self.seen_false_after_list = False
        self.inside = False

    def first(self, keys):
        if not self.touched:
            self.touched = True
            self.waiting = set(keys)

    def change(self):
        if not self.touched:
            self.touched = True
            self.waiting = set()

    def sample(self, where):
        got = self.q.has_synced()
        ctx = self.ctx
        ctx.check(isinstance(got, bool) or got in (0, 1, None), "has_synced is not a truth value")
        got = bool(got)
        if self.seen_true:
            ctx.check(got, f"the queue went back to unsynced ({where})")
        if not self.touched:
            ctx.check(not got, f"a fresh queue reports synced ({where})")
            ctx.count("samples_must_be_false")
        elif not self.lenient:
            if self.waiting:
                ctx.check(not got, f"synced although initial keys are unprocessed ({where})", waiting=sorted(self.waiting))
                ctx.count("samples_must_be_false")
                if len(self.waiting) + len(self.processing) >= 1:
                    self.seen_false_after_list = True
            elif not self.processing:
                ctx.check(got, f"not synced although the first batch has been processed ({where})")
                ctx.count("samples_must_be_true")
        if got:
            self.seen_true = True
        return got


class Flaky:
    """Known objects some of which cannot be looked up for a while."""

    def __init__(self, known, bad):
        self._known, self.bad = known, bad

    def get_by_key(self, k):
        how = self.bad.get(k)
        if isinstance(how, Exception):
            raise how
        return None if how else self._known.get_by_key(k)

    def __getattr__(self, name):
        return getattr(self._known, name)


async def run(ctx, delta, concurrent):
    rng = ctx.rng
    serial = 0
    cls = obj_class(rng)
    names = [f"n{i}" for i in range(rng.randrange(1, 7))]

    def mk(n=None):
        nonlocal serial
        serial += 1
        return cls("a", n or rng.choice(names), rv=str(serial))

    known = None
    if delta:
        if rng.random() < 0.7:
            known = store.new_store(controller.deletion_handling_meta_namespace_key_func)
            for n in names:
                if rng.random() < 0.4:
                    await known.add(mk(n))
            if rng.random() < 0.3:
                known = Flaky(known, {k: rng.choice([True, failure(rng, "lookup failed")]) for k in known.list_keys() if rng.random() < 0.7})
        q = delta_fifo.DeltaFIFO(store.meta_namespace_key_func, known)
    else:
        q = fifo.FIFO(store.meta_namespace_key_func)
    flag = Flag(ctx, q)
    flag.sample("fresh")
    r2 = random.Random(rng.random())

    def keyof(o):
        return q.key_of(o) if delta else key_of("a", o.metadata.name)

    async def change(kind):
        """One producer operation.  The model is updated before the call when the call may only raise the bar, and the
        flag is sampled only when no call is in flight."""
        o = mk()
        if kind == "replace":
            objs = [mk(n) for n in rng.sample(names, rng.choice([0, len(names), rng.randrange(0, len(names) + 1)]))]
            if objs and rng.random() < 0.2:
                objs.append(mk(objs[0].metadata.name))
                if not flag.touched:
                    ctx.count("duplicate_first_list")
            keys = {key_of("a", x.metadata.name) for x in objs}
            if not delta and flag.waiting:
                flag.lenient = flag.replaced = True
            if delta and known is not None and not flag.touched:
                gone = set(known.list_keys()) - keys
                ctx.count("implied_deletions", len(gone))
                if isinstance(known, Flaky):
                    ctx.count("lost_objects_deleted", len(gone & set(known.bad)))
                keys |= gone
            if not flag.touched and not keys:
                ctx.count("first_op_empty_list")
            ctx.rec(kind, sorted(keys))
            await q.replace(objs, "1")
            if isinstance(known, Flaky):
                known.bad = {}
            flag.first(keys)
        else:
            if not flag.touched:
                ctx.count("first_op_change")
            ctx.rec(kind, o.metadata.name)
            if kind == "delete":
                if not delta and flag.waiting and keyof(o) in flag.waiting:
                    flag.lenient = True
                await q.delete(o)
            elif kind == "add_if":
                await q.add_if_not_present(delta_fifo.Deltas([delta_fifo.Delta(delta_fifo.DeltaType.ADDED, o)]) if delta else o)
            else:
                await getattr(q, kind)(o)
            flag.change()

    def begin(item):
        k = keyof(item)
        if flag.waiting is not None and k in flag.waiting:
            flag.processing.add(k)
        flag.sample("processing started")
        ctx.count("inside_processing_samples")
        return k

    def end(k, item, mode):
        flag.sample("processing about to end")
        if flag.waiting is not None:
            flag.waiting.discard(k)
        if mode == "requeue":
            ctx.count("requeues")
            raise fifo.RequeueError
        if mode == "fail":
            ctx.count("process_errors")
            raise failure(rng, "processing failed")

    async def pop():
        mode = r2.choice(["ok", "ok", "requeue", "fail"])
        cell = []

        async def process(deltas):
            k = begin(deltas)
            cell.append(k)
            if r2.random() < 0.5:
                await yields(r2, 3)
            elif concurrent:
                await asyncio.sleep(r2.random())
            for d in deltas if known is not None else ():
                if d.type is delta_fifo.DeltaType.DELETED:
                    await known.delete(d.object)
                else:
                    await known.update(d.object)
            ctx.rec("processed", k, mode)
            end(k, deltas, mode)

        def process_sync(item):
            k = begin(item)
            cell.append(k)
            ctx.rec("processed", k, mode)
            end(k, item, mode)

        try:
            await q.pop(process if delta else process_sync)
        except fifo.ProcessError:
            pass
        flag.processing.discard(cell[0])

    first = rng.choice(["replace"] * 8 + ["add", "update", "delete", "add_if"])
    if rng.random() < 0.2:
        await q.resync()
        ctx.rec("resync first")
        flag.sample("resync of a fresh queue")
    await change(first)
    size = len(flag.waiting)
    flag.sample(f"after the first {first}")
    kinds = ["add", "update", "delete", "add_if", "replace", "resync"] if delta or rng.random() < 0.3 else ["add", "update", "add_if", "resync"]
    if not concurrent:
        for _ in range(rng.randrange(5, 40)):
            r = rng.random()
            if r < 0.45:
                if q.list_keys():
                    await pop()
            else:
                k = rng.choice(kinds)
                if k == "resync":
                    await q.resync()
                else:
                    await change(k)
            flag.sample("between operations")
        # drain with well-behaved processing
        r2 = random.Random(rng.random())
        for _ in range(200):
            if not q.list_keys():
                break
            await pop()
            flag.sample("draining")
    else:

        async def consumer():
            try:
                while True:
                    await yields(r2, 3)
                    await pop()
            except fifo.FIFOClosedError:
                pass

        done = False
        busy = True
        rng2 = random.Random(rng.random())

        async def poller():
            while not done:
                flag.sample("polled")
                await asyncio.sleep(rng2.choice([0, 0, 0, 0.05]) if busy else 1)

        c = asyncio.ensure_future(consumer())
        p = asyncio.ensure_future(poller())
        for _ in range(rng.randrange(3, 20)):
            await yields(rng, 3)
            k = rng.choice(kinds)
            if k == "resync":
                await q.resync()
            else:
                await change(k)
            for t in (c, p):
                if t.done():
                    await t
        await asyncio.sleep(5)
        busy = False
        await asyncio.sleep(500)
        for t in (c, p):
            if t.done():
                await t
        flag.sample("at rest")
        done = True
        await q.close()
        await asyncio.gather(c, p)
    if flag.lenient and not flag.replaced:
        # initial keys that were deleted instead of popped do not keep a queue unsynced that has moved past them
        if not concurrent:
            await q.add(mk("last"))
            while q.list_keys():
                await pop()
        ctx.check(q.has_synced(), "not synced although the first batch has been popped or deleted")
        ctx.count("synced_after_deletions")
    if not flag.lenient:
        flag.sample("finally")
        ctx.nontrivial = size >= 2 and flag.seen_true and flag.seen_false_after_list
    else:
        ctx.count("lenient_cases")


async def delta_sequential(ctx):
    await run(ctx, True, False)


async def fifo_sequential(ctx):
    await run(ctx, False, False)


async def delta_concurrent(ctx):
    await run(ctx, True, True)


async def fifo_concurrent(ctx):
    await run(ctx, False, True)


async def mass(ctx):
    """A first list of thousands of objects, implying as many deletions."""
    rng = ctx.rng
    n = rng.choice([600, 1200, 2600])
    if rng.random() < 0.3:
        q, gone = fifo.FIFO(store.meta_namespace_key_func), 0
    else:
        known = store.new_store(controller.deletion_handling_meta_namespace_key_func)
        gone = rng.choice([0, 300, 1500])
        for i in range(gone):
            await known.add(Obj("a", f"old{i}", rv="0"))
        q = delta_fifo.DeltaFIFO(store.meta_namespace_key_func, known)
    await q.replace([Obj("a", f"n{i}", rv="1") for i in range(n)], "1")
    left = n + gone
    while left:
        if left % 50 == 0 or left < 5:
            ctx.count("samples_must_be_false")
            ctx.check(not q.has_synced(), "synced before the whole first batch was processed", left=left, of=n + gone)

        if isinstance(q, fifo.FIFO):
            await q.pop(lambda o: None)
        else:

            async def process(d):
                pass

            await q.pop(process)
        left -= 1
    ctx.count("samples_must_be_true")
    ctx.check(q.has_synced(), "not synced although the first batch has been processed (mass)")
    ctx.check(not q.list_keys(), "keys are left over")
    ctx.rec("mass", n, gone)
    ctx.nontrivial = True


SCENARIOS = {"mass": mass, "delta_sequential": delta_sequential, "fifo_sequential": fifo_sequential, "delta_concurrent": delta_concurrent, "fifo_concurrent": fifo_concurrent}
PLAN = {
    "quick": {"mass": 8, "delta_sequential": 2500, "fifo_sequential": 1500, "delta_concurrent": 1200, "fifo_concurrent": 600},
    "thorough": {"mass": 150, "delta_sequential": 50000, "fifo_sequential": 20000, "delta_concurrent": 20000, "fifo_concurrent": 10000},
}
