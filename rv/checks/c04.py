"""C04: the delta queue delivers every change of every key, in order, exactly once."""
import asyncio
import random

from aiok8s.cache import delta_fifo, fifo, store

from rv.core import Inconclusive
from rv.util import History, failure, linearizable, yields

PROPERTY = "C04"
RULE = (
    "sequential: random histories of 40-120 adds, updates, deletes (objects and tombstones), replaces, resyncs, re-additions and "
    "pops (ok / requeue / requeue with cause / failure) with and without a known-object store, compared delta by delta with "
    "a model after every step; concurrent: 2-4 producers and 1-3 consumers with suspending processors, history checked for "
    "linearizability, processing intervals checked for exclusion against every other operation. Surface, interrupted and list wake-ups are judged in scenarios of their own; mass: hundreds to thousands of keys and of deltas for one key. Non-trivial: a merged "
    "deletion was popped (sequential) or an operation had to wait for a processing in progress (concurrent)."
)
REQUIRED_COUNTS = ("list_wakeups", "wakeup_races", "refused_arguments", "interrupted_pops", "cancelled_pops", "pops", "merged_deletions", "ignored_deletions", "requeues", "process_errors", "closed_pops", "waited_for_processing", "linearizability_checks", "quiescent_checks")
ASSUMPTIONS = ["the processor does not call back into the queue it is popping from", "keys made pending by one replace or resync call count as equally old"]

DT = delta_fifo.DeltaType
DFSU = delta_fifo.DeletedFinalStateUnknown


class It:
    def __init__(self, key, val):
        self.key = key
        self.val = val

    def __repr__(self):
        return f"{self.key}={self.val}"


class HollowIt(It):
    """False in a boolean context."""

    def __bool__(self):
        return False


class AlikeIt(It):
    """Equal to every other of its kind."""

    def __eq__(self, other):
        return isinstance(other, AlikeIt)

    def __hash__(self):
        return 0


def it_class(rng):
    return rng.choice([It, It, HollowIt, AlikeIt])


def key_func(o):
    return o.key


class Known:
    """The smallest thing that can serve as known objects."""

    def __init__(self):
        self.d = {}

    def list_keys(self):
        return list(self.d)

    def get_by_key(self, k):
        return self.d.get(k)


def rep(obj):
    if isinstance(obj, DFSU):
        return ("?", obj.key)
    return (obj.key, obj.val)


# model state: (entries, closed, stamp); entries: tuple of (key, stamp, deltas); a delta is (type name, frozenset of
# acceptable object representations)


def m_append(deltas, typ, reps):
    if typ == "DELETED" and deltas and deltas[-1][0] == "DELETED":
        old = deltas[-1][1]
        real = frozenset(r for r in old | reps if r[0] != "?")
        return deltas[:-1] + (("DELETED", real or (old | reps)),)
    return deltas + ((typ, reps),)


def m_queue(entries, stamp, key, typ, reps):
    for i, (k, s, d) in enumerate(entries):
        if k == key:
            return entries[:i] + ((k, s, m_append(d, typ, reps)),) + entries[i + 1 :]
    return entries + ((key, stamp, ((typ, reps),)),)


def m_keys(entries):
    return {k for k, _, _ in entries}


NO = object()


def apply_with(known):
    """known: mapping key -> value, or None for a queue without known objects"""

    def apply(state, op):
        entries, closed, stamp = state
        kind = op[0]
        if kind in ("add", "update"):
            k, v = op[1], op[2]
            return (m_queue(entries, stamp, k, {"add": "ADDED", "update": "UPDATED"}[kind], frozenset([(k, v)])), closed, stamp + 1), None
        if kind == "delete":
            k, r = op[1], op[2]
            if k not in m_keys(entries) and (known is None or k not in known):
                return state, None
            return (m_queue(entries, stamp, k, "DELETED", frozenset([r])), closed, stamp + 1), None
        if kind == "replace":
            listed = op[1]
            names = {k for k, _ in listed}
            gone = (m_keys(entries) | set(known or ())) - names
            for k, v in listed:
                entries = m_queue(entries, stamp, k, "SYNC", frozenset([(k, v)]))
            for k in sorted(gone):
                entries = m_queue(entries, stamp, k, "DELETED", frozenset([("?", k)]))
            return (entries, closed, stamp + 1), None
        if kind == "resync":
            for k, v in (known or {}).items():
                if k not in m_keys(entries):
                    entries = m_queue(entries, stamp, k, "SYNC", frozenset([(k, v)]))
            return (entries, closed, stamp + 1), None
        if kind == "add_if":
            k, deltas = op[1], op[2]
            if k not in m_keys(entries):
                entries = entries + ((k, stamp, tuple((t, frozenset([r])) for t, r in deltas)),)
            return (entries, closed, stamp + 1), None
        if kind == "close":
            return (entries, True, stamp), None
        if kind == "keys":
            return state, tuple(sorted(m_keys(entries)))
        if kind == "pop":
            res = op[1][0]
            if res == "closed":
                return state, ("closed" if closed and not entries else NO)
            k, got, mode = res
            oldest = min((s for _, s, _ in entries), default=None)
            for i, (k2, s, d) in enumerate(entries):
                if k2 == k and s == oldest and matches(d, got):
                    entries = entries[:i] + entries[i + 1 :]
                    if mode.startswith("requeue"):
                        entries = entries + ((k, stamp, tuple((t, frozenset([r])) for t, r in got)),)
                        stamp += 1
                    return (entries, closed, stamp), res
            return state, NO
        raise AssertionError(kind)

    return apply


def matches(want, got):
    return len(want) == len(got) and all(t == t2 and r in reps for (t, reps), (t2, r) in zip(want, got))


INIT = ((), False, 0)


def freeze(deltas):
    return tuple((d.type.name, rep(d.object)) for d in deltas)


async def do_pop(ctx, q, mode, cell, monitor=None, apply_to=None, wait=None):
    seen = []
    cause = failure(ctx.rng, "processing")

    async def process(deltas):
        ctx.check(isinstance(deltas, delta_fifo.Deltas) and len(deltas) > 0, "processor got something else than non-empty Deltas", got=repr(deltas))
        seen.append(deltas)
        frozen = freeze(deltas)
        if monitor is not None:
            ctx.check(not monitor["busy"], "a second delta list was handed out while one was being processed")
            monitor["busy"] = True
            monitor["starts"] += 1
            monitor.setdefault("begun", set()).add(asyncio.current_task())
        if wait is not None:
            await wait()
        ctx.check(freeze(deltas) == frozen, "a delta list changed while it was being processed", before=frozen, after=freeze(deltas))
        if apply_to is not None and mode in ("ok", "fail"):
            for d in deltas:
                k = q.key_of(d.object)
                if d.type is DT.DELETED:
                    apply_to.pop(k, None)
                else:
                    apply_to[k] = d.object
        if monitor is not None:
            monitor["busy"] = False
        if mode == "requeue":
            raise fifo.RequeueError
        if mode == "requeue_cause":
            raise fifo.RequeueError from cause
        if mode == "fail":
            raise cause

    try:
        r = await q.pop(process)
    except fifo.FIFOClosedError:
        ctx.check(not seen, "pop handed out deltas and then reported closed")
        ctx.count("closed_pops")
        cell.append("closed")
        return "closed"
    except fifo.ProcessError as e:
        ctx.check(mode in ("fail", "requeue_cause"), "pop reported a processing failure that did not happen", mode=mode)
        ctx.check(len(seen) == 1, "the processor was not called exactly once per pop", calls=len(seen))
        ctx.check(freeze(e.item) == freeze(seen[0]), "the processing failure does not carry the deltas", item=repr(e.item))
        ctx.check(e.__cause__ is cause, "the processing failure does not carry its cause")
        ctx.count("process_errors")
    else:
        ctx.check(mode in ("ok", "requeue"), "pop swallowed a processing failure", mode=mode)
        ctx.check(len(seen) == 1, "the processor was not called exactly once per pop", calls=len(seen))
        ctx.check(freeze(r) == freeze(seen[0]), "pop returned something else than it processed", got=repr(r))
    if mode.startswith("requeue"):
        ctx.count("requeues")
    ctx.count("pops")
    key = q.key_of(seen[0])
    res = (key, freeze(seen[0]), mode)
    cell.append(res)
    cell.append(seen[0])
    return res


def step(ctx, apply, state, op, result, what):
    new, want = apply(state, op)
    if what == "pop" and want is NO:
        ctx.fail(
            "pop gave a delta list the accepted changes do not allow",
            got=result,
            pending=[(k, s, [(t, sorted(map(repr, r))) for t, r in d]) for k, s, d in state[0]],
        )
    ctx.check(want is not NO and want == result, f"{what} gave a wrong result", got=result)
    return new


async def sequential(ctx):
    rng = ctx.rng
    cls = it_class(rng)
    known = Known() if rng.random() < 0.7 else None
    q = delta_fifo.DeltaFIFO(key_func, known) if known or rng.random() < 0.5 else delta_fifo.DeltaFIFO(key_func)
    keys = [f"k{i}" for i in range(rng.randrange(1, 5))]
    state = INIT
    serial = 0
    merged = False

    def mk(k=None):
        nonlocal serial
        serial += 1
        return cls(k or rng.choice(keys), serial)

    failed = []
    for _ in range(rng.randrange(40, 120)):
        apply = apply_with(None if known is None else {k: o.val for k, o in known.d.items()})
        kind = rng.choice(["add", "update", "update", "delete", "delete", "tomb", "replace", "resync", "pop", "pop", "add_if", "get"] + ["close"] * (rng.random() < 0.05))
        res = None
        if kind in ("add", "update"):
            o = mk()
            op = (kind, o.key, o.val)
            await getattr(q, kind)(o)
        elif kind in ("delete", "tomb"):
            o = mk()
            d = o if kind == "delete" else DFSU(o.key, rng.choice([None, o]))
            op = ("delete", o.key, rep(d))
            new, _ = apply(state, op)
            if new is state:
                ctx.count("ignored_deletions")
            await q.delete(d)
        elif kind == "replace":
            if rng.random() < 0.6:
                continue
            objs = [mk(k) for k in rng.sample(keys, rng.randrange(0, len(keys) + 1))]
            op = ("replace", tuple((o.key, o.val) for o in objs))
            await q.replace(list(objs), "1")
        elif kind == "resync":
            op = ("resync",)
            await q.resync()
        elif kind == "add_if":
            if failed and rng.random() < 0.7:
                d = failed.pop()
            else:
                d = delta_fifo.Deltas([delta_fifo.Delta(DT.ADDED, mk())])
            op = ("add_if", q.key_of(d), freeze(d))
            await q.add_if_not_present(d)
        elif kind == "close":
            op = ("close",)
            await q.close()
        elif kind == "get":
            k = rng.choice(keys)
            d = rng.choice([lambda: q.get_by_key(k), lambda: q.get(It(k, 0))])()
            want = next((e[2] for e in state[0] if e[0] == k), None)
            ctx.check((d is None) == (want is None) and (d is None or matches(want, freeze(d))), "get() is not the pending deltas", got=repr(d))
            if d:
                d.clear()  # a client may do what it likes with its copy
            continue
        else:
            cell = []
            mode = rng.choice(["ok", "ok", "ok", "requeue", "requeue_cause", "fail"])
            store = None if known is None else known.d
            if state[0] or state[1]:
                res = await do_pop(ctx, q, mode, cell, apply_to=store)
            else:
                t = asyncio.ensure_future(do_pop(ctx, q, mode, cell, apply_to=store))
                await asyncio.sleep(rng.choice([0, 0.01, 5]))
                for _ in range(3):
                    await asyncio.sleep(0)
                ctx.check(not t.done(), "a pop on an empty open queue returned")
                if rng.random() < 0.3:
                    t.cancel()
                    await asyncio.gather(t, return_exceptions=True)
                    ctx.check(t.cancelled(), "cancelling a blocked pop did not cancel it")
                    continue
                o = mk()
                how = rng.choice(["add", "update", "replace", "add_if"] + ["close"] * (rng.random() < 0.3))
                if how == "close":
                    await q.close()
                    op = ("close",)
                elif how == "replace":
                    await q.replace([o], "1")
                    op = ("replace", ((o.key, o.val),))
                elif how == "add_if":
                    d = delta_fifo.Deltas([delta_fifo.Delta(DT.ADDED, o)])
                    await q.add_if_not_present(d)
                    op = ("add_if", o.key, freeze(d))
                else:
                    await getattr(q, how)(o)
                    op = (how, o.key, o.val)
                state = step(ctx, apply, state, op, None, how)
                try:
                    res = await asyncio.wait_for(t, 1)
                except asyncio.TimeoutError:
                    ctx.fail(f"a blocked pop did not wake on {how}")
            op = ("pop", cell)
            if res != "closed":
                ent = next((e for e in state[0] if e[0] == res[0]), None)
                if ent and any(len(r) > 1 for t_, r in ent[2]) or ent and any(t_ == "DELETED" for t_, _ in ent[2]):
                    merged = True
                    ctx.count("merged_deletions")
                if mode == "fail":
                    failed.append(cell[1])
        ctx.rec(op[0] if kind != "pop" else "pop", repr(op[1:]) if kind != "pop" else res)
        state = step(ctx, apply, state, op, res, kind)
        ctx.check(sorted(q.list_keys()) == sorted(m_keys(state[0])), "the pending keys differ from the model", got=q.list_keys(), want=sorted(m_keys(state[0])))
        ctx.check(len(q.list()) == len(state[0]), "list() differs from the pending keys")
        ctx.check(q.is_closed() == state[1], "is_closed() differs")
    await q.close()
    state = (state[0], True, state[2])
    for _ in range(len(state[0]) + 1):
        cell = []
        apply = apply_with(None)
        res = await asyncio.wait_for(do_pop(ctx, q, "ok", cell), 1)
        state = step(ctx, apply, state, ("pop", cell), res, "pop")
    ctx.check(cell == ["closed"], "a closed and drained queue still handed something out")
    ctx.nontrivial = merged


async def concurrent(ctx):
    rng = ctx.rng
    cls = it_class(rng)
    known = Known() if rng.random() < 0.6 else None
    keys = ["x", "y", "z"][: rng.randrange(1, 4)]
    serial = 0

    def mk(k=None):
        nonlocal serial
        serial += 1
        return cls(k or rng.choice(keys), serial)

    if known is not None:
        for k in keys:
            if rng.random() < 0.5:
                known.d[k] = mk(k)
    q = delta_fifo.DeltaFIFO(key_func, known)
    apply = apply_with(None if known is None else {k: o.val for k, o in known.d.items()})
    h = History()
    monitor = {"busy": False, "starts": 0}
    waited = 0

    async def op(i, desc, fn):
        """A producer's call: it must not complete while a processing that was running when it was called goes on."""
        nonlocal waited
        started = (monitor["busy"], monitor["starts"])
        await h.call(i, desc, fn)
        # accepted: if the same processing is still in progress the change was accepted during it
        ctx.check(not monitor["busy"] or monitor["starts"] != started[1] or not started[0], "a change was accepted while a delta list was being processed", op=desc)
        if started[0]:
            waited += 1
            ctx.count("waited_for_processing")

    async def producer(i):
        for _ in range(rng.randrange(1, 5)):
            await (yields(rng, 3) if rng.random() < 0.6 else asyncio.sleep(rng.random()))
            await produce(i)
            if popping and rng.random() < hasty:
                # a consumer gives up just as something was added
                if rng.random() < 0.3:
                    await asyncio.sleep(0)
                idle = [t for t in popping if t not in monitor.get("begun", ())]
                if idle:
                    rng.choice(idle).cancel()

    async def produce(i):
        kind = rng.choice(["add", "update", "update", "delete", "tomb", "replace", "resync", "add_if", "keys"])
        o = mk()
        if kind in ("add", "update"):
            await op(i, (kind, o.key, o.val), lambda: getattr(q, kind)(o))
        elif kind in ("delete", "tomb"):
            d = o if kind == "delete" else DFSU(o.key, None)
            await op(i, ("delete", o.key, rep(d)), lambda: q.delete(d))
        elif kind == "replace":
            objs = [mk(k) for k in rng.sample(keys, rng.randrange(0, len(keys) + 1))]
            await op(i, (kind, tuple((o.key, o.val) for o in objs)), lambda: q.replace(objs, "1"))
        elif kind == "resync":
            await op(i, (kind,), q.resync)
        elif kind == "add_if":
            d = delta_fifo.Deltas([delta_fifo.Delta(DT.UPDATED, o)])
            await op(i, (kind, o.key, freeze(d)), lambda: q.add_if_not_present(d))
        elif not monitor["busy"]:
            # reads do not lock: judged only while nothing is being processed
            h.call_sync(i, (kind,), lambda: tuple(sorted(q.list_keys())))

    popping = []
    hasty = rng.choice([0, 0.3, 1])
    staying = []
    requeues = 0

    async def consumer(i):
        nonlocal requeues
        while True:
            await (yields(rng, 3) if rng.random() < 0.6 else asyncio.sleep(rng.random()))
            mode = rng.choice(["ok", "ok", "ok", "fail", "requeue", "requeue_cause"])
            if mode.startswith("requeue"):
                requeues += 1
                if requeues > 3:
                    mode = "ok"
            cell = []
            wait_kind = rng.random()

            async def wait():
                if wait_kind < 0.4:
                    await yields(rng, 6)
                elif wait_kind < 0.8:
                    await asyncio.sleep(rng.random() * 2)

            t = asyncio.ensure_future(h.call(i, ("pop", cell), lambda: do_pop(ctx, q, mode, cell, monitor, wait=wait)))
            popping.append(t)
            try:
                r = await t
            except asyncio.CancelledError:
                if not t.cancelled():
                    raise
                ctx.check(not cell, "a cancelled pop swallowed deltas")
                ctx.count("cancelled_pops")
                h.ops[:] = [o for o in h.ops if o["op"][0] != "pop" or o["op"][1] is not cell]
                if len(staying) > 1 and rng.random() < 0.5:
                    staying.remove(i)
                    return
                continue
            finally:
                popping.remove(t)
            if r == "closed":
                return

    staying += range(10, 11 + rng.randrange(3))
    consumers = [asyncio.ensure_future(consumer(i)) for i in list(staying)]
    await asyncio.gather(*(producer(i) for i in range(rng.randrange(2, 5))))
    await asyncio.sleep(200)
    for c in consumers:
        if c.done():
            await c
    ctx.count("quiescent_checks")
    ctx.check(not q.list_keys(), "deltas stay pending although consumers are waiting", pending=q.list_keys())
    await h.call(99, ("close",), q.close)
    done, pending = await asyncio.wait(consumers, timeout=100)
    for c in consumers:
        if c.done():
            await c
    ctx.check(not pending, "a blocked pop did not wake on close")
    for o in h.ops:
        ctx.rec(o["who"], repr(o["op"]), o["call"], o["ret"])
    ok = linearizable(h.ops, INIT, apply)
    if ok is None:
        raise Inconclusive("linearizability search gave up")
    ctx.count("linearizability_checks")
    ctx.check(ok, "concurrent delta queue history is not linearizable", ops=[(o["who"], repr(o["op"]), o["call"], o["ret"]) for o in h.ops])
    ctx.nontrivial = waited > 0


async def stress(ctx):
    """Long runs: per key, the popped deltas concatenated equal the accepted changes."""
    rng = ctx.rng
    cls = it_class(rng)
    keys = [f"k{i}" for i in range(rng.randrange(1, 20))]
    known = Known()
    known.d = {k: It(k, 0) for k in keys}  # so that every deletion is accepted
    q = delta_fifo.DeltaFIFO(key_func, known)
    sent = {k: [] for k in keys}
    got = {k: [] for k in keys}
    monitor = {"busy": False, "starts": 0}
    serial = 0
    n = rng.randrange(1, 5)

    async def producer(i):
        nonlocal serial
        mine = keys[i::n]
        for _ in range(rng.randrange(10, 60) if mine else 0):
            await yields(rng, 3)
            k = rng.choice(mine)
            serial += 1
            o = cls(k, serial)
            if rng.random() < 0.15:
                sent[k].append(("DELETED", (k, serial)))
                await q.delete(o)
            else:
                kind = rng.choice(["add", "update"])
                sent[k].append(({"add": "ADDED", "update": "UPDATED"}[kind], (k, serial)))
                await getattr(q, kind)(o)

    async def consumer():
        while True:
            cell = []
            if await do_pop(ctx, q, "ok", cell, monitor, wait=lambda: yields(r2, 4)) == "closed":
                return
            k, deltas, _ = cell[0]
            got[k] += deltas
            ctx.rec("pop", k, len(deltas))

    r2 = random.Random(rng.random())
    consumers = [asyncio.ensure_future(consumer()) for _ in range(rng.randrange(1, 4))]
    await asyncio.gather(*(producer(i) for i in range(n)))
    await q.close()
    await asyncio.gather(*consumers)
    for k in keys:
        # consecutive deletions may be merged; nothing else may differ
        ctx.check(collapse(sent[k]) == collapse(got[k]), "the popped deltas of a key are not its accepted changes", key=k, sent=sent[k], got=got[k])
        ctx.count("ledger_comparisons")
    ctx.nontrivial = sum(map(len, got.values())) >= 20


def collapse(deltas):
    out = []
    for t, r in deltas:
        if t == "DELETED":
            if out and out[-1] == "DELETED":
                continue
            out.append("DELETED")
        else:
            out.append((t, r))
    return out


async def wakeups(ctx):
    """Several blocked pops, some of which are cancelled just as items arrive: the others must get them."""
    rng = ctx.rng
    cls = it_class(rng)
    q = delta_fifo.DeltaFIFO(key_func)
    got, sent = [], []
    slow = rng.random() < 0.5
    r2 = random.Random(rng.random())

    begun = set()

    async def process(deltas):
        begun.add(asyncio.current_task())
        if slow:
            await yields(r2, 3)
        got.extend(d.object.val for d in deltas)

    pops = [asyncio.ensure_future(q.pop(process)) for _ in range(rng.randrange(2, 6))]
    await asyncio.sleep(0.1)
    ctx.check(not any(t.done() for t in pops), "a pop on an empty open queue returned")
    if rng.random() < 0.2:
        # several keys at once must wake several
        n = rng.randrange(1, len(pops) + 2)
        await q.replace([cls(f"k{i}", i) for i in range(n)], "1")
        await asyncio.sleep(1)
        ctx.check(len(got) == min(n, len(pops)), "keys of a list stay pending although pops are waiting", listed=n, got=got, waiting=len(pops))
        ctx.count("list_wakeups")
        await q.close()
        await asyncio.gather(*pops, return_exceptions=True)
        return
    leave = rng.randrange(1, len(pops))
    add = rng.randrange(1, len(pops) - leave + 1)
    jobs = ["cancel"] * leave + ["add"] * add
    rng.shuffle(jobs)
    cancelled = []
    for job in jobs:
        if job == "add":
            sent.append(len(sent))
            o = cls(f"k{sent[-1]}", sent[-1])
            how = rng.choice(["add", "update", "add_if"])
            if how == "add_if":
                await q.add_if_not_present(delta_fifo.Deltas([delta_fifo.Delta(DT.ADDED, o)]))
            else:
                await getattr(q, how)(o)
        else:
            waiting = [t for t in pops if not t.done() and t not in cancelled and t not in begun]
            if len(waiting) > len(sent) - len(begun):
                # those that have waited longest are the ones being woken
                t = rng.choice(waiting[:2])
                cancelled.append(t)
                t.cancel()
        if rng.random() < 0.3:
            await asyncio.sleep(0)
    await asyncio.sleep(1)
    done = [t for t in pops if t.done() and not t.cancelled()]
    for t in done:
        t.result()
    ctx.rec(jobs, len(done))
    ctx.count("wakeup_races")
    ctx.check(len(done) == len(got) == min(len(sent), len(pops) - sum(t.cancelled() for t in pops)), "an item stays pending although a pop is waiting", sent=sent, got=got, cancelled=len(cancelled), waiting=len(pops) - len(done))
    ctx.nontrivial = bool(cancelled)
    await q.close()
    left = [t for t in pops if not t.done()]
    await asyncio.sleep(1)
    ctx.check(all(t.done() and isinstance(t.exception(), fifo.FIFOClosedError) for t in left), "a blocked pop did not wake on close")


async def surface(ctx):
    """What the queue's accessors say of odd arguments, and that these change nothing."""
    rng = ctx.rng
    cls = it_class(rng)
    q = delta_fifo.DeltaFIFO(key_func)
    fresh = not q.has_synced() and q.list() == [] and q.list_keys() == [] and not q.is_closed()
    ctx.check(fresh, "a fresh queue is not empty, open and unsynced")
    objs = []
    for i in range(rng.randrange(0, 6)):
        o = cls(f"k{rng.randrange(3)}", i)
        objs.append(o)
        await rng.choice([q.add, q.update])(o)
    want = [list(q.get_by_key(k)) for k in q.list_keys()]
    try:
        await q.add_if_not_present(rng.choice([cls("k9", 0), [], None, [delta_fifo.Delta(DT.ADDED, cls("k9", 0))]]))
    except TypeError:
        ctx.count("refused_arguments")
    else:
        ctx.fail("something that is not deltas was accepted")
    try:
        q.key_of(delta_fifo.Deltas())
    except store.StoreKeyError:
        ctx.count("refused_arguments")
    else:
        ctx.fail("deltas without any delta have a key")
    empty = delta_fifo.Deltas()
    ctx.check(empty.oldest() is None and empty.newest() is None, "empty deltas have an oldest or newest one")
    ctx.check([list(q.get_by_key(k)) for k in q.list_keys()] == want, "a refused argument changed the queue")
    for k in q.list_keys():
        d = q.get_by_key(k)
        mine = [o for o in objs if key_func(o) == k]
        ctx.check(d.oldest().object is mine[0] and d.newest().object is mine[-1] and len(d) == len(mine), "wrong oldest or newest change", key=k)
        ctx.check(q.key_of(d) == k and list(q.get(d)) == list(d), "deltas do not have their objects' key", key=k)
        ctx.check(q.key_of(DFSU(k, None)) == k, "a tombstone does not have its object's key", key=k)
        d.clear()
        ctx.check(len(q.get_by_key(k)) == len(mine), "changing handed-out deltas changes the queue's", key=k)
    ctx.rec(len(objs), rng.random())
    ctx.nontrivial = bool(objs)


async def interrupted(ctx):
    """A pop is cancelled while its processor is at work: it ends as cancelled, and the queue serves everybody else."""
    rng = ctx.rng
    cls = it_class(rng)
    q = delta_fifo.DeltaFIFO(key_func)
    n = rng.randrange(1, 6)
    for i in range(n):
        await rng.choice([q.add, q.update])(cls(f"k{i}", i))
    at_work = asyncio.Event()
    seen = []

    async def process(deltas):
        seen.append(deltas[0].object.val)
        at_work.set()
        await (asyncio.sleep(50) if rng.random() < 0.7 else asyncio.Event().wait())

    t = asyncio.ensure_future(q.pop(process))
    await at_work.wait()
    waiting = [asyncio.ensure_future(q.add(cls(f"x{i}", 10 + i))) for i in range(rng.randrange(0, 3))]
    await (yields(rng, 4) if rng.random() < 0.5 else asyncio.sleep(rng.random() * 40))
    given_up = rng.random() < 0.5 and waiting and waiting[0]
    if given_up:
        given_up.cancel()
        await yields(rng, 3)
    t.cancel()
    await asyncio.wait([t], timeout=5)
    ctx.check(t.done() and t.cancelled(), "cancelling a pop at work does not end it as cancelled", task=t)
    if waiting:
        await asyncio.wait(waiting, timeout=5)
        ctx.check(all(w.done() for w in waiting), "the queue stays blocked after a pop at work was cancelled")
    got = []

    async def note(deltas):
        got.append(deltas[0].object.val)

    rest = list(range(1, n)) + [10 + i for i, w in enumerate(waiting) if not w.cancelled()]
    while len(got) < len(rest):
        p = asyncio.ensure_future(q.pop(note))
        await asyncio.wait([p], timeout=5)
        ctx.check(p.done(), "pending objects are not delivered after another pop was cancelled at work", got=got, want=rest)
        p.result()
        got = [v for v in got if v != seen[0]]  # whether the interrupted one is offered again is left open
    ctx.check(got == rest, "wrong objects delivered after a pop was cancelled at work", got=got, want=rest)
    ctx.count("interrupted_pops")
    ctx.rec(n, len(waiting))
    ctx.nontrivial = n > 1 or bool(waiting)


async def mass(ctx):
    """Thousands of changes of one key and thousands of keys."""
    rng = ctx.rng
    q = delta_fifo.DeltaFIFO(key_func)
    n = rng.choice([600, 1200, 2600])
    want = {}
    order = []
    for i in range(n):
        for k in ("hot", f"k{i}"):
            o = It(k, i)
            if k not in want:
                order.append(k)
                want[k] = []
            if k == "hot" and i % 7 == 3:
                await q.delete(o)
                want[k].append((DT.DELETED, o))
            elif i % 3:
                await q.update(o)
                want[k].append((DT.UPDATED, o))
            else:
                await q.add(o)
                want[k].append((DT.ADDED, o))
    ctx.check(set(q.list_keys()) == set(order), "pending keys are missing", got=len(q.list_keys()), want=len(order))
    for k in order:
        got = []

        async def process(d):
            got.append(list(d))

        await asyncio.wait_for(q.pop(process), 1)
        ctx.count("pops")
        ctx.check(len(got) == 1 and [(d.type, d.object) for d in got[0]] == want[k], "a key's changes are not delivered once and in order", key=k, got=len(got[0]), want=len(want[k]))
    ctx.check(not q.list_keys(), "keys are left over")
    ctx.rec("mass", n)
    ctx.nontrivial = True


SCENARIOS = {"mass": mass, "surface": surface, "interrupted": interrupted, "sequential": sequential, "concurrent": concurrent, "stress": stress, "wakeups": wakeups}
PLAN = {
    "quick": {"mass": 8, "interrupted": 300, "surface": 300, "sequential": 1500, "concurrent": 1500, "stress": 300, "wakeups": 1000},
    "thorough": {"mass": 200, "interrupted": 3000, "surface": 3000, "sequential": 30000, "concurrent": 40000, "stress": 6000, "wakeups": 20000},
}
