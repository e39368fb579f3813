"""C03: the plain FIFO."""
import asyncio

from aiok8s.cache import fifo, store

from rv.core import Inconclusive
from rv.util import History, failure, linearizable, yields

PROPERTY = "C03"
RULE = (
    "sequential: random histories of 40-150 operations against an exact model after every step; concurrent: 2-4 producers and "
    "1-3 consumers, the recorded history checked for linearizability against the same model, blocked pops judged at "
    "quiescence; stress: hundreds of operations with a conservation ledger. Mass: hundreds to thousands of keys waiting at once. Non-trivial: a pop after a supersession and a "
    "deletion (sequential), at least one pop called on an empty queue that was served later (concurrent), at least 20 pops (stress)."
)
REQUIRED_COUNTS = ("list_wakeups", "wakeup_races", "pops", "linearizability_checks", "requeues", "process_errors", "closed_pops", "blocked_then_woken", "quiescent_checks")
ASSUMPTIONS = [
    "the process function of the plain FIFO is a plain function and does not call back into the queue",
    "a key deleted while pending and added again may keep its old place (as documented in the statement)",
]


class It:
    def __init__(self, key, val, bad=False):
        self.key = key
        self.val = val
        self.bad = bad

    def __repr__(self):
        return f"{self.key}={self.val}"


class HollowIt(It):
    """False in a boolean context."""

    def __bool__(self):
        return False


class AlikeIt(It):
    """Equal to every other of its kind."""

    def __eq__(self, other):
        return isinstance(other, AlikeIt)

    def __hash__(self):
        return 0


def it_class(rng):
    return rng.choice([It, It, HollowIt, AlikeIt])


def key_func(o):
    if o.bad:
        raise ValueError("no key")
    return o.key


# model: (pending tuple of (k, v), tainted frozenset, closed)
INIT = ((), frozenset(), False)


def put(pending, k, v, overwrite=True):
    for i, (k2, _) in enumerate(pending):
        if k2 == k:
            return pending[:i] + ((k, v),) + pending[i + 1 :] if overwrite else pending
    return pending + ((k, v),)


NO = object()


def apply(state, op):
    pending, taint, closed = state
    kind = op[0]
    if kind in ("add", "update"):
        return (put(pending, op[1], op[2]), taint, closed), None
    if kind == "add_if":
        return (put(pending, op[1], op[2], False), taint, closed), None
    if kind == "delete":
        new = tuple(p for p in pending if p[0] != op[1])
        return (new, taint | {op[1]} if new != pending else taint, closed), None
    if kind == "replace":
        d = dict(op[1])
        return (tuple(d.items()), frozenset(), closed), None
    if kind == "resync":
        return state, None
    if kind == "close":
        return (pending, taint, True), None
    if kind == "list":
        return state, tuple(sorted(pending))
    if kind == "keys":
        return state, tuple(sorted(k for k, _ in pending))
    if kind == "get":
        return state, dict(pending).get(op[1])
    if kind == "pop":
        # op carries the observed result in op[1] (a mutable list filled in at the return)
        res = op[1][0]
        if res == "closed":
            return state, ("closed" if closed and not pending else NO)
        k, v, mode = res
        for i, p in enumerate(pending):
            if p == (k, v) and (i == 0 or k in taint):
                new = pending[:i] + pending[i + 1 :]
                if mode in ("requeue", "requeue_cause"):
                    new = put(new, k, v, False)
                return (new, taint, closed), res
        return state, NO
    raise AssertionError(kind)


async def do_pop(ctx, f, mode, cell):
    """Pop once with the given processing outcome; fills cell with the observed result."""
    seen = []
    cause = failure(ctx.rng, "processing")

    def process(item):
        seen.append(item)
        if mode == "requeue":
            raise fifo.RequeueError
        if mode == "requeue_cause":
            raise fifo.RequeueError from cause
        if mode == "fail":
            raise cause

    try:
        r = await f.pop(process)
    except fifo.FIFOClosedError:
        ctx.check(not seen, "pop handed out an item and then reported closed")
        ctx.count("closed_pops")
        cell.append("closed")
        return "closed"
    except fifo.ProcessError as e:
        ctx.check(mode in ("fail", "requeue_cause"), "pop reported a processing failure that did not happen", mode=mode)
        ctx.check(len(seen) == 1, "process was not called exactly once per pop", calls=len(seen))
        ctx.check(e.item is seen[0], "the processing failure does not carry the item", item=e.item)
        ctx.check(e.__cause__ is cause, "the processing failure does not carry its cause", cause=e.__cause__)
        ctx.count("process_errors")
    else:
        ctx.check(mode in ("ok", "requeue"), "pop swallowed a processing failure", mode=mode)
        ctx.check(len(seen) == 1, "process was not called exactly once per pop", calls=len(seen))
        ctx.check(r is seen[0], "pop returned something else than it processed")
    if mode.startswith("requeue"):
        ctx.count("requeues")
    ctx.count("pops")
    res = (seen[0].key, seen[0].val, mode)
    cell.append(res)
    return res


def step(ctx, state, op, result, what):
    state, want = apply(state, op)
    ctx.check(want is not NO and want == result, f"{what} gave a result the FIFO's contents do not allow", got=result, want=None if want is NO else want, contents=state[0], tainted=sorted(state[1]))
    return state


async def sequential(ctx):
    rng = ctx.rng
    cls = it_class(rng)
    f = fifo.FIFO(key_func)
    keys = [f"k{i}" for i in range(rng.randrange(1, 6))]
    state = INIT
    serial = 0
    kinds = set()

    def mk(k=None):
        nonlocal serial
        serial += 1
        return cls(k or rng.choice(keys), serial)

    for _ in range(rng.randrange(40, 150)):
        kind = rng.choice(["add", "add", "update", "add_if", "delete", "replace", "resync", "pop", "pop", "pop", "get", "bad"] + ["close"] * (rng.random() < 0.05))
        if kind in ("add", "update", "add_if"):
            o = mk()
            if o.key in dict(state[0]):
                kinds.add("supersede")
            op = (kind, o.key, o.val)
            await (f.add_if_not_present(o) if kind == "add_if" else getattr(f, kind)(o))
            res = None
        elif kind == "delete":
            o = mk()
            if o.key in dict(state[0]):
                kinds.add("delete")
            op, res = ("delete", o.key), await f.delete(o)
        elif kind == "replace":
            if rng.random() < 0.6:
                continue
            objs = [mk() for _ in range(rng.randrange(0, 5))]
            op, res = ("replace", tuple((o.key, o.val) for o in objs)), await f.replace(list(objs), "1")
        elif kind == "resync":
            op, res = ("resync",), await f.resync()
        elif kind == "close":
            op, res = ("close",), await f.close()
            ctx.check(f.is_closed(), "a closed queue does not report itself closed")
        elif kind == "get":
            k = rng.choice(keys)
            r = rng.choice([lambda: f.get_by_key(k), lambda: f.get(It(k, 0))])()
            op, res = ("get", k), (None if r is None else r.val)
        elif kind == "bad":
            o = It("x", 0, bad=True)
            call = rng.choice(
                [lambda: f.add(o), lambda: f.update(o), lambda: f.delete(o), lambda: f.replace([mk(), o], "1"), lambda: f.add_if_not_present(o), lambda: f.get(o)]
            )
            try:
                r = call()
                if asyncio.iscoroutine(r):
                    await r
            except store.StoreKeyError as e:
                ctx.check(e.obj is o, "store-key error without the offending object")
            else:
                ctx.fail("an object without a key was accepted")
            op, res = ("resync",), None
        else:
            cell = []
            mode = rng.choice(["ok", "ok", "ok", "requeue", "requeue_cause", "fail"])
            if state[0] or state[2]:
                res = await do_pop(ctx, f, mode, cell)
                op = ("pop", cell)
                if {"supersede", "delete"} <= kinds:
                    ctx.nontrivial = True
            else:
                t = asyncio.ensure_future(do_pop(ctx, f, mode, cell))
                await asyncio.sleep(rng.choice([0, 0.01, 5]))
                for _ in range(3):
                    await asyncio.sleep(0)
                ctx.check(not t.done(), "a pop on an empty open queue returned")
                if rng.random() < 0.5:
                    t.cancel()
                    await asyncio.gather(t, return_exceptions=True)
                    ctx.check(t.cancelled(), "cancelling a blocked pop did not cancel it")
                    continue
                how = rng.choice(["add", "add_if", "replace", "close"])
                o = mk()
                if how == "close":
                    if rng.random() < 0.7:
                        how = "add"
                if how == "close":
                    await f.close()
                    state = step(ctx, state, ("close",), None, "close")
                elif how == "add":
                    await f.add(o)
                    state = step(ctx, state, ("add", o.key, o.val), None, "add")
                elif how == "add_if":
                    await f.add_if_not_present(o)
                    state = step(ctx, state, ("add_if", o.key, o.val), None, "add")
                else:
                    await f.replace([o], "1")
                    state = step(ctx, state, ("replace", ((o.key, o.val),)), None, "replace")
                try:
                    res = await asyncio.wait_for(t, 1)
                except asyncio.TimeoutError:
                    ctx.fail(f"a blocked pop did not wake on {how}")
                ctx.count("blocked_then_woken")
                op = ("pop", cell)
        ctx.rec(op, res)
        state = step(ctx, state, op, res, kind)
        # contents
        want = dict(state[0])
        ctx.check(sorted((o.key, o.val) for o in f.list()) == sorted(want.items()), "list() differs from the pending items", got=f.list(), want=want)
        ctx.check(sorted(f.list_keys()) == sorted(want), "list_keys() differs from the pending keys", got=f.list_keys(), want=want)
        ctx.check(f.is_closed() == state[2], "is_closed() differs")
    # drain
    await f.close()
    state = step(ctx, state, ("close",), None, "close")
    for _ in range(len(state[0]) + 1):
        cell = []
        res = await asyncio.wait_for(do_pop(ctx, f, "ok", cell), 1)
        state = step(ctx, state, ("pop", cell), res, "drain")
    ctx.check(cell == ["closed"], "a closed and drained queue still handed something out")


async def concurrent(ctx):
    rng = ctx.rng
    cls = it_class(rng)
    f = fifo.FIFO(key_func)
    h = History()
    keys = ["x", "y", "z"][: rng.randrange(1, 4)]
    serial = 0
    blocked = 0

    def mk():
        nonlocal serial
        serial += 1
        return cls(rng.choice(keys), serial)

    async def producer(i):
        for _ in range(rng.randrange(1, 5)):
            await (yields(rng, 3) if rng.random() < 0.7 else asyncio.sleep(rng.random()))
            await produce(i)
            if popping and rng.random() < hasty:
                # a consumer gives up just as something was added
                if rng.random() < 0.3:
                    await asyncio.sleep(0)
                if popping:
                    rng.choice(popping).cancel()

    async def produce(i):
        kind = rng.choice(["add", "add", "update", "add_if", "delete", "replace", "list", "get", "resync"])
        o = mk()
        if kind in ("add", "update"):
            await h.call(i, (kind, o.key, o.val), lambda: getattr(f, kind)(o))
        elif kind == "add_if":
            await h.call(i, (kind, o.key, o.val), lambda: f.add_if_not_present(o))
        elif kind == "delete":
            await h.call(i, (kind, o.key), lambda: f.delete(o))
        elif kind == "replace":
            objs = [mk() for _ in range(rng.randrange(0, 4))]
            await h.call(i, (kind, tuple((o.key, o.val) for o in objs)), lambda: f.replace(objs, "1"))
        elif kind == "resync":
            await h.call(i, (kind,), f.resync)
        elif kind == "list":
            h.call_sync(i, (kind,), lambda: tuple(sorted((o.key, o.val) for o in f.list())))
        else:
            r = h.call_sync(i, (kind, o.key), lambda: (lambda r: None if r is None else r.val)(f.get_by_key(o.key)))

    popping = []
    hasty = rng.choice([0, 0.3, 1])
    staying = []

    async def consumer(i):
        nonlocal blocked
        while True:
            await (yields(rng, 3) if rng.random() < 0.7 else asyncio.sleep(rng.random()))
            mode = rng.choice(["ok", "ok", "ok", "fail", "requeue", "requeue_cause"])
            if requeues[0] > 4 and mode.startswith("requeue"):
                mode = "ok"
            if mode.startswith("requeue"):
                requeues[0] += 1
            cell = []
            empty = not f.list_keys()
            t = asyncio.ensure_future(h.call(i, ("pop", cell), lambda: do_pop(ctx, f, mode, cell)))
            popping.append(t)
            if rng.random() < 0.15:
                # an impatient consumer
                await asyncio.wait([t], timeout=rng.choice([0, 0.1, 0.5]))
                t.cancel()
            try:
                r = await t
            except asyncio.CancelledError:
                if not t.cancelled():
                    raise
                ctx.check(not cell, "a cancelled pop swallowed an item")
                ctx.count("cancelled_pops")
                h.ops[:] = [o for o in h.ops if o["op"][0] != "pop" or o["op"][1] is not cell]
                if len(staying) > 1 and rng.random() < 0.5:
                    staying.remove(i)
                    return
                continue
            finally:
                popping.remove(t)
            if empty:
                blocked += 1
                ctx.count("blocked_then_woken")
            if r == "closed":
                return

    requeues = [0]
    staying += range(10, 11 + rng.randrange(3))
    consumers = [asyncio.ensure_future(consumer(i)) for i in list(staying)]
    await asyncio.gather(*(producer(i) for i in range(rng.randrange(2, 5))))
    await asyncio.sleep(30)
    ctx.count("quiescent_checks")
    for c in consumers:
        if c.done():
            await c
    ctx.check(not f.list(), "items stay pending although consumers are waiting", pending=f.list())
    await h.call(99, ("close",), f.close)
    done, pending = await asyncio.wait(consumers, timeout=30)
    for c in consumers:
        if c.done():
            await c
    ctx.check(not pending, "a blocked pop did not wake on close")
    for o in h.ops:
        ctx.rec(o["who"], o["op"], o["call"], o["ret"], o["result"])
    ok = linearizable(h.ops, INIT, apply)
    if ok is None:
        raise Inconclusive("linearizability search gave up")
    ctx.count("linearizability_checks")
    ctx.check(ok, "concurrent FIFO history is not linearizable", ops=[(o["who"], o["op"], o["call"], o["ret"], o["result"]) for o in h.ops])
    ctx.nontrivial = blocked > 0


async def stress(ctx):
    """Many producers and consumers; ledger of every value."""
    rng = ctx.rng
    cls = it_class(rng)
    f = fifo.FIFO(key_func)
    keys = [f"k{i}" for i in range(rng.randrange(1, 30))]
    serial = 0
    added = {}
    popped = {}
    last_popped = {}
    deleted = set()

    async def producer(i):
        # each producer owns its keys, so a key's values are added in a known order
        nonlocal serial
        mine = keys[i::n]
        if not mine:
            return
        for _ in range(rng.randrange(10, 60)):
            await yields(rng, 3)
            k = rng.choice(mine)
            serial += 1
            if rng.random() < 0.1:
                await f.delete(It(k, 0))
                deleted.add(k)
            else:
                added[serial] = k
                await rng.choice([f.add, f.update])(cls(k, serial))

    def process(item):
        ctx.check(item.val not in popped, "a value was handed out twice", item=repr(item))
        ctx.check(added.get(item.val) == item.key, "a value was handed out that was never added", item=repr(item))
        ctx.check(last_popped.get(item.key, 0) < item.val, "an older value was handed out after a newer one of its key", item=repr(item))
        popped[item.val] = item.key
        last_popped[item.key] = item.val
        ctx.rec("pop", item.key, item.val)
        ctx.count("pops")

    async def consumer():
        try:
            while True:
                await yields(rng, 2)
                await f.pop(process)
        except fifo.FIFOClosedError:
            pass
        except fifo.ProcessError as e:
            raise e.__cause__

    n = rng.randrange(1, 6)
    consumers = [asyncio.ensure_future(consumer()) for _ in range(rng.randrange(1, 5))]
    prods = asyncio.gather(*(producer(i) for i in range(n)))
    await prods
    await f.close()
    await asyncio.gather(*consumers)
    ctx.check(not f.list(), "items left after draining a closed queue")
    latest = {}
    for v, k in added.items():
        latest[k] = v
    for k, v in latest.items():
        if k not in deleted:
            ctx.check(v in popped, "the latest value of a key was never handed out", key=k, value=v)
    ctx.nontrivial = len(popped) >= 20


async def wakeups(ctx):
    """Several blocked pops, some of which are cancelled just as items arrive: the others must get them."""
    rng = ctx.rng
    cls = it_class(rng)
    q = fifo.FIFO(key_func)
    got, sent = [], []

    pops = [asyncio.ensure_future(q.pop(lambda item: got.append(item.val))) for _ in range(rng.randrange(2, 6))]
    await asyncio.sleep(0.1)
    ctx.check(not any(t.done() for t in pops), "a pop on an empty open queue returned")
    if rng.random() < 0.2:
        # several keys at once must wake several
        n = rng.randrange(1, len(pops) + 2)
        await q.replace([cls(f"k{i}", i) for i in range(n)], "1")
        await asyncio.sleep(1)
        ctx.check(len(got) == min(n, len(pops)), "keys of a list stay pending although pops are waiting", listed=n, got=got, waiting=len(pops))
        ctx.count("list_wakeups")
        await q.close()
        await asyncio.gather(*pops, return_exceptions=True)
        return
    leave = rng.randrange(1, len(pops))
    add = rng.randrange(1, len(pops) - leave + 1)
    jobs = ["cancel"] * leave + ["add"] * add
    rng.shuffle(jobs)
    cancelled = []
    for job in jobs:
        if job == "add":
            sent.append(len(sent))
            o = cls(f"k{sent[-1]}", sent[-1])
            how = rng.choice(["add", "update", "add_if"])
            if how == "add_if":
                await q.add_if_not_present(o)
            else:
                await getattr(q, how)(o)
        else:
            waiting = [t for t in pops if not t.done() and t not in cancelled]
            if len(waiting) > len(sent) - len(got):
                # those that have waited longest are the ones being woken
                t = rng.choice(waiting[:2])
                cancelled.append(t)
                t.cancel()
        if rng.random() < 0.3:
            await asyncio.sleep(0)
    await asyncio.sleep(1)
    done = [t for t in pops if t.done() and not t.cancelled()]
    for t in done:
        t.result()
    ctx.rec(jobs, len(done))
    ctx.count("wakeup_races")
    ctx.check(len(done) == len(got) == min(len(sent), len(pops) - sum(t.cancelled() for t in pops)), "an item stays pending although a pop is waiting", sent=sent, got=got, cancelled=len(cancelled), waiting=len(pops) - len(done))
    ctx.nontrivial = bool(cancelled)
    await q.close()
    left = [t for t in pops if not t.done()]
    await asyncio.sleep(1)
    ctx.check(all(t.done() and isinstance(t.exception(), fifo.FIFOClosedError) for t in left), "a blocked pop did not wake on close")


async def mass(ctx):
    """Thousands of keys pending at once."""
    rng = ctx.rng
    f = fifo.FIFO(key_func)
    n = rng.choice([600, 1200, 2600])
    keys = list(range(n))
    rng.shuffle(keys)
    want = {}
    listed = rng.random() < 0.3
    if listed:
        await f.replace([It(str(k), "listed") for k in keys], "1")
        want = {str(k): "listed" for k in keys}
    for i, k in enumerate(keys):
        if not listed or rng.random() < 0.1:
            await f.add(It(str(k), i))
            want[str(k)] = i
        if rng.random() < 0.2:
            j = str(rng.choice(keys[: i + 1]))
            if rng.random() < 0.5:
                await f.update(It(j, ("again", i)))
                want[j] = ("again", i)
            else:
                await f.add_if_not_present(It(j, "late"))
    ctx.check(sorted(f.list_keys()) == sorted(want), "pending keys are missing", got=len(f.list_keys()), want=n)
    if rng.random() < 0.5:
        await f.resync()
    for k in keys:
        got = []
        await asyncio.wait_for(f.pop(got.append), 1)
        ctx.count("pops")
        ctx.check(len(got) == 1 and (got[0].key, got[0].val) == (str(k), want[str(k)]), "a crowd of keys does not come out in order with its latest values", got=got, want=(k, want[str(k)]))
    ctx.check(not f.list_keys(), "keys are left over")
    ctx.rec("mass", n, listed)
    ctx.nontrivial = True


SCENARIOS = {"mass": mass, "sequential": sequential, "concurrent": concurrent, "stress": stress, "wakeups": wakeups}
PLAN = {
    "quick": {"mass": 10, "sequential": 1500, "concurrent": 1500, "stress": 300, "wakeups": 1000},
    "thorough": {"mass": 200, "sequential": 30000, "concurrent": 40000, "stress": 6000, "wakeups": 20000},
}
