"""Shared workload and oracle helpers."""
import asyncio
import itertools


class OwnError(Exception):
    """An error of the application's own."""


FAILURES = [RuntimeError, OwnError, KeyError, IndexError, LookupError, ValueError, TypeError, AttributeError, AssertionError, NotImplementedError, asyncio.TimeoutError, asyncio.InvalidStateError, asyncio.QueueEmpty, OSError, ConnectionResetError, EOFError, StopAsyncIteration, ZeroDivisionError, ResourceWarning]


def failure(rng, msg="failed as told"):
    """Any error a user's function may raise."""
    return rng.choice(FAILURES)(msg)


class Meta:
    def __init__(self, namespace=None, name=None, uid=None, resource_version=None, labels=None):
        self.namespace = namespace
        self.name = name
        self.uid = uid
        self.resource_version = resource_version
        self.labels = labels

    annotations = creation_timestamp = deletion_timestamp = finalizers = generation = owner_references = None


class Obj:
    """A typed API object, as small as possible."""

    api_version = "v1"
    kind = "Obj"

    def __init__(self, namespace, name, rv=None, uid=None, labels=None):
        self.metadata = Meta(namespace, name, uid, rv, labels)

    def __repr__(self):
        return f"<{self.metadata.namespace}/{self.metadata.name}@{self.metadata.resource_version}>"


class Hollow(Obj):
    """An object that is false in a boolean context, as empty containers are."""

    def __bool__(self):
        return False


class Lookalike(Obj):
    """An object that equals every other of its kind."""

    def __eq__(self, other):
        return isinstance(other, Lookalike)

    def __hash__(self):
        return 0


def obj_class(rng):
    """How the objects of a case behave beyond being objects."""
    return rng.choice([Obj, Obj, Hollow, Lookalike])


class ListMeta:
    def __init__(self, rv):
        self.resource_version = rv


class ObjList:
    def __init__(self, items, rv):
        self.items = items
        self.metadata = ListMeta(rv)


def key_of(ns, name):
    return f"{ns}/{name}" if ns else name


async def yields(rng, most=3):
    """Suspend zero or more loop iterations (an environment choice)."""
    for _ in range(rng.randrange(most + 1)):
        await asyncio.sleep(0)


async def pause(rng, scale=0.05, p_time=0.3):
    """Suspend: nothing, a few iterations, or some virtual time."""
    r = rng.random()
    if r < p_time:
        await asyncio.sleep(rng.random() * scale)
    elif r < 0.8:
        for _ in range(rng.randrange(5)):
            await asyncio.sleep(0)


class History:
    """Concurrent history recorded at the client boundary: call before invoking, return after the reply."""

    def __init__(self):
        self.clock = itertools.count()
        self.ops = []

    async def call(self, who, op, fn):
        rec = {"who": who, "op": op, "call": next(self.clock), "ret": None, "result": None}
        self.ops.append(rec)
        result = fn()
        if asyncio.iscoroutine(result):
            result = await result
        rec["result"] = result
        rec["ret"] = next(self.clock)
        return result

    def call_sync(self, who, op, fn):
        rec = {"who": who, "op": op, "call": next(self.clock), "ret": None, "result": None}
        self.ops.append(rec)
        rec["result"] = fn()
        rec["ret"] = next(self.clock)
        return rec["result"]


def linearizable(ops, init, apply, norm=lambda op, r: r, limit=400_000):
    """Wing-Gong-Lowe search with memoization.  ops: dicts with call/ret/op/result.

    apply(state, op) -> (state, result); states must be hashable.  Returns True/False/None (gave up).
    Operations that never returned may take effect at any later time or never.
    """
    n = len(ops)
    inf = float("inf")
    calls = [o["call"] for o in ops]
    rets = [inf if o["ret"] is None else o["ret"] for o in ops]
    want = [None if o["ret"] is None else norm(o["op"], o["result"]) for o in ops]
    full = 0
    for i in range(n):
        if rets[i] != inf:
            full |= 1 << i
    seen = set()
    stack = [(0, init)]
    steps = 0
    while stack:
        mask, state = stack.pop()
        if mask & full == full:
            return True
        if (mask, state) in seen:
            continue
        seen.add((mask, state))
        steps += 1
        if steps > limit:
            return None
        # an op may go next if no other pending op returned before it was called
        first_ret = min(rets[i] for i in range(n) if not mask >> i & 1)
        for i in range(n):
            if mask >> i & 1 or calls[i] > first_ret:
                continue
            new_state, res = apply(state, ops[i]["op"])
            if rets[i] != inf and norm(ops[i]["op"], res) != want[i]:
                continue
            stack.append((mask | 1 << i, new_state))
    return False


def sync(fn):
    fn.sync = True
    return fn


def horizon(t):
    def deco(fn):
        fn.horizon = t
        return fn

    return deco
