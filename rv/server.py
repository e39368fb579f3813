"""A fake API server with versions, faults and history, and recording event handlers."""
import asyncio
import bisect
import random

from aiok8s.cache import controller, delta_fifo, index, shared_informer

from rv.lw import GVK_CORE, ApiDown
from rv.util import Obj, ObjList, failure, key_of, yields


SNAKE = {
    "creationTimestamp": "creation_timestamp", "deletionTimestamp": "deletion_timestamp", "generation": "generation",
    "finalizers": "finalizers", "annotations": "annotations", "ownerReferences": "owner_references",
}


def rv_of(o):
    return unver(o["metadata"]["resourceVersion"] if isinstance(o, dict) else o.metadata.resource_version)


def unver(s):
    """The number of a version as clients see it."""
    return int(s.rpartition("-")[2])


def key(o):
    if isinstance(o, delta_fifo.DeletedFinalStateUnknown):
        return o.key
    m = o["metadata"] if isinstance(o, dict) else None
    return key_of(m.get("namespace"), m["name"]) if m else key_of(o.metadata.namespace, o.metadata.name)


def labels_of(o):
    return (o["metadata"].get("labels") if isinstance(o, dict) else o.metadata.labels) or {}


class Server:
    """Objects by key.  Every change gets the next version and goes to the log; lists are snapshots; watches follow the log."""

    def __init__(self, ctx, dicts=False, **opts):
        self.ctx = ctx
        self.rng = random.Random(ctx.rng.random())
        self.dicts = dicts
        self.expected = GVK_CORE if dicts else Obj
        self.rv = self.rng.choice([0, 5, 98])
        # versions are opaque to clients: neither numbers nor ordered
        self.ver = (lambda rv: f"{rv * 7919 % 9973:x}-{rv}") if self.rng.random() < 0.3 else str
        self.objs = {}  # key -> (ns, name, rv, labels, uid)
        self.log = []  # (rv, type, fields)
        self.compacted = self.rv
        self.hist = {}  # key -> [(rv, fields or None)]
        self.faulty = True
        self.opts = {"p_list_fail": 0.25, "p_watch_fail": 0.2, "p_break": 0.6, "latency": 0.3, "slow_call": 0.4, "slow_close": 0.3, "p_odd": 0.05, **opts}
        self.watches = []
        self.lists = 0
        self.ok_lists = []  # (time, rv, {key: rv}) as returned to the client
        self.calls = 0
        self._wake = asyncio.Event()
        self.uid = 0
        self.deleting = {}  # uid -> version from which on the object waits for its finalizers
        self.pages = {}  # continuation token -> (objects, version)
        self.gate = None  # when set, list calls wait for it

    # -- changes

    def render(self, fields):
        ns, name, rv, labels, uid = fields
        if self.dicts:
            m = {"name": name, "uid": uid, "resourceVersion": self.ver(rv), "labels": dict(labels), **self.particulars(rv, uid)}
            if ns:
                m["namespace"] = ns
            return {"apiVersion": "v1", "kind": "Thing", "metadata": m, "status": {"phase": "Running", "observed": rv}}
        o = Obj(ns, name, rv=self.ver(rv), uid=uid, labels=dict(labels))
        for k, v in self.particulars(rv, uid).items():
            setattr(o.metadata, SNAKE[k], v)
        return o

    def particulars(self, rv, uid):
        """What else real objects' metadata tell: most updates leave the generation, and deletions may be pending."""
        n = int(uid.rpartition("-")[2])
        out = {"creationTimestamp": "2024-01-01T00:00:00Z"}
        if n % 3:
            out["generation"] = 1 + rv // 10
        if rv >= self.deleting.get(uid, rv + 1):
            out.update(deletionTimestamp="2024-01-02T00:00:00Z", finalizers=["example.com/wait"])
        if n % 4 == 1:
            out["annotations"] = {"example.com/note": "the same"}
            out["ownerReferences"] = [{"apiVersion": "v1", "kind": "Thing", "name": "owner", "uid": "uid-0", "controller": True}]
        return out

    def _log(self, typ, fields):
        self.log.append((fields[2], typ, fields))
        self.ctx.rec("server", typ, key_of(fields[0], fields[1]), fields[2])
        self.poke()

    def put(self, ns, name, labels=None):
        k = key_of(ns, name)
        self.rv += self.rng.choice([1, 1, 2])
        old = self.objs.get(k)
        if old is None:
            self.uid += 1
        labels = labels if labels is not None else {"app": self.rng.choice(["x", "y", "z"]), "n": str(self.rng.randrange(3))}
        f = (ns, name, self.rv, labels, old[4] if old else f"uid-{self.uid}")
        if old and self.rng.random() < 0.1:
            self.deleting.setdefault(f[4], self.rv)
        self.objs[k] = f
        self.hist.setdefault(k, []).append((self.rv, f))
        self._log("MODIFIED" if old else "ADDED", f)

    def remove(self, ns, name):
        k = key_of(ns, name)
        old = self.objs.pop(k, None)
        if old is None:
            return
        self.rv += 1
        f = (ns, name, self.rv, old[3], old[4])
        self.hist[k].append((self.rv, None))
        self._log("DELETED", f)

    def poke(self):
        """Let the open watches look again."""
        self._wake.set()
        self._wake = asyncio.Event()

    def compact(self):
        self.compacted = self.rv

    def quiet(self):
        """No more faults; open watches stay open."""
        self.faulty = False
        for w in self.watches:
            w.plan = None

    def random_change(self, names, p_delete=0.3):
        rng = self.rng
        ns, name = rng.choice(names)
        if key_of(ns, name) in self.objs and rng.random() < p_delete:
            self.remove(ns, name)
        else:
            self.put(ns, name)

    # -- judging helpers

    def state(self):
        return {k: f[2] for k, f in self.objs.items()}

    def existed(self, k, rv):
        """The server had this version of the object at some time."""
        return any(v == rv and f is not None for v, f in self.hist.get(k, ()))

    def fields(self, k, rv):
        return next((f for v, f in self.hist.get(k, ()) if v == rv and f is not None), None)

    def deleted_after(self, k, rv):
        return any(v > rv and f is None for v, f in self.hist.get(k, ()))

    def open_watches(self):
        return [w for w in self.watches if not w.closed]

    # -- the API

    async def _slow(self):
        rng = self.rng
        if rng.random() < self.opts["slow_call"]:
            await (asyncio.sleep(rng.random()) if rng.random() < 0.5 else yields(rng, 4))

    async def list(self, options):
        token = options.get("_continue") or options.get("continue")
        if token:
            await self._slow()
            return self._page(*self.pages[token], int(options.get("limit") or 10**9))
        self.calls += 1
        self.lists += 1
        self.ctx.rec("list")
        if self.gate is not None:
            await self.gate.wait()
        await self._slow()
        if self.faulty and self.rng.random() < self.opts["p_list_fail"]:
            self.ctx.count("failed_lists")
            raise ApiDown("list failed")
        items = [self.render(f) for f in self.objs.values()]
        rv, state = self.rv, self.state()
        self.rng.shuffle(items)
        await self._slow()
        self.ok_lists.append((self.ctx.loop.time(), rv, state))
        self.ctx.count("lists")
        self.ctx.rec("listed", rv, len(items))
        if options.get("limit"):
            return self._page(items, rv, int(options["limit"]))
        return self._list(items, rv)

    def _list(self, items, rv, token=None):
        if self.dicts:
            return {"metadata": {"resourceVersion": self.ver(rv), **({"continue": token} if token else {})}, "items": items}
        out = ObjList(items, self.ver(rv))
        out.metadata._continue = token
        return out

    def _page(self, items, rv, limit):
        """Who asks for a limited list gets at most that many objects at a time, maybe fewer."""
        n = min(limit, self.rng.randrange(1, 4))
        token = None
        if items[n:]:
            token = f"continue-{len(self.pages)}"
            self.pages[token] = (items[n:], rv)
        return self._list(items[:n], rv, token)

    async def watch(self, options):
        self.calls += 1
        self.ctx.rec("watch", options.get("resource_version"))
        await self._slow()
        if self.faulty and self.rng.random() < self.opts["p_watch_fail"]:
            self.ctx.count("failed_watches")
            raise ApiDown("watch failed")
        w = ServerWatch(self, unver(options["resource_version"]), options.get("timeout_seconds"))
        self.watches.append(w)
        self.ctx.count("watches")
        return w


class ServerWatch:
    def __init__(self, server, rv, timeout):
        self.s = server
        self.rv = rv
        self.closed = False
        self.plan = None
        rng = server.rng
        self.expired = rv < server.compacted
        if server.faulty and rng.random() < server.opts["p_break"]:
            self.plan = (rng.choice(["close", "raise", "error"]), rng.choice([0, 1, 2, 5]), rng.random() * 10)
        self.opened = server.ctx.loop.time()
        self.deadline = self.opened + (timeout or 600)
        self.break_at = server.ctx.loop.time() + self.plan[2] if self.plan else None
        self.sent = 0
        self.scope = ""
        self.pos = bisect.bisect_right(server.log, rv, key=lambda e: e[0])
        self._stop = asyncio.Event()

    def __aiter__(self):
        return self

    async def __aenter__(self):
        return self

    async def __aexit__(self, *exc):
        await self._closing()

    async def _closing(self):
        # closing a connection takes a moment, and now and then fails after all
        rng = self.s.rng
        try:
            if rng.random() < self.s.opts["slow_close"]:
                self.s.ctx.count("slow_closes")
                await (asyncio.sleep(rng.random() * 0.3) if rng.random() < 0.5 else yields(rng, 4))
        finally:
            self._close()
        if self.s.faulty and rng.random() < 0.05:
            self.s.ctx.count("failed_closes")
            raise ApiDown("closing failed")

    def _close(self):
        self.closed = True
        self._stop.set()

    async def stop(self):
        await self._closing()

    async def __anext__(self):
        s = self.s
        loop = s.ctx.loop
        if self.closed:
            raise StopAsyncIteration
        if self.expired:
            self.expired = False
            s.ctx.count("expired_watches")
            self.plan = ("close", 0, 0)
            return {"type": "ERROR", "object": {"kind": "Status", "code": 410}}
        while True:
            if self.plan and (self.sent >= self.plan[1] and loop.time() >= self.break_at):
                how = self.plan[0]
                s.ctx.count("broken_watches")
                s.ctx.rec("stream", how)
                if how == "raise":
                    raise ApiDown("stream broke")
                if how == "error":
                    self.plan = ("close", 0, 0)
                    return {"type": "ERROR", "object": {"kind": "Status", "code": 500}}
                raise StopAsyncIteration
            if loop.time() >= self.deadline:
                s.ctx.count("timed_out_watches")
                raise StopAsyncIteration
            nxt = next((e for e in s.log[self.pos :] if e[0] > self.rv and key_of(*e[2][:2]).startswith(self.scope)), None)
            if nxt is not None:
                if s.rng.random() < s.opts["latency"]:
                    await (asyncio.sleep(s.rng.random() * 0.3) if s.rng.random() < 0.4 else yields(s.rng, 3))
                if self.closed:
                    raise StopAsyncIteration
                self.rv = nxt[0]
                self.pos = bisect.bisect_right(s.log, self.rv, key=lambda e: e[0])
                self.sent += 1
                s.ctx.rec("event", nxt[1], nxt[0])
                typ = nxt[1]
                if typ != "DELETED" and s.faulty and s.rng.random() < s.opts["p_odd"]:
                    # what is new to a watch need not be new to its client, and the other way round
                    typ = "MODIFIED" if typ == "ADDED" else "ADDED"
                    s.ctx.count("odd_event_types")
                return {"type": typ, "object": s.render(nxt[2])}
            until = min(self.deadline, self.break_at if self.plan and self.sent >= self.plan[1] and self.break_at > loop.time() else self.deadline)
            waits = [asyncio.ensure_future(self._stop.wait()), asyncio.ensure_future(s._wake.wait())]
            try:
                await asyncio.wait(waits, timeout=max(0, until - loop.time()), return_when=asyncio.FIRST_COMPLETED)
            finally:
                for t in waits:
                    t.cancel()
                await asyncio.gather(*waits, return_exceptions=True)
            if self.closed:
                raise StopAsyncIteration


class Alike:
    """A handler that is empty, equal to every other and not hashable, which must not matter."""

    __hash__ = None

    def __init__(self, h):
        self.on_add, self.on_update, self.on_delete = h.on_add, h.on_update, h.on_delete

    def __eq__(self, other):
        return isinstance(other, Alike)

    def __len__(self):
        return 0


def disguise(h):
    """The handler as a user would pass it to an informer."""
    r = h.rng.random()
    if r < 0.5:
        return h
    if r < 0.75:
        return controller.ResourceEventHandlerFuncs(h.on_add, h.on_update, h.on_delete)
    return Alike(h)


class Handler:
    """Records its notifications and judges that each object's history is legal."""

    def __init__(self, ctx, name, server, cache=None, mode="fast", period=None, allow_resync=True, judge=True):
        self.ctx = ctx
        self.rng = random.Random(ctx.rng.random())
        self.name = name
        self.server = server
        self.cache = cache
        self.mode = mode
        self.period = period
        self.allow_resync = allow_resync
        self.judge = judge
        self.state = {}  # key -> version last told
        self.top = {}  # key -> highest version ever told
        self.seq = []  # (kind, key, rv) of changes
        self.resyncs = {}  # key -> [times]
        self.times = []
        self.busy = False
        self.block = asyncio.Event()
        self.blocked = False
        self.lost = set()  # keys with a notification this handler failed to handle
        self.raised = 0
        self.closed = False  # set when no call may come any more
        self.on_call = None
        self.poll = None
        self.slowness = 2

    async def on_add(self, obj):
        await self._call("add", None, obj)

    async def on_update(self, old, new):
        await self._call("update", old, new)

    async def on_delete(self, obj):
        await self._call("delete", obj, None)

    async def _call(self, kind, old, new):
        ctx = self.ctx
        if not self.judge:
            ctx.count("notifications")
            if self.poll:
                self.poll()
            return await self._behave(None)
        ctx.check(not self.closed, "a handler was called after its informer had stopped", handler=self.name)
        ctx.check(not self.busy, "a handler got a notification while still handling one", handler=self.name)
        self.busy = True
        try:
            ctx.count("notifications")
            k = key(new if new is not None else old)
            have = self.state.get(k)
            w = {"handler": self.name, "key": k, "known": have}
            if kind == "add":
                v = rv_of(new)
                ctx.check(have is None, "an add for an object the handler already has", version=v, **w)
                ctx.check(v > self.top.get(k, -1), "an add with a version already told", version=v, **w)
                self.state[k] = v
                self.seq.append(("add", k, v))
            elif kind == "update":
                v, o = rv_of(new), rv_of(old)
                ctx.check(key(old) == key(new), "an update whose old object is another one", **w)
                ctx.check(have is not None, "an update for an object the handler does not have", version=v, **w)
                ctx.check(o == have, "an update whose old object is not the one last told", old=o, **w)
                ctx.check(v >= o, "a version went backwards", old=o, new=v, **w)
                if v == o:
                    ctx.count("resync_updates")
                    ctx.check(self.allow_resync, "a handler that asked for no resyncs got a resync update", version=v, **w)
                    self.resyncs.setdefault(k, []).append(ctx.loop.time())
                else:
                    self.seq.append(("update", k, v))
                self.state[k] = v
            else:
                tomb = isinstance(old, delta_fifo.DeletedFinalStateUnknown)
                obj = old.obj if tomb else old
                ctx.check(have is not None, "a delete for an object the handler does not have", **w)
                if tomb:
                    ctx.count("tombstones")
                    ctx.check(obj is not None, "a deletion found by a relist does not carry the last known object", **w)
                v = rv_of(obj)
                ctx.check(key(obj) == k, "a delete carries another object", **w)
                if tomb:
                    ctx.check(v == have, "a tombstone does not carry the last known state", version=v, **w)
                else:
                    ctx.check(v >= have, "a version went backwards", new=v, **w)
                del self.state[k]
                self.seq.append(("delete", k, None))
                v = max(v, have)
            ctx.rec("told", self.name, kind, k, v)
            if kind != "delete":
                f = self.server.fields(k, v)
                ctx.check(f is not None, "a handler was told of a version the server never had", version=v, **w)
                ctx.check(dict(f[3]) == dict(labels_of(new)), "a handler was told of contents this version never had", version=v, **w)
            self.top[k] = max(self.top.get(k, -1), v)
            self.times.append(ctx.loop.time())
            if self.cache is not None:
                c = self.cache.get_by_key(k)
                cv = rv_of(c) if c is not None else None
                ctx.count("freshness_checks")
                if kind == "delete":
                    ctx.check(cv is None or cv > v, "a handler was told of a deletion the cache does not show", cached=cv, **w)
                elif cv is None:
                    ctx.check(self.server.deleted_after(k, v), "a handler was told of a version the cache does not hold", version=v, **w)
                else:
                    ctx.check(cv >= v, "a handler was told of a version newer than the cache's", version=v, cached=cv, **w)
            if self.on_call:
                await self.on_call(kind, k, v)
            await self._behave(k)
        finally:
            self.busy = False

    async def _behave(self, k):
        rng, mode = self.rng, self.mode
        if mode == "slow":
            await asyncio.sleep(rng.random() * self.slowness)
        elif mode == "yield":
            await yields(rng, 4)
        elif mode == "block":
            if not self.block.is_set():
                self.blocked = True
                await self.block.wait()
                self.blocked = False
        elif mode == "raise" and rng.random() < 0.3:
            if rng.random() < 0.5:
                await yields(rng, 3)
            self.raised += 1
            self.ctx.count("handler_failures")
            raise failure(rng, "handler failed")


def by_app(o):
    v = labels_of(o).get("app")
    return [v] if v else []


def by_n(o):
    lab = labels_of(o)
    return [lab[x] for x in ("n", "app") if x in lab]


INDEXERS = {"app": by_app, "n": by_n}


def indexers():
    return index.Indexers(INDEXERS)


async def informer_with_indexers(ctx, srv, default):
    """A shared informer whose indexes are given at once, later, or in part."""
    rng = ctx.rng
    how = rng.choice(["given", "given", "added", "mixed"])
    if how == "given":
        return shared_informer.new_shared_index_informer(srv, srv.expected, default, indexers())
    first, second = sorted(INDEXERS) if rng.random() < 0.5 else sorted(INDEXERS, reverse=True)
    if how == "mixed":
        inf = shared_informer.new_shared_index_informer(srv, srv.expected, default, index.Indexers({first: INDEXERS[first]}))
        await inf.add_indexers(index.Indexers({second: INDEXERS[second]}))
    else:
        inf = shared_informer.new_shared_index_informer(srv, srv.expected, default, index.Indexers())
        if rng.random() < 0.5:
            await inf.add_indexers(indexers())
        else:
            await inf.add_indexers(index.Indexers({first: INDEXERS[first]}))
            await inf.add_indexers(index.Indexers({second: INDEXERS[second]}))
    ctx.count("indexers_added_to_informer")
    return inf


async def late_indexers_refused(ctx, inf, cache):
    """An informer that holds objects takes no further index, and is none the worse."""
    if not cache.list():
        return
    ctx.count("late_indexers")
    try:
        await inf.add_indexers(index.Indexers({"late": by_app}))
    except Exception:
        pass
    else:
        ctx.fail("an index was added to an informer whose cache holds objects")
    ctx.check(set(cache.get_indexers()) == set(INDEXERS), "the refused index is registered all the same", got=sorted(cache.get_indexers()))


async def check_indexes(ctx, cache):
    objs = cache.list()
    for name, f in INDEXERS.items():
        want = {}
        for o in objs:
            for v in f(o):
                want.setdefault(v, set()).add(key(o))
        ctx.count("index_checks")
        ctx.check({v for v in await cache.list_index_func_values(name)} == set(want), "the values of an index disagree with the cached objects", index=name)
        for v, keys in want.items():
            got = sorted(key(o) for o in await cache.by_index(name, v))
            ctx.check(got == sorted(keys), "an index disagrees with the cached objects", index=name, value=v, got=got, want=sorted(keys))


def cache_state(cache):
    out = {}
    for o in cache.list():
        out[key(o)] = rv_of(o)
    return out


class CacheMonitor:
    """Samples the cache: every object is one the server had, versions never go back."""

    def __init__(self, ctx, server, cache):
        self.ctx, self.server, self.cache = ctx, server, cache
        self.top = {}

    def sample(self):
        ctx = self.ctx
        ctx.count("cache_samples")
        for o in self.cache.list():
            k, v = key(o), rv_of(o)
            ctx.check(self.server.existed(k, v), "the cache holds a version the server never had", key=k, version=v)
            ctx.check(v >= self.top.get(k, -1), "a cached version went backwards", key=k, version=v, before=self.top.get(k))
            self.top[k] = v

    async def run(self, rng):
        while True:
            await (asyncio.sleep(rng.random() * rng.choice([0.1, 1, 10])) if rng.random() < 0.7 else yields(rng, 5))
            self.sample()


def still_running(ctx, task):
    if task.done():
        ctx.check(False, "a running component ended by itself", exc=repr(task.cancelled() or task.exception()))


async def stop(ctx, task, within=1.0):
    """Cancels a running component and judges that it ends as cancelled."""
    still_running(ctx, task)
    task.cancel()
    await asyncio.wait([task], timeout=within)
    ctx.check(task.done(), "cancelling does not make the run return promptly")
    ctx.check(task.cancelled(), "a cancelled run does not end with the cancellation", got=repr(None if task.cancelled() else task.exception()))
