"""A scripted lister-watcher and a recording store for reflector checks (C07, C08, C09, C15)."""
import asyncio
import random

from aiok8s.cache import fake_custom_store
from aiok8s.runtime import schema

from rv.util import Obj, ObjList, failure, yields


class ApiDown(Exception):
    pass


class _Gone(Exception):
    status = 410


FAILURES = [ApiDown, ApiDown, ConnectionRefusedError, ConnectionResetError, BrokenPipeError, asyncio.TimeoutError, OSError, EOFError, KeyError, ValueError, RuntimeError, _Gone]


class Other:
    """An object of another type, with proper metadata."""

    api_version = "v1"
    kind = "Other"

    def __init__(self, rv):
        self.metadata = Obj("a", "other", rv=rv).metadata


class Sub(Obj):
    """An object of a more special class than expected."""


class Bare:
    """Something without metadata."""


GVK_CORE = schema.GroupVersionKind("", "v1", "Thing")
GVK_GROUP = schema.GroupVersionKind("apps", "v1", "Thing")


class Form:
    """How objects look: typed, any, or dictionaries of a kind."""

    def __init__(self, name):
        self.name = name
        self.expected = {"typed": Obj, "any": None, "core": GVK_CORE, "group": GVK_GROUP}[name]
        self.dicts = name in ("core", "group")

    def obj(self, name, rv):
        deleting = rv[-1] in "37"  # waits for its finalizers
        if self.dicts:
            m = {"namespace": "a", "name": name, "uid": "u-" + name, "resourceVersion": rv, "generation": 1}
            if deleting:
                m.update(deletionTimestamp="2024-01-02T00:00:00Z", finalizers=["example.com/wait"])
            return {"apiVersion": "v1" if self.name == "core" else "apps/v1", "kind": "Thing", "metadata": m}
        o = (Sub if rv[-1] in "16" else Obj)("a", name, rv=rv, uid="u-" + name)
        o.metadata.generation = 1
        if deleting:
            o.metadata.deletion_timestamp = "2024-01-02T00:00:00Z"
            o.metadata.finalizers = ["example.com/wait"]
        return o

    def list(self, items, rv):
        if self.dicts:
            return {"metadata": {"resourceVersion": rv}, "items": items}
        return ObjList(items, rv)

    def foreign(self, rng, rv):
        """An object that is not of the expected type or has no metadata."""
        choices = []
        if self.name == "typed":
            choices += [lambda: Other(rv), lambda: {"apiVersion": "v1", "kind": "Obj", "metadata": {"name": "x", "resourceVersion": rv}}, self._none_meta]
        elif self.name == "any":
            choices += [lambda: {"kind": "Thing"}, Bare, self._none_meta, lambda: {"metadata": None}]
        else:
            mine = {"apiVersion": "v1" if self.name == "core" else "apps/v1", "kind": "Thing"}
            m = {"namespace": "a", "name": "x", "uid": "x", "resourceVersion": rv}
            choices += [
                lambda: {**mine, "kind": "Other", "metadata": m},
                lambda: {**mine, "apiVersion": "apps/v2", "metadata": m},
                lambda: {**mine, "apiVersion": "v1" if self.name == "group" else "apps/v1", "metadata": m},
                lambda: {**mine, "apiVersion": "other/v1", "metadata": m},
                lambda: dict(mine),
                lambda: {"metadata": m},
                lambda: Other(rv),
                lambda: {**mine, "metadata": None},
            ]
        return rng.choice(choices)()

    def _none_meta(self):
        o = Obj("a", "x", rv="1")
        o.metadata = None
        return o


def rv_of(o):
    try:
        return o["metadata"]["resourceVersion"] if isinstance(o, dict) else o.metadata.resource_version
    except (AttributeError, KeyError, TypeError):
        return None


class Watch:
    """One scripted watch.  steps: list of ('event', e) | ('pause', t) | ('yield', n); end: close | raise | hang."""

    def __init__(self, lw, steps, end):
        self.lw = lw
        self.steps = list(steps)
        self.end = end
        self.closed = False
        self.entered = False
        self.ended = None
        self.ended_at = None
        self.opened_at = lw.now()
        self.delivered = 0
        self._stop = asyncio.Event()

    def __aiter__(self):
        return self

    async def __aenter__(self):
        self.entered = True
        if self.end == "enter":
            self.closed = True
            self.ended = "raise"
            self.ended_at = self.lw.now()
            self.lw.on_end(self)
            raise ApiDown("could not start the stream")
        return self

    async def __aexit__(self, *exc):
        self._close()
        if self.lw.opts.get("p_exit_fail") and self.lw.rng.random() < self.lw.opts["p_exit_fail"] and self.ended:
            self.ended = "raise"
            self.lw.emit("exit_failed", self)
            raise ApiDown("closing the stream failed")

    def stop(self):
        self._close()
        return _Done()

    def _close(self):
        if not self.closed:
            self.closed = True
            self.lw.on_closed(self)
        self._stop.set()

    async def __anext__(self):
        while True:
            if self.closed:
                raise StopAsyncIteration
            if not self.steps:
                if self.end == "hang":
                    await self._stop.wait()
                    continue
                self.ended = self.end
                self.ended_at = self.lw.now()
                self.lw.on_end(self)
                if self.end == "raise":
                    raise self.lw.rng.choice(FAILURES)("stream broke")
                raise StopAsyncIteration
            kind, arg = self.steps[0]
            if kind == "pause":
                await asyncio.sleep(arg)
                self.steps.pop(0)
            elif kind == "yield":
                for _ in range(arg):
                    await asyncio.sleep(0)
                self.steps.pop(0)
            else:
                self.steps.pop(0)
                if self.closed:
                    raise StopAsyncIteration
                self.delivered += 1
                self.lw.on_event(self, arg)
                return arg


class _Done:
    def __await__(self):
        return
        yield


class ScriptedLW:
    """Each list and watch call is answered as a random plan says; after `budget` calls everything works and the watch stays open."""

    def __init__(self, ctx, form, budget, **opts):
        self.ctx = ctx
        self.rng = random.Random(ctx.rng.random())
        self.form = form
        self.budget = budget
        self.rv = 0
        self.opaque = ctx.rng.random() < 0.3
        self.opts = {
            "p_list_fail": 0.2,
            "p_watch_fail": 0.15,
            "ends": ["close", "close", "raise", "error", "hang_close"],
            "p_foreign": 0.15,
            "p_empty": 0.2,
            "slow": 0.5,
            "max_events": 8,
            "p_burst": 0,  # of a watch whose events come all at once
            "bookmarks": True,
            **opts,
        }
        self.watches = []
        self.calls = []  # (time, kind, details)
        self.received = []  # everything the reflector has been given, in order
        self.settled = asyncio.Event()
        self.last_failure = None
        self.listeners = []

    def now(self):
        return self.ctx.loop.time()

    def next_rv(self):
        self.rv += self.rng.randrange(1, 4)
        if self.opaque:  # versions are not numbers, let alone growing ones
            return f"{self.rv * 2654435761 % 99991:x}.{self.rv}"
        return str(self.rv)

    def emit(self, kind, *a):
        for f in self.listeners:
            f(kind, *a)

    def open_watches(self):
        return [w for w in self.watches if not w.closed]

    # -- what the reflector calls

    async def list(self, options):
        self.budget -= 1
        call = {"kind": "list", "at": self.now(), "options": dict(options), "ok": None}
        self.calls.append(call)
        self.ctx.rec("list", options.get("resource_version"))
        self.emit("list_called", call)
        rng = self.rng
        if rng.random() < self.opts["slow"]:
            await (asyncio.sleep(rng.random() * 2) if rng.random() < 0.5 else yields(rng, 3))
        if self.budget > 0 and rng.random() < self.opts["p_list_fail"]:
            call["ok"] = False
            call["done"] = self.now()
            self.ctx.rec("list failed")
            self.emit("list_failed", call)
            if rng.random() < 0.2:
                return object()  # not a list
            raise rng.choice(FAILURES)("list failed")
        n = rng.choice([0, 1, 2, 5]) if rng.random() < 0.999 else rng.choice([300, 1100, 2100])
        items = [self.form.obj(f"n{i}", self.next_rv()) for i in range(n)]
        if items and rng.random() < 0.1:
            items.append(rng.choice(items))
        rv = self.next_rv()
        call["ok"] = True
        call["done"] = self.now()
        call["rv"] = rv
        self.received.append(("list", items, rv))
        self.ctx.rec("listed", rv, n)
        self.emit("listed", call, list(items), rv)
        return self.form.list(items, rv)

    async def watch(self, options):
        self.budget -= 1
        call = {"kind": "watch", "at": self.now(), "options": dict(options), "ok": None}
        self.calls.append(call)
        self.ctx.rec("watch", options.get("resource_version"))
        self.emit("watch_called", call)
        rng = self.rng
        if rng.random() < self.opts["slow"]:
            await (asyncio.sleep(rng.random()) if rng.random() < 0.3 else yields(rng, 3))
        if self.budget > 0 and rng.random() < self.opts["p_watch_fail"]:
            call["ok"] = False
            call["done"] = self.now()
            self.ctx.rec("watch failed")
            self.emit("watch_failed", call)
            raise rng.choice(FAILURES)("watch failed")
        call["ok"] = True
        call["done"] = self.now()
        w = self.make_watch()
        call["watch"] = w
        self.watches.append(w)
        self.emit("watch_opened", call, w)
        return w

    def make_watch(self):
        rng, o = self.rng, self.opts
        end = rng.choice(o["ends"])
        n = 0 if rng.random() < o["p_empty"] else rng.randrange(1, o["max_events"] + 1)
        steps = []
        burst = rng.random() < o["p_burst"]
        if burst:
            n = rng.choice([12, 40, 150])
            self.ctx.count("bursts")
        for _ in range(n):
            r = 1 if burst else rng.random()
            if r < 0.25:
                steps.append(("pause", rng.random() * 2 * o["slow"]))
            elif r < 0.5:
                steps.append(("yield", rng.randrange(1, 5)))
            steps.append(("event", self.make_event()))
        if self.budget <= 0:
            end = "hang"
        if end == "error":
            steps.append(("event", {"type": "ERROR", "object": {"kind": "Status", "code": 410}}))
            if rng.random() < 0.5:
                # events after an error event must not count
                steps.append(("event", {"type": "ADDED", "object": self.form.obj("ghost", "999999")}))
            end = "hang"
        if end == "hang_close":
            steps.append(("pause", rng.random() * 30))
            end = "close"
        if end == "close" and rng.random() < 0.5:
            steps.append(("pause", rng.random() * 3))
        w = Watch(self, steps, end)
        return w

    def make_event(self):
        rng = self.rng
        if rng.random() < self.opts["p_foreign"]:
            return {"type": rng.choice(["ADDED", "MODIFIED", "DELETED"]), "object": self.form.foreign(rng, self.next_rv())}
        r = rng.random()
        o = self.form.obj(f"n{rng.randrange(6)}", self.next_rv())
        if r < 0.1 and self.opts["bookmarks"]:
            return {"type": "BOOKMARK", "object": o}
        if r < 0.13:
            return {"type": "GREETING", "object": o}
        return {"type": rng.choice(["ADDED", "MODIFIED", "MODIFIED", "DELETED"]), "object": o}

    # -- callbacks of the watches

    def on_event(self, w, e):
        self.received.append(("event", e, w))
        self.ctx.rec("event", e["type"], rv_of(e["object"]))
        self.emit("event", w, e)

    def on_end(self, w):
        self.ctx.rec("stream", w.ended)
        self.emit("ended", w)

    def on_closed(self, w):
        self.ctx.rec("watch closed")
        self.emit("closed", w)


def store_op_for(form, e):
    """Which store operation an event calls for, or None."""
    o = e["object"]
    if form.expected is Obj and not isinstance(o, Obj):
        return None
    if form.dicts and not (
        isinstance(o, dict)
        and o.get("kind") == "Thing"
        and o.get("apiVersion") == ("v1" if form.name == "core" else "apps/v1")
    ):
        return None
    if rv_of(o) is None:
        return None
    return {"ADDED": "add", "MODIFIED": "update", "DELETED": "delete"}.get(e["type"])


class RecordingStore:
    def __init__(self, ctx, p_fail=0.0, p_slow=0.3, resync_fail=0.0, resync_slow=0.0, max_sleep=1.0):
        self.ctx = ctx
        self.rng = random.Random(ctx.rng.random())
        self.p_fail = p_fail
        self.p_slow = p_slow
        self.max_sleep = max_sleep
        self.resync_fail = resync_fail
        self.resync_slow = resync_slow
        self.active = 0
        self.on_start = lambda op, arg, rv: None
        self.on_finish = lambda op, arg, ok: None
        self.calls = 0

    async def _op(self, op, arg, rv=None):
        rng = self.rng
        self.calls += 1
        self.active += 1
        self.on_start(op, arg, rv)
        ok = False
        try:
            r = rng.random()
            if r < self.p_slow:
                await asyncio.sleep(rng.random() * self.max_sleep)
            elif r < 0.7:
                await yields(rng, 3)
            if rng.random() < self.p_fail:
                self.ctx.count("store_failures")
                raise failure(rng, f"{op} failed")
            ok = True
        finally:
            self.active -= 1
            self.on_finish(op, arg, ok)

    async def add(self, obj):
        await self._op("add", obj)

    async def update(self, obj):
        await self._op("update", obj)

    async def delete(self, obj):
        await self._op("delete", obj)

    async def replace(self, items, rv):
        await self._op("replace", list(items), rv)

    async def resync(self):
        rng = self.rng
        self.on_start("resync", None, None)
        ok = False
        try:
            if rng.random() < self.resync_slow:
                await asyncio.sleep(rng.random() * 8)
            else:
                await yields(rng, 2)
            if rng.random() < self.resync_fail:
                raise failure(rng, "resync failed")
            ok = True
        finally:
            self.on_finish("resync", None, ok)

    def custom(self):
        """The same as a store made of plain functions."""

        def does(op):
            def f(arg=None, rv=None):
                self.calls += 1
                self.active += 1
                self.on_start(op, list(arg) if op == "replace" else arg, rv)
                ok = False
                try:
                    if self.rng.random() < self.p_fail:
                        self.ctx.count("store_failures")
                        raise failure(self.rng, f"{op} failed")
                    ok = True
                finally:
                    self.active -= 1
                    self.on_finish(op, arg, ok)

            return f

        return fake_custom_store.FakeCustomStore(
            add_func=does("add"), update_func=does("update"), delete_func=does("delete"), replace_func=does("replace"), resync_func=does("resync")
        )
