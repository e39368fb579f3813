"""A manager with controllers over the fake pod API, and its recorder."""
import asyncio
import random

from kubernetes_asyncio.client import models

from aiok8s.cache import delta_fifo
from aiok8s.controller import builder, controller, handler, manager, reconcile, source

from rv import server as S
from rv.pods import PodApi
from rv.util import key_of, yields

Pod = models.V1Pod


def req_key(req):
    n = req.namespaced_name
    return key_of(n.namespace, n.name)


class Recorder:
    """Events the controller accepted or rejected, and reconciles, in one order."""

    def __init__(self, ctx):
        self.ctx = ctx
        self.n = 0
        self.events = []  # (seq, time, kind, key, version, accepted)
        self.starts = []  # (seq, time, key, seen)
        self.ends = []
        self.active = {}
        self.most = 0

    def seq(self):
        self.n += 1
        return self.n


class Predicate:
    """Rejects some events; records every decision of a chain."""

    def __init__(self, rec, policy=lambda kind, key, v: True, last=True):
        self.rec, self.policy, self.last = rec, policy, last

    def _decide(self, kind, obj, meta):
        k, v = S.key(obj), S.rv_of(obj)
        self.rec.ctx.check(meta is not None and meta.name == obj.metadata.name and meta.namespace == obj.metadata.namespace, "an event's metadata are not its object's", kind=kind)
        ok = self.policy(kind, k, v)
        if self.last or not ok:
            self.rec.events.append((self.rec.seq(), self.rec.ctx.loop.time(), kind, k, v, ok))
            self.rec.ctx.rec("event", kind, k, v, ok)
            self.rec.ctx.count("events_accepted" if ok else "events_rejected")
        return ok

    def create(self, e):
        return self._decide("create", e.object, e.meta)

    def update(self, e):
        self.rec.ctx.check(S.key(e.object_old) == S.key(e.object_new), "an update event is about two objects")
        return self._decide("update", e.object_new, e.meta_new)

    def delete(self, e):
        self.rec.ctx.check(not isinstance(e.object, delta_fifo.DeletedFinalStateUnknown), "a delete event carries a tombstone instead of an object")
        return self._decide("delete", e.object, e.meta)


class Reconciler:
    """Reads its object, takes some time, and ends as told."""

    def __init__(self, rec, srv, cache, mode="fast", workers=1):
        self.rec, self.srv, self.cache = rec, srv, cache
        self.rng = random.Random(rec.ctx.rng.random())
        self.mode = mode
        self.workers = workers
        self.outcome = None  # key -> Result or exception to raise
        self.on_start = None
        self.closed = False
        self.cleanup = 0  # how long it may go on once cancelled

    async def reconcile(self, req):
        rec, ctx = self.rec, self.rec.ctx
        k = req_key(req)
        ctx.check(not self.closed, "a reconcile started after the manager had stopped", key=k)
        ctx.check(k in self.srv.hist, "a reconcile was requested for a name that never existed", key=k)
        ctx.check(not rec.active.get(k), "two reconciles of one object overlap", key=k)
        rec.active[k] = True
        rec.most = max(rec.most, sum(rec.active.values()))
        ctx.check(sum(rec.active.values()) <= self.workers, "more reconciles run at once than there are workers", running=sum(rec.active.values()), workers=self.workers)
        ctx.count("reconciles")
        start = rec.seq()
        t0 = ctx.loop.time()
        try:
            try:
                seen = await self.cache.get(req.namespaced_name, Pod)
                ctx.check(isinstance(seen, Pod) and S.key(seen) == k, "a cached read returned another object", key=k, got=repr(seen)[:200])
                seen = S.rv_of(seen)
            except KeyError:
                seen = None
            rec.starts.append((start, t0, k, seen))
            ctx.rec("reconcile", k, seen)
            if self.on_start:
                self.on_start(k, seen)
            rng = self.rng
            if self.mode == "yield":
                await yields(rng, 5)
            elif self.mode == "slow":
                await (asyncio.sleep(rng.random() * 2) if rng.random() < 0.7 else yields(rng, 3))
            elif self.mode == "hang":
                await asyncio.sleep(1e6)
            out = self.outcome(k) if self.outcome else reconcile.Result()
            if isinstance(out, BaseException):
                raise out
            return out
        except asyncio.CancelledError:
            if self.cleanup and self.rng.random() < 0.6:
                ctx.count("cleanups")
                await asyncio.sleep(self.rng.random() * self.cleanup)
            raise
        finally:
            rec.active[k] = False
            rec.ends.append((rec.seq(), ctx.loop.time(), k))


async def build(ctx, srv, preds=None, mode="fast", workers=1, mgr=None):
    """(manager, recorder, reconciler); with a recording predicate unless built by the builder."""
    rec = Recorder(ctx)
    mgr = mgr or manager.new()
    r = Reconciler(rec, srv, mgr.get_cache(), mode, workers)
    if preds is None:
        await builder.build_controller(mgr, r, api_type=Pod)
        r.workers = 1
    else:
        c = controller.new(mgr, reconciler=r)
        c.max_concurrent_reconciles = workers
        await mgr.get_cache().get_informer(Pod)
        await c.watch(source.Kind(Pod), handler.EnqueueRequestForObject(), *preds(rec))
    return mgr, rec, r


def new_api(ctx, **opts):
    return PodApi(ctx, **opts)
