"""A config-map store with a faulty network, locks on top of it, and electors with recorded callbacks (C30-C32)."""
import asyncio
import copy
import json
import random
from urllib.parse import urlsplit

from kubernetes_asyncio.client import api_client

from aiok8s.leaderelection import leaderelection, resourcelock

from rv.pods import Reply, fail
from rv.util import failure, yields
from rv.vloop import EPOCH

NS, NAME = "system", "the-lock"


class Lost(Exception):
    """The API cannot be reached."""


class Conflict(Exception):
    pass


class Missing(Exception):
    pass


KEY = resourcelock.LEADER_ELECTION_RECORD_ANNOTATION_KEY


class Store:
    """One config map with its versions; every applied write is reported."""

    def __init__(self):
        self.rv = 7
        self.cm = None
        self.on_write = None

    def raw(self):
        return None if self.cm is None else (self.cm["metadata"].get("annotations") or {}).get(KEY)

    def read(self):
        if self.cm is None:
            raise Missing
        return copy.deepcopy(self.cm)

    def _put(self, who, cm):
        old = self.cm
        cm = copy.deepcopy(cm)
        self.rv += 1
        cm["metadata"]["resourceVersion"] = str(self.rv)
        cm["metadata"].setdefault("uid", "u")
        self.cm = cm
        if self.on_write:
            self.on_write(who, old, cm)
        return copy.deepcopy(cm)

    def create(self, who, cm):
        if self.cm is not None:
            raise Conflict
        return self._put(who, cm)

    def replace(self, who, cm):
        if self.cm is None:
            raise Missing
        rv = cm["metadata"].get("resourceVersion")
        if rv is not None and rv != self.cm["metadata"]["resourceVersion"]:
            raise Conflict
        return self._put(who, cm)

    # changes by somebody else

    def edit(self, f):
        if self.cm is None:
            return
        cm = copy.deepcopy(self.cm)
        f(cm)
        self._put(None, cm)

    def init(self, record=None, annotations=None, data=None, labels=None):
        ann = dict(annotations or {})
        if record is not None:
            ann[KEY] = json.dumps(record)
        m = {"name": NAME, "namespace": NS}
        if ann or annotations is not None:
            m["annotations"] = ann
        if labels:
            m["labels"] = labels
        self._put(None, {"apiVersion": "v1", "kind": "ConfigMap", "metadata": m, **({"data": data} if data else {})})


class Net:
    """Requests take time, get lost, are applied late, or lose their replies; clients can be cut off."""

    def __init__(self, ctx, scale, faults=True):
        self.ctx = ctx
        self.rng = random.Random(ctx.rng.random())
        self.scale = scale  # a retry period
        self.faulty = faults
        self.cut = set()
        self.healed = asyncio.Event()
        self.p = {"slow": 0.3, "lost": 0.08, "reply_lost": 0.05, "hang": 0.5, "linger": 0.5}
        self.longest = 1.0

    def heal(self):
        self.cut.clear()
        self.healed.set()
        self.healed = asyncio.Event()

    def quiet(self):
        self.faulty = False
        self.heal()

    async def _trouble(self):
        """An answer that never comes, or an error after some time."""
        rng = self.rng
        self.ctx.count("lost_calls")
        if self.faulty and rng.random() < self.p["hang"]:
            self.ctx.count("hung_calls")
            await asyncio.wait([asyncio.ensure_future(self.healed.wait())], timeout=rng.random() * 40 * self.scale)
        else:
            await asyncio.sleep(rng.random() * self.scale)
        raise rng.choice([Lost, asyncio.TimeoutError, ConnectionResetError])()

    async def _delay(self):
        rng = self.rng
        if rng.random() < self.p["slow"]:
            if not self.faulty:
                await asyncio.sleep(rng.random() * 0.05 * self.scale)
            elif rng.random() < 0.2:
                await asyncio.sleep(rng.random() * rng.choice([2, 6, 12]) * self.scale * self.longest)
            else:
                await asyncio.sleep(rng.random() * 0.5 * self.scale)
        else:
            await yields(rng, 3)

    async def call(self, who, apply):
        rng = self.rng

        async def deliver():
            lose = self.faulty and rng.random() < self.p["lost"]
            lose_reply = self.faulty and rng.random() < self.p["reply_lost"]
            await self._delay()
            if who in self.cut or lose:
                await self._trouble()
            out = apply()
            await self._delay()
            if who in self.cut or lose_reply:
                self.ctx.count("lost_replies")
                await self._trouble()
            return out

        t = asyncio.ensure_future(deliver())
        try:
            return await asyncio.shield(t)
        except asyncio.CancelledError:
            if rng.random() < self.p["linger"]:
                self.ctx.count("lingering_calls")
                t.add_done_callback(lambda t: t.cancelled() or t.exception())
            else:
                t.cancel()
            raise


class FakeLock:
    """The lock interface straight on the store."""

    def __init__(self, store, net, who, identity):
        self.store, self.net, self.who, self._id = store, net, who, identity
        self.cm = None

    def identity(self):
        return self._id

    def describe(self):
        return "the lock"

    async def get(self):
        try:
            self.cm = await self.net.call(self.who, self.store.read)
        except Missing:
            return None, None
        raw = (self.cm["metadata"].get("annotations") or {}).get(KEY)
        return (json.loads(raw) if raw else {}), raw

    async def create(self, record):
        cm = {"metadata": {"annotations": {KEY: json.dumps(record)}}}
        self.cm = await self.net.call(self.who, lambda: self.store.create(self.who, cm))

    async def update(self, record):
        cm = copy.deepcopy(self.cm)
        cm["metadata"].setdefault("annotations", {})[KEY] = json.dumps(record)
        self.cm = await self.net.call(self.who, lambda: self.store.replace(self.who, cm))


class MapRest:
    """The HTTP layer of one client of the config-map API."""

    def __init__(self, ctx, store, net, who):
        self.ctx, self.store, self.net, self.who = ctx, store, net, who
        self.puts_without_version = 0
        self.fail_with = None  # status of the next calls
        self.calls = []

    async def close(self):
        pass

    async def request(self, method, url, query_params=None, headers=None, body=None, post_params=None, _preload_content=True, _request_timeout=None):
        method = method.upper()
        path = urlsplit(url).path
        self.calls.append((method, path))
        base = f"/api/v1/namespaces/{NS}/configmaps"
        body = json.loads(json.dumps(body)) if body is not None else None
        if method == "GET" and path == f"{base}/{NAME}":
            apply, ok = self.store.read, 200
        elif method == "POST" and path == base:
            apply, ok = (lambda: self.store.create(self.who, body)), 201
        elif method == "PUT" and path == f"{base}/{NAME}":
            apply, ok = (lambda: self.store.replace(self.who, body)), 200
            if "resourceVersion" not in body["metadata"]:
                self.puts_without_version += 1
        else:
            self.ctx.fail("an unexpected API call", method=method, path=path)
        if self.fail_with:
            await yields(self.net.rng, 2)
            fail(self.fail_with)
        try:
            js = await self.net.call(self.who, apply)
        except Missing:
            fail(404, "NotFound")
        except Conflict:
            fail(409, "Conflict")
        return Reply(ok, {"apiVersion": "v1", "kind": "ConfigMap", **js})

    def __getattr__(self, verb):
        if not verb.isupper():
            raise AttributeError(verb)

        async def call(url, **kw):
            return await self.request(verb, url, **kw)

        return call


def map_lock(ctx, store, net, who, identity):
    """The real config-map lock over its own client."""
    client = api_client.ApiClient()
    rest = MapRest(ctx, store, net, who)
    client.rest_client = rest
    lock = resourcelock.new(NS, NAME, resourcelock.ResourceLockConfig(identity=identity), client)
    return lock, rest


def canon(raw):
    return json.dumps(json.loads(raw), sort_keys=True) if raw else None


def holder(raw):
    return (json.loads(raw).get("holderIdentity") if raw else None) or None


class Spy:
    """Between an elector and its lock: what it knows, when it learnt it, and when it asks."""

    def __init__(self, arena, who, lock):
        self.a, self.who, self.lock = arena, who, lock
        self.known = None  # raw record last read or written
        self.holder = None
        self.since = None  # when this raw record was first read
        self.asked = None  # time of the current operation
        self.attempt = None  # time of the read it is based on
        self.basis = {}
        self.busy = False
        self.settled = True  # the holder is certain
        self.last_ok = None  # request time of the last successful write
        self.on_get = None

    def identity(self):
        return self.lock.identity()

    def describe(self):
        return self.lock.describe()

    def _learn(self, raw):
        raw = canon(raw)
        if raw != self.known or self.since is None:
            self.since = self.a.ctx.loop.time()
        self.known = raw
        self.holder = holder(raw)

    async def get(self):
        if self.on_get:
            self.on_get()
        self.busy = True
        self.asked = self.attempt = self.a.ctx.loop.time()
        try:
            record, raw = await self.lock.get()
        finally:
            self.busy = False
        self._learn(raw)
        self.settled = record is not None
        self.a.seen(self.who, self.holder)
        if self.holder is None and raw and self.a.snatch:
            self.a.snatch()
        return record, raw

    async def create(self, record):
        await self._write("create", record)

    async def update(self, record):
        await self._write("update", record)

    async def _write(self, op, record):
        self.busy = True
        self.asked = asked = self.a.ctx.loop.time()
        # a cancelled write may still be applied after the next one was asked for
        self.basis[canon(json.dumps(record))] = (self.known, self.since, asked, self.attempt)
        try:
            await getattr(self.lock, op)(record)
        finally:
            self.busy = False
        raw = canon(json.dumps(record))
        self.known, self.holder, self.since = raw, holder(raw), self.a.ctx.loop.time()
        self.settled = True
        self.last_ok = asked
        self.a.seen(self.who, self.holder, own=True)


class Elector:
    """One elector run with its callbacks."""

    def __init__(self, arena, i, identity=None, again=None):
        self.a = arena
        if again:
            self._run_again(again)
            return
        self.i = i
        self.who = f"{i}"
        self.id = identity or f"elector-{i}"
        ctx = arena.ctx
        if arena.real:
            self.inner, self.rest = map_lock(ctx, arena.store, arena.net, self.who, self.id)
        else:
            self.inner, self.rest = FakeLock(arena.store, arena.net, self.who, self.id), None
        self.spy = Spy(arena, self.who, self.inner)
        self.spy.on_get = self._on_get
        self.told = []
        self.base = 0  # how many it had been told of before this run
        self.observed = []  # holders it saw, with changes only
        self.seen_at = {}  # when it first saw each holder
        self.changes = []  # the leaders among them: (identity, whether it may go untold)
        self.body = arena.rng.choice(["forever", "forever", "returns", "raises", "slow_end"])
        self.release = arena.release(arena.rng)
        arena.spies[self.who] = self
        box = self.box = {"run": self}  # the latest run of this elector
        cfg = dict(
            lock=self.spy,
            callbacks=leaderelection.LeaderCallbacks(lambda: box["run"]._started(), lambda: box["run"]._stopped(), (lambda identity: box["run"]._new(identity)) if arena.tell else None),
            name=self.id,
            release_on_cancel=self.release,
        )
        if arena.times != (15, 10, 2) or arena.rng.random() < 0.5:
            cfg.update(lease_duration=arena.lease, renew_deadline=arena.renew, retry_period=arena.retry)
        self.le = leaderelection.LeaderElector(leaderelection.LeaderElectionConfig(**cfg))
        self._reset()

    def _reset(self):
        self.leading = False
        self.starts, self.stops = [], []
        self.task_state = None
        self.run = None
        self.why = None
        self.ended = None
        self.asked_to_end = False
        self.leading_over = True  # the leading task does nothing any more

    def _run_again(self, old):
        """The same elector is run once more."""
        self.a.ctx.count("runs_again")
        for name in ("who", "id", "inner", "rest", "spy", "told", "observed", "seen_at", "changes", "body", "release", "box", "le", "i"):
            setattr(self, name, getattr(old, name))
        if hasattr(old, "mark"):
            self.mark = old.mark
        # The last run may have been cancelled between seeing a leader and telling, or have seen it when it released the lock.
        self.base = len(self.told)
        self.changes = [(h, True) for h, _ in self.changes[-1:]]
        self.spy.on_get = self._on_get
        self.a.spies[self.who] = self
        self.box["run"] = self
        self._reset()

    def start(self):
        self.run = asyncio.ensure_future(self._run())
        return self

    def cancel(self):
        if not self.run.done():
            self.asked_to_end = True
            self.run.cancel()

    def judge_end(self):
        """However it went, run() returns when the lock is lost and ends as cancelled when cancelled."""
        ctx = self.a.ctx
        ctx.count("ends_judged")
        if self.asked_to_end:
            ctx.check(self.run.cancelled(), "an elector that was cancelled did not end as cancelled", who=self.who, why=self.why, error=None if self.run.cancelled() else repr(self.run.exception()))
        else:
            ctx.check(not self.run.cancelled() and self.run.exception() is None, "an elector that lost the lock did not just return", who=self.who, error="cancelled" if self.run.cancelled() else repr(self.run.exception()))
        self.judge_is_leader()

    async def _run(self):
        try:
            await self.le.run()
        finally:
            self.ended = self.a.ctx.loop.time()
            self.a.ctx.rec("ended", self.who)

    def _started(self):
        a, t = self.a, self.a.ctx.loop.time()
        a.ctx.check(not self.starts or self.stops, "leading started twice in one run", who=self.who)
        self.starts.append(t)
        self.leading = True
        a.started(self)
        return self._lead()

    async def _lead(self):
        self.task_state = "running"
        self.leading_over = False
        try:
            if self.body == "returns":
                await asyncio.sleep(self.a.retry)
                self.task_state = "done"
                return
            if self.body == "raises":
                await asyncio.sleep(self.a.retry)
                self.task_state = "done"
                raise failure(self.a.rng, "leading failed")
            await asyncio.sleep(1e9)
        except asyncio.CancelledError:
            self.task_state = "cancelled"
            if self.body == "slow_end":
                await asyncio.sleep(self.a.retry * 0.3)
            raise
        finally:
            self.leading_over = True

    def _stopped(self):
        t = self.a.ctx.loop.time()
        self.stops.append(t)
        was, self.leading = self.leading, False
        if was:
            self.a.stopped(self, t)

        async def cb():
            a = self.a
            if a.slow_stops and a.rng.random() < 0.3:
                a.ctx.count("slow_stop_callbacks")
                await asyncio.sleep(a.rng.random() * a.lease)
                a.ctx.check(self.task_state != "running", "the leading task runs on while the stop callback is at work", who=self.who)
            else:
                await yields(a.rng, 3)

        return cb()

    async def _new(self, identity):
        a = self.a
        a.ctx.count("leaders_told")
        a.ctx.check(identity in a.ids, "an elector was told of a leader that does not exist", told=identity)
        last = self.told[-1] if self.told else None
        # everything seen since the last report
        seen = self.observed[self.mark :] if hasattr(self, "mark") else self.observed
        a.ctx.check(identity in seen, "an elector was told of a leader it did not newly observe", who=self.who, told=identity, observed=seen[-5:], last=last)
        self.mark = max(i for i, h in enumerate(self.observed) if h == identity) + 1
        self.told.append(identity)

    def _on_get(self):
        """Before each attempt to acquire: reports and is_leader must match what it saw."""
        a = self.a
        self.judge_is_leader()
        if not self.leading and not self.stops and a.tell and self.observed:
            a.ctx.count("reports_judged")
            if len({h for h, _ in self.changes}) < len(self.changes):
                a.ctx.count("leaders_returned")
            at = {0}
            for h, optional in self.changes:
                at = {i + 1 for i in at if self.told[self.base :][i : i + 1] == [h]} | (at if optional else set())
            a.ctx.check(len(self.told) - self.base in at, "an elector was not told of each leader it observed once per change", who=self.who, told=self.told[-3:], observed=self.observed[-3:])

    def judge_is_leader(self):
        if self.spy.busy or not self.spy.settled:
            return
        a = self.a
        want = self.spy.holder == self.id
        a.ctx.count("is_leader_judged")
        if want:
            a.ctx.count("is_leader_true")
        a.ctx.check(bool(self.le.is_leader()) == want, "an elector does not report being leader exactly while it holds the last record it observed", who=self.who, holder=self.spy.holder)


class Arena:
    """Electors competing for one lock, and the monitors."""

    make = Elector

    def __init__(self, ctx, real=False, times=None, faults=True, release=None, tell=True, slow_stops=False):
        self.ctx = ctx
        self.rng = rng = random.Random(ctx.rng.random())
        self.real = real
        self.times = times or rng.choice([(15, 10, 2), (15, 10, 2), (15, 14.5, 2), (4, 3, 1), (60, 40, 5), (10, 9, 7), (1.5, 1, 0.25), (30, 29.9, 10)])
        self.lease, self.renew, self.retry = self.times
        self.store = Store()
        self.store.on_write = self._on_write
        self.net = Net(ctx, self.retry, faults)
        self.release = release or (lambda r: r.random() < 0.5)
        self.tell = tell
        self.slow_stops = slow_stops
        self.spies = {}
        self.electors = []
        self.ids = {"ghost"}
        self.writes = []  # (time, who, holder)
        self.leaders = []
        self.ghosts = 0
        self.snatch = None

    def elector(self, identity=None, again=None):
        e = self.make(self, len(self.electors), identity, again)
        self.electors.append(e)
        self.ids.add(e.id)
        return e

    def seen(self, who, h, own=False):
        e = self.spies[who]
        e.seen_at.setdefault(h, self.ctx.loop.time())
        if not e.observed or e.observed[-1] != h:
            e.observed.append(h)
            self.ctx.count("observed_changes")
            if h:
                # retaking a lock it just saw free need not be told as another change
                same = all(o for _, o in e.changes) and e.told[e.base - 1 : e.base] == [h]
                e.changes.append((h, same or own and bool(e.changes) and e.changes[-1][0] == h))

    def _on_write(self, who, old, new):
        ctx = self.ctx
        t = ctx.loop.time()
        raw = (new["metadata"].get("annotations") or {}).get(KEY)
        before = None if old is None else (old["metadata"].get("annotations") or {}).get(KEY)
        h, hb = holder(raw), holder(before)
        self.writes.append((t, who, h))
        self.existed = old is not None
        ctx.rec("write", who, h)
        if who is None:
            return
        e = self.spies[who]
        ctx.check(canon(raw) in e.spy.basis, "a record was written that no elector asked for", record=raw)
        known, since, asked, attempt = e.spy.basis[canon(raw)]
        ctx.count("writes_judged")
        ctx.check(known == canon(before), "a lock record was overwritten on the basis of a stale read", who=who, known=known, was=before)
        if getattr(ctx, "judge_records", False):
            self._judge_record(e, None if not before else json.loads(before), json.loads(raw), attempt, t)
        if self.real and old is not None:
            ctx.check(not e.rest.puts_without_version, "the lock was replaced without a version", who=who)
        if h is None:
            ctx.count("releases")
            ctx.check(hb in (e.id, None), "an elector released a lock held by another", who=who, holder=hb)
            ctx.check(e.leading_over, "an elector released the lock while its leading task was still at work", who=who)
            return
        ctx.check(h == e.id, "an elector wrote another holder", who=who, holder=h)
        if hb is not None and hb != h:
            ctx.count("takeovers")
            ctx.check(
                since is not None and asked >= since + self.lease - 1e-6,
                "a held lock was taken over although it was seen renewed within its lease",
                who=who, holder=hb, seen=since, asked=asked, lease=self.lease,
            )

    def _judge_record(self, e, old, new, asked, t):
        """What the record says about the leadership."""
        ctx = self.ctx
        n0 = (old or {}).get("leaderTransitions")
        n1 = new.get("leaderTransitions")
        if not new.get("holderIdentity"):
            ctx.count("release_records")
            ctx.check(n1 == (n0 or 0), "a release lost count of the leaders", before=old, after=new)
            return
        h = e.id
        ctx.count("leader_records")
        ctx.check(new["holderIdentity"] == h, "a record names another leader", record=new, leader=h)
        ctx.check(self.lease - 1 < new.get("leaseDurationSeconds", -1) <= self.lease, "a record tells another lease", record=new, lease=self.lease)
        lo, hi = EPOCH + asked - 1e-5, EPOCH + t + 1e-5
        ctx.check(lo <= new.get("renewTime", 0) <= hi, "a record tells another renewal time", record=new, asked=lo, written=hi)
        if old is not None and old.get("holderIdentity") == h:
            ctx.count("renewal_records")
            ctx.check(new.get("acquireTime") == old.get("acquireTime"), "a renewal changed when the lock was acquired", before=old, after=new)
            ctx.check(n1 == n0, "a renewal was counted as a new leader", before=old, after=new)
            ctx.check(new["renewTime"] >= old["renewTime"], "a renewal went back in time", before=old, after=new)
        else:
            ctx.check(lo <= new.get("acquireTime", 0) <= hi, "a record tells another time of acquiring", record=new, asked=lo, written=hi)
            if old is None:
                ctx.count("first_records")
                # a lock whose config map was there counts its first leader or not
                ctx.check(n1 == 0 or n1 == 1 and self.existed, "the first leader was miscounted", record=new)
            else:
                ctx.count("change_records")
                ctx.check(n1 == (n0 or 0) + 1, "a new leader was not counted once", before=old, after=new)

    def started(self, e):
        ctx = self.ctx
        ctx.count("leaderships")
        ctx.rec("leads", e.who)
        others = [o.who for o in self.electors if o.leading and o is not e]
        ctx.check(not others, "two electors lead at the same time", starting=e.who, leading=others)
        ctx.check(any(w == e.who for _, w, h in self.writes if h), "an elector leads without having written the lock", who=e.who)
        self.leaders.append(e)

    def stopped(self, e, t):
        ctx = self.ctx
        ctx.rec("stops", e.who)
        last = max(w for w, who, h in self.writes if who == e.who and h)
        ctx.count("stops_judged")
        ctx.check(t < last + self.lease, "an elector stopped leading only when its lease could be taken over", who=e.who, written=last, stopped=t, lease=self.lease)
        ok = e.spy.last_ok
        ctx.check(t <= ok + self.renew + 1e-4 * self.renew, "an elector led on although it could not renew within its renew deadline", who=e.who, renewed=ok, stopped=t, deadline=self.renew)

    def leader(self):
        return next((e for e in self.electors if e.leading), None)

    def ghost(self):
        self.ghosts += 1  # no two of its records are the same
        return {"holderIdentity": "ghost", "leaseDurationSeconds": int(self.lease), "renewTime": self.rng.choice(["2020-01-01T00:00:00Z", 1.7e9 + 10**6]), "acquireTime": 1.7e9, "leaderTransitions": 2 + self.ghosts}

    def initial(self):
        """Some state of the lock before anybody comes; returns what it is."""
        rng = self.rng
        what = rng.choice(["none", "none", "bare", "annotated", "ghost", "released"])
        if what == "bare":
            self.store.init()
        elif what == "annotated":
            self.store.init(annotations={"other": "x"}, data={"a": "b"}, labels={"l": "m"})
        elif what == "ghost":
            self.store.init(self.ghost())
        elif what == "released":
            self.store.init({"leaderTransitions": 5}, data={"a": "b"})
        return what
