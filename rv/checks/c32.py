"""C32: the config-map lock stores and reads back records without lost updates."""
import asyncio
import copy
import json

from kubernetes_asyncio.client.exceptions import ApiException

from rv.election import KEY, NAME, NS, Lost, Missing, Net, Store, map_lock
from rv.util import yields

PROPERTY = "C32"
RULE = (
    "One to four real config-map locks over the real API client and a fake HTTP layer with delays, lost requests, lost replies and API errors work on one config map "
    "(absent, bare, annotated, or holding a record) while bystanders edit other annotations, labels, data and the record, or delete and recreate it. Records are random JSON objects. "
    "Every applied write is judged against the config map before it: exactly the given record under the annotation, everything else "
    "untouched, and the version unchanged since this lock last read or wrote it. Every answer of get is judged against the versions of the config map that existed during "
    "the call. Updates on a stale version must fail, on a fresh one succeed; injected errors must reach the caller as they are and leave the next calls working. "
    "Non-trivial: a refused stale update and an applied one."
)
REQUIRED_COUNTS = ("gets", "gets_absent", "gets_without_record", "gets_of_records", "creates", "updates", "stale_updates", "writes_judged", "create_conflicts", "injected_errors", "usable_after_error", "uninitialized_updates", "races", "deleted", "updates_kept_rest")
ASSUMPTIONS = ["the API server refuses a replace whose resource version is not the current one"]


def value(rng, depth=0):
    x = rng.random()
    if x < 0.3:
        return rng.choice(["", "a", "elector-1", "zwölf ☃ \U0001f600", 'quo"ted\\', "2020-01-01T00:00:00Z", "null", "\n\t"])
    if x < 0.5:
        return rng.choice([0, 1, -1, 15, 2**53 + 1, 10**20])
    if x < 0.65:
        return rng.choice([0.5, 1.7e9 + 0.123456, 1e300, -0.1])
    if x < 0.8 or depth > 1:
        return rng.choice([True, False, None])
    if x < 0.9:
        return [value(rng, depth + 1) for _ in range(rng.randrange(3))]
    return {rng.choice("abc"): value(rng, depth + 1) for _ in range(rng.randrange(3))}


def record(rng, i):
    if rng.random() < 0.6:
        return {"holderIdentity": f"e{i}", "leaseDurationSeconds": 15, "renewTime": rng.random() * 2e9, "acquireTime": rng.random() * 2e9, "leaderTransitions": rng.randrange(5)}
    return {rng.choice(["holderIdentity", "leaderTransitions", "x", "", "schlüssel"]): value(rng) for _ in range(rng.randrange(4))}


async def maps(ctx):
    rng = ctx.rng
    store, net = Store(), Net(ctx, 1.0, faults=rng.random() < 0.5)
    net.p.update(hang=0, lost=rng.choice([0, 0.1]), reply_lost=rng.choice([0, 0.1]))
    history = []  # every state the config map was in
    pending = {}  # who -> record being written
    basis = {}  # who -> version last read or written, None if unknown
    applied = set()

    def rest(cm):
        cm = copy.deepcopy(cm)
        m = cm["metadata"]
        m.pop("resourceVersion", None)
        m["annotations"] = {k: v for k, v in (m.get("annotations") or {}).items() if k != KEY}
        return {k: v for k, v in cm.items() if k not in ("apiVersion", "kind") and v not in (None, {}, [])}

    def on_write(who, old, new):
        history.append(new)
        ctx.rec("write", who, KEY in (new["metadata"].get("annotations") or {}))
        if who is None:
            return
        ctx.count("writes_judged")
        raw = (new["metadata"].get("annotations") or {}).get(KEY)
        ctx.check(who in pending, "a config map was written without being asked for", who=who)
        want, op, seen = pending[who]
        ctx.check(isinstance(raw, str) and json.loads(raw) == want, "something else than the given record was written", wrote=raw, given=want)
        ctx.check(who not in applied, "a record was written twice", who=who)
        applied.add(who)
        if op == "update":
            ctx.check(old["metadata"]["resourceVersion"] == seen, "an update succeeded although the config map changed since it was last seen", who=who, was=old["metadata"]["resourceVersion"], seen=seen)
            ctx.check(rest(old) == rest(new), "an update changed the rest of the config map", before=rest(old), after=rest(new))
            if rest(old) != rest({"metadata": {"name": NAME, "namespace": NS, "uid": "u"}}):
                ctx.count("updates_kept_rest")
        else:
            ctx.check(old is None, "a creation replaced a config map")
            ctx.check(new["metadata"].get("name") == NAME and new["metadata"].get("namespace", NS) == NS, "a config map was created elsewhere", metadata=new["metadata"])

    store.on_write = on_write
    what = rng.choice(["none", "none", "bare", "annotated", "record", "full"])
    if what == "bare":
        store.init()
    elif what == "annotated":
        store.init(annotations=rng.choice([{}, {"other": "x", "control-plane.alpha.kubernetes.io/leader2": "{}"}]), data={"a": "b"}, labels={"l": "m"})
    elif what == "record":
        store.init(record(rng, 9))
    elif what == "full":
        store.init(record(rng, 9), annotations={"other": "x"}, data={"a": "b", "c": ""}, labels={"l": "m"})
        store.edit(lambda cm: (cm["metadata"].update(finalizers=["f/g"], ownerReferences=[{"apiVersion": "v1", "kind": "X", "name": "x", "uid": "y"}]), cm.update(binaryData={"b": "AAEC"}, immutable=False)))
    history.append(store.cm)

    def delete():
        store.cm = None
        history.append(None)

    def bystander():
        x = rng.random()
        if store.cm is None:
            if x < 0.5:
                store.init(record(rng, 8) if rng.random() < 0.5 else None, data={"fresh": "1"})
        elif x < 0.15:
            ctx.count("deleted")
            delete()
        elif x < 0.3:
            store.edit(lambda cm: cm.setdefault("data", {}).update(x=str(rng.random())))
        elif x < 0.5:
            store.edit(lambda cm: cm["metadata"].update(annotations={**(cm["metadata"].get("annotations") or {}), "z": str(rng.random())}))
        elif x < 0.6:
            store.edit(lambda cm: cm["metadata"].setdefault("labels", {}).update(y="z"))
        elif x < 0.7:
            # the annotations, or only the record, go away
            if rng.random() < 0.5:
                store.edit(lambda cm: cm["metadata"].pop("annotations", None))
            else:
                store.edit(lambda cm: (cm["metadata"].get("annotations") or {}).pop(KEY, None))
        else:
            r = json.dumps(record(rng, 8))
            store.edit(lambda cm: cm["metadata"].update(annotations={**(cm["metadata"].get("annotations") or {}), KEY: r}))

    async def client(i):
        who = f"{i}"
        ident = f"e{i}"
        lock, http = map_lock(ctx, store, net, who, ident)
        ctx.check(lock.identity() == ident and isinstance(lock.describe(), str) and NAME in lock.describe(), "a lock does not know who and what it is", identity=lock.identity(), describe=lock.describe())

        async def get():
            lo = len(history) - 1
            got = await lock.get()
            ctx.count("gets")
            states = history[lo:]
            rec, raw = got
            ok = []
            for cm in states:
                want = None if cm is None else (cm["metadata"].get("annotations") or {}).get(KEY)
                if cm is None:
                    if rec is None and not raw:
                        ok.append(cm)
                elif want is None:
                    if not rec and not raw:
                        ok.append(cm)
                elif raw == want and rec == json.loads(want) and type(rec) is dict:
                    ok.append(cm)
            ctx.rec("got", who, rec)
            ctx.check(ok, "a read did not return the record that was there", got=got, states=[None if s is None else s["metadata"] for s in states])
            ctx.count("gets_absent" if ok[-1] is None else "gets_of_records" if KEY in (ok[-1]["metadata"].get("annotations") or {}) else "gets_without_record")
            return ok

        async def op():
            x = rng.random()
            if x < 0.45:
                await get()
                return
            rec = record(rng, i)
            given = copy.deepcopy(rec)
            kind = "update" if x < 0.85 else "create"
            if kind == "update" and basis.get(who) is None:
                try:
                    await lock.update(rec)
                except Exception:
                    ctx.count("uninitialized_updates")
                else:
                    ctx.fail("an update without a read succeeded")
                return
            pending[who] = (given, kind, basis.get(who))
            applied.discard(who)
            stale = kind == "update" and (store.cm is None or store.cm["metadata"]["resourceVersion"] != basis.get(who))
            gone = store.cm is None
            lo = len(history)
            try:
                await getattr(lock, kind)(rec)
            except asyncio.CancelledError:
                raise
            except Exception as e:
                if isinstance(e, ApiException) and e.status in (409, 404) and not http.fail_with:
                    if kind == "create":
                        ctx.check(not gone or len(history) > lo or who in applied, "a lock could not be created although there was none")
                        ctx.count("create_conflicts")
                    else:
                        changed = stale or len(history) > lo
                        ctx.check(changed, "an update was refused although nothing changed since the last read", version=basis.get(who), current=store.cm and store.cm["metadata"]["resourceVersion"])
                        if stale:
                            ctx.count("stale_updates")
                        if len(history) > lo and not stale:
                            ctx.count("races")
                        ctx.nontrivial = ctx.nontrivial or ctx.counts["updates"] > 0
                    ctx.check(who not in applied, "an applied write was reported as refused")
                else:
                    raise
            else:
                ctx.check(who in applied, f"{kind} returned without writing the record")
                ctx.check(rec == given, "the given record was changed", given=given, now=rec)
                ctx.count(kind + "s")
            finally:
                pending.pop(who, None)

        for _ in range(rng.randrange(5, 30)):
            if rng.random() < 0.12:
                status = rng.choice([400, 401, 402, 403, 405, 406, 408, 409, 410, 412, 413, 415, 422, 423, 429, 500, 501, 502, 503, 504, 507])
                http.fail_with = status
                k = rng.choice(["get", "create", "update"])
                try:
                    await (getattr(lock, k)(record(rng, i)) if k != "get" else lock.get())
                except ApiException as e:
                    ctx.check(e.status == status, "an API error was replaced", got=e.status, want=status)
                    ctx.count("injected_errors")
                except Exception:
                    ctx.check(k == "update" and basis.get(who) is None, "an API error was not passed on as it is", op=k)
                else:
                    ctx.fail("an API error was swallowed", op=k, status=status)
                finally:
                    http.fail_with = None
                if rng.random() < 0.7 and not net.faulty:
                    await get()
                    ctx.count("usable_after_error")
                continue
            try:
                await op()
            except (Lost, ConnectionResetError, asyncio.TimeoutError):
                ctx.count("network_errors")
                if pending.get(who):
                    pending.pop(who, None)
            except ApiException as e:
                ctx.fail("an unexpected API error", status=e.status)
            if rng.random() < 0.3:
                await asyncio.sleep(rng.random())
        await asyncio.sleep(0)

    # what each client was told of the config map's version
    inner = net.call

    async def call(who, apply):
        try:
            out = await inner(who, apply)
        except Missing:
            if who not in pending:
                basis[who] = None
            raise
        basis[who] = out["metadata"]["resourceVersion"]
        return out

    net.call = call
    n = rng.choice([1, 1, 2, 3, 4])
    tasks = [asyncio.ensure_future(client(i)) for i in range(n)]
    busy = rng.choice([0, 0.3, 1])
    while not all(t.done() for t in tasks):
        for t in tasks:
            if t.done():
                t.result()
        await (asyncio.sleep(rng.random()) if rng.random() < 0.6 else yields(rng, 6))
        if rng.random() < busy:
            bystander()
    for t in tasks:
        t.result()


SCENARIOS = {"maps": maps}
PLAN = {"quick": {"maps": 2500}, "thorough": {"maps": 60000}}
