"""C01: store contents equal the map its write history defines; operations are atomic."""
import asyncio

from aiok8s.cache import controller, delta_fifo, index, store

from rv.util import History, Obj, key_of, linearizable, obj_class, yields

PROPERTY = "C01"
RULE = (
    "sequential: random histories of 60-200 store operations on three store flavours compared with a dict model after "
    "every operation (object identity); concurrent: 3-4 tasks issuing 3-5 operations each, history checked for "
    "linearizability. Mass: one store of hundreds to thousands of objects through upserts, replacement and deletion. Non-trivial: at least one overwrite, delete and replace (sequential) or two overlapping/adjacent "
    "writers (concurrent). Distinct by event-log digest."
)
REQUIRED_COUNTS = ("model_comparisons", "linearizability_checks", "key_errors_rejected")
ASSUMPTIONS = ["objects are not mutated after being handed to the store"]


class BadKey(Exception):
    pass


def fragile_key(obj):
    if getattr(obj, "bad", False):
        raise BadKey("no key")
    return controller.deletion_handling_meta_namespace_key_func(obj)


def by_label(obj):
    return list(obj.metadata.labels or ())


def make_store(rng):
    kind = rng.choice(["store", "indexer", "indexer"])
    if kind == "store":
        return kind, store.new_store(fragile_key)
    return kind, store.new_indexer(fragile_key, index.Indexers(lab=by_label))


def new_obj(rng, ctx, names, spaces):
    ctx.serial = getattr(ctx, "serial", 0) + 1
    return ctx.cls(rng.choice(spaces), rng.choice(names), rv=str(ctx.serial), labels=[f"l{rng.randrange(3)}"])


async def sequential(ctx):
    rng = ctx.rng
    kind, s = make_store(rng)
    ctx.cls = obj_class(rng)
    ctx.count("objects_" + ctx.cls.__name__.lower())
    names = [f"n{i}" for i in range(rng.randrange(1, 7))]
    spaces = rng.choice([[None], ["a"], ["a", "b", None]])
    model = {}
    kinds = set()
    handed = []

    async def expect_key_error(coro_fn, obj, what):
        before = dict(model)
        try:
            r = coro_fn()
            if asyncio.iscoroutine(r):
                await r
        except store.StoreKeyError as e:
            ctx.check(e.obj is obj, f"{what}: the store-key error does not carry the offending object")
            ctx.count("key_errors_rejected")
        else:
            ctx.fail(f"{what} of an object without a key was not rejected")
        assert before == model

    for step in range(rng.randrange(60, 200)):
        op = rng.choice(["add", "add", "update", "update", "delete", "delete_tomb", "delete_missing", "replace", "bad", "mutate_list", "resync", "get"])
        if op in ("add", "update"):
            o = new_obj(rng, ctx, names, spaces)
            k = key_of(o.metadata.namespace, o.metadata.name)
            if k in model:
                kinds.add("overwrite")
            ctx.rec(op, k, o.metadata.resource_version)
            await getattr(s, op)(o)
            model[k] = o
        elif op in ("delete", "delete_missing"):
            o = new_obj(rng, ctx, names, spaces) if op == "delete" else Obj("zz", "none")
            k = key_of(o.metadata.namespace, o.metadata.name)
            ctx.rec("delete", k)
            await s.delete(o)
            if model.pop(k, None) is not None:
                kinds.add("delete")
        elif op == "delete_tomb":
            k = key_of(rng.choice(spaces), rng.choice(names))
            ctx.rec("delete_tomb", k)
            await s.delete(delta_fifo.DeletedFinalStateUnknown(k, model.get(k) if rng.random() < 0.5 else None))
            if model.pop(k, None) is not None:
                kinds.add("delete")
        elif op == "replace":
            if rng.random() < 0.6:
                continue
            objs = [new_obj(rng, ctx, names, spaces) for _ in range(rng.randrange(0, 5))]
            ctx.rec("replace", [o.metadata.resource_version for o in objs])
            lst = list(objs)
            await s.replace(lst, str(step))
            lst.append(Obj("zz", "alias"))
            lst.clear()
            model = {key_of(o.metadata.namespace, o.metadata.name): o for o in objs}
            kinds.add("replace")
        elif op == "bad":
            o = new_obj(rng, ctx, names, spaces)
            o.bad = True
            which = rng.choice(["add", "update", "delete", "replace", "get"])
            ctx.rec("bad", which)
            if which == "replace":
                good = [new_obj(rng, ctx, names, spaces) for _ in range(rng.randrange(0, 3))]
                await expect_key_error(lambda: s.replace([*good, o, *good[:1]], "0"), o, "replace")
            else:
                await expect_key_error(lambda: getattr(s, which)(o), o, which)
        elif op == "mutate_list":
            got = s.list()
            got.append("junk")
            got.reverse()
            keys = s.list_keys()
            keys.append("junk")
            keys.reverse()
        elif op == "resync":
            await s.resync()
        # ---- monitor
        if rng.random() < 0.3:
            handed.append((s.list(), dict(model), s.list_keys()))
        compare(ctx, s, model, names, spaces)
    for lst, m, keys in handed:
        ctx.check(
            sorted(map(id, lst)) == sorted(map(id, m.values())) and sorted(keys) == sorted(m),
            "a list handed out earlier changed with later writes",
        )
    ctx.nontrivial = {"overwrite", "delete", "replace"} <= kinds


def compare(ctx, s, model, names, spaces):
    ctx.count("model_comparisons")
    listed = s.list()
    ctx.check(
        sorted(map(id, listed)) == sorted(map(id, model.values())),
        "list() differs from the history's live objects",
        got=listed,
        want=list(model.values()),
    )
    ctx.check(sorted(s.list_keys()) == sorted(model), "list_keys() differs from the live keys", got=s.list_keys(), want=sorted(model))
    for ns in spaces:
        for n in names:
            k = key_of(ns, n)
            ctx.check(s.get_by_key(k) is model.get(k), f"get_by_key({k}) is not the last written object", got=s.get_by_key(k), want=model.get(k))
            ctx.check(s.get(Obj(ns, n)) is model.get(k), f"get({k}) is not the last written object")
    ctx.check(s.get_by_key("never/written") is None and s.get(store.ExplicitKey("never/written")) is None, "a never-written key returns something")
    if model:
        k = next(iter(model))
        ctx.check(s.get(store.ExplicitKey(k)) is model[k], "explicit key lookup differs")


# ---------------------------------------------------------------- concurrent, linearizability


def apply(state, op):
    """state: frozenset of (key, rv, labels)"""
    kind = op[0]
    if kind in ("add", "update"):
        _, k, rv, labs = op
        return frozenset([t for t in state if t[0] != k] + [(k, rv, labs)]), None
    if kind == "delete":
        return frozenset(t for t in state if t[0] != op[1]), None
    if kind == "replace":
        return frozenset(op[1]), None
    if kind == "get":
        return state, next((t[1] for t in state if t[0] == op[1]), None)
    if kind == "list":
        return state, tuple(sorted(t[1] for t in state))
    if kind == "list_keys":
        return state, tuple(sorted(t[0] for t in state))
    if kind == "by_index":
        return state, tuple(sorted(t[1] for t in state if op[1] in t[2]))
    raise AssertionError(kind)


async def concurrent(ctx):
    rng = ctx.rng
    s = store.new_indexer(fragile_key, index.Indexers(lab=by_label))
    names = ["x", "y"]
    h = History()
    seedrv = 0
    init = frozenset()
    if rng.random() < 0.5:
        o = Obj("a", "x", rv="0", labels=["l0"])
        await s.add(o)
        init = frozenset([("a/x", "0", ("l0",))])
    overlap = 0

    async def client(i):
        nonlocal seedrv, overlap
        for _ in range(rng.randrange(3, 6)):
            await yields(rng, 2)
            kind = rng.choice(["add", "update", "delete", "replace", "get", "list", "list_keys", "by_index"])
            n = rng.choice(names)
            if kind in ("add", "update"):
                seedrv += 1
                labs = tuple(sorted(rng.sample(["l0", "l1"], rng.randrange(1, 3))))
                o = Obj("a", n, rv=str(seedrv), labels=list(labs))
                await h.call(i, (kind, f"a/{n}", o.metadata.resource_version, labs), lambda: getattr(s, kind)(o))
            elif kind == "delete":
                await h.call(i, (kind, f"a/{n}"), lambda: s.delete(Obj("a", n)))
            elif kind == "replace":
                objs = []
                desc = []
                for m in rng.sample(names, rng.randrange(0, 3)):
                    seedrv += 1
                    objs.append(Obj("a", m, rv=str(seedrv), labels=["l0"]))
                    desc.append((f"a/{m}", str(seedrv), ("l0",)))
                await h.call(i, (kind, tuple(desc)), lambda: s.replace(objs, "1"))
            elif kind == "get":
                r = h.call_sync(i, (kind, f"a/{n}"), lambda: s.get_by_key(f"a/{n}"))
                h.ops[-1]["result"] = r and r.metadata.resource_version
            elif kind == "list":
                r = h.call_sync(i, (kind,), s.list)
                h.ops[-1]["result"] = tuple(sorted(o.metadata.resource_version for o in r))
            elif kind == "list_keys":
                r = h.call_sync(i, (kind,), s.list_keys)
                h.ops[-1]["result"] = tuple(sorted(r))
            else:
                lab = rng.choice(["l0", "l1"])
                rec_i = len(h.ops)
                r = await h.call(i, (kind, lab), lambda: s.by_index("lab", lab))
                rec = next(x for x in h.ops[rec_i:] if x["who"] == i)
                rec["result"] = tuple(sorted(o.metadata.resource_version for o in r))

    await asyncio.gather(*(client(i) for i in range(rng.randrange(3, 5))))
    for o in h.ops:
        ctx.rec(o["who"], o["op"], o["call"], o["ret"], o["result"])
    ok = linearizable(h.ops, init, apply)
    if ok is None:
        from rv.core import Inconclusive

        raise Inconclusive("linearizability search gave up")
    ctx.count("linearizability_checks")
    ctx.check(ok, "concurrent history of store operations is not linearizable")
    ctx.nontrivial = len(h.ops) >= 8


async def mass(ctx):
    """Thousands of objects."""
    rng = ctx.rng
    kind, s = make_store(rng)
    ctx.cls = obj_class(rng)
    n = rng.choice([600, 1200, 2600])
    names = [f"n{i}" for i in range(n)]
    model = {}
    for name in names:
        o = ctx.cls("a", name, rv="1", labels=["l0"])
        await s.add(o)
        model[key_of("a", name)] = o
    for turn in range(3):
        for _ in range(n // 2):
            o = new_obj(rng, ctx, names, ["a"])
            k = key_of("a", o.metadata.name)
            if rng.random() < 0.5:
                await s.update(o)
                model[k] = o
            else:
                await s.delete(o)
                model.pop(k, None)
        if turn == 1:
            objs = [new_obj(rng, ctx, [name], ["a"]) for name in rng.sample(names, n - 7)]
            model = {key_of("a", o.metadata.name): o for o in objs}
            await s.replace(objs, "1")
        ctx.count("model_comparisons")
        ctx.check(sorted(s.list_keys()) == sorted(model), "a large store does not list exactly the live keys", got=len(s.list_keys()), want=len(model))
        ctx.check({id(o) for o in s.list()} == {id(o) for o in model.values()} and len(s.list()) == len(model), "a large store does not list exactly the live objects", got=len(s.list()), want=len(model))
        ctx.check(all(s.get_by_key(k) is o for k, o in model.items()), "a large store returns something else than the latest object")
    ctx.rec("mass", n, len(model))
    ctx.nontrivial = True


SCENARIOS = {"mass": mass, "sequential": sequential, "concurrent": concurrent}
PLAN = {"quick": {"mass": 8, "sequential": 1500, "concurrent": 2500}, "thorough": {"mass": 200, "sequential": 30000, "concurrent": 60000}}
