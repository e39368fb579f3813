"""C02: index lookups always agree with the stored objects."""
import asyncio

from aiok8s.cache import controller, delta_fifo, index, store

from rv.core import Inconclusive
from rv.util import History, Obj, key_of, linearizable, obj_class, yields

PROPERTY = "C02"
RULE = (
    "sequential: random histories of writes (re-labelling, duplicate, empty and None index values, tombstones, replaces, "
    "add_indexers) with every index query compared with a recomputation from the model map after every write; large: the same with up to a "
    "thousand objects, up to 40 values per object, bulk replaces and deletions; concurrent: "
    "3-4 clients mixing writes and index queries, checked for linearizability. Non-trivial: at least one re-labelling of a "
    "live object and one deletion were followed by queries (sequential), at least 8 operations (concurrent)."
)
REQUIRED_COUNTS = ("index_comparisons", "linearizability_checks", "relabels", "duplicate_values", "refused_add_indexers", "accepted_add_indexers", "large_comparisons")
ASSUMPTIONS = ["objects are not mutated after being handed to the store", "index functions are pure functions of the object"]

VALUES = ["v0", "v1", "v2", "v3", ""]


def labels_index(obj):
    return list(obj.metadata.labels or ())


def tuple_index(obj):
    return tuple(obj.extra)


def fresh_index(obj):
    return [obj.metadata.name[-1]]


FUNCS = {
    "lab": labels_index,
    "extra": tuple_index,
    "ns": index.meta_namespace_index_func,
    "rv": lambda o: [int(o.metadata.resource_version) % 2],
}


def new_obj(rng, ctx, names, spaces):
    ctx.serial = getattr(ctx, "serial", 0) + 1
    labs = [rng.choice(VALUES) for _ in range(rng.choice([0, 1, 1, 2, 3, 4]))]
    o = ctx.cls(rng.choice(spaces), rng.choice(names), rv=str(ctx.serial), labels=labs)
    o.extra = [rng.choice(["e0", "e1"]) for _ in range(rng.choice([0, 1, 1, 2]))]
    if len(set(labs)) < len(labs):
        ctx.count("duplicate_values")
    return o


def ids(objs):
    return sorted(map(id, objs))


async def compare(ctx, s, model, funcs, unregistered, probe):
    for name, f in funcs.items():
        want = {}
        for k, o in model.items():
            for v in f(o):
                want.setdefault(v, {})[k] = o
        queried = set(want) | {"v0", "v1", "v9", "", None, "a", 0, 1}
        for v in queried:
            w = want.get(v, {})
            got = await s.by_index(name, v)
            if ctx.rng.random() < 0.1 and isinstance(got, list):
                got, given = list(got), got
                given.clear()
            ctx.check(ids(got) == ids(w.values()), f"by_index({name},{v!r}) differs from the stored objects having that value", got=got, want=list(w.values()))
            got = await s.index_keys(name, v)
            ctx.check(sorted(got) == sorted(w), f"index_keys({name},{v!r}) differs", got=got, want=sorted(w))
            if ctx.rng.random() < 0.1 and hasattr(got, "clear"):
                got.clear()  # what is handed out is the caller's own
            ctx.count("index_comparisons")
        given = await s.list_index_func_values(name)
        got = list(given)
        if ctx.rng.random() < 0.1 and hasattr(given, "clear"):
            given.clear()
        ctx.check(
            len(got) == len(set(got)) and set(got) == set(want),
            f"list_index_func_values({name}) is not the set of values stored objects have",
            got=got,
            want=list(want),
        )
        for ex in [probe, *list(model.values())[:2]]:
            vals = set(f(ex))
            w = [o for o in model.values() if vals & set(f(o))]
            got = await s.index(name, ex)
            if ctx.rng.random() < 0.1 and isinstance(got, list):
                got, given = list(got), got
                given.clear()
            ctx.check(ids(got) == ids(w), f"index({name}, example) is not the objects sharing a value with the example", got=got, want=w, values=sorted(map(repr, vals)))
    for name in unregistered:
        for fn in (lambda: s.by_index(name, "v0"), lambda: s.index_keys(name, "v0"), lambda: s.index(name, probe)):
            try:
                await fn()
            except KeyError:
                ctx.count("unregistered_rejected")
            else:
                ctx.fail(f"lookup in unregistered index {name} did not raise KeyError")
    ctx.check(set(s.get_indexers()) == set(funcs), "get_indexers() is not the set of registered indexers", got=sorted(s.get_indexers()), want=sorted(funcs))


async def sequential(ctx):
    rng = ctx.rng
    ctx.cls = obj_class(rng)
    funcs = {n: FUNCS[n] for n in rng.sample(sorted(FUNCS), rng.randrange(0, 4))}
    s = store.new_indexer(controller.deletion_handling_meta_namespace_key_func, index.Indexers(funcs))
    names = [f"n{i}" for i in range(rng.randrange(1, 5))]
    spaces = rng.choice([[None], ["a"], ["a", "b", None]])
    model = {}
    kinds = set()
    unregistered = {"never", *FUNCS} - set(funcs)

    for step in range(rng.randrange(15, 45)):
        op = rng.choice(["add", "update", "update", "delete", "tomb", "replace", "add_indexers", "clear", "bad"])
        if op in ("add", "update"):
            o = new_obj(rng, ctx, names, spaces)
            k = key_of(o.metadata.namespace, o.metadata.name)
            old = model.get(k)
            if old is not None and rng.random() < 0.15:
                o = old  # re-adding the very same object
            if old is not None and set(old.metadata.labels) != set(o.metadata.labels):
                kinds.add("relabel")
                ctx.count("relabels")
            ctx.rec(op, k, o.metadata.labels, o.extra)
            await getattr(s, op)(o)
            model[k] = o
        elif op == "delete":
            # the object handed in is not the stored one and has other index values
            o = new_obj(rng, ctx, names, spaces)
            k = key_of(o.metadata.namespace, o.metadata.name)
            ctx.rec(op, k)
            await s.delete(o)
            if model.pop(k, None) is not None:
                kinds.add("delete")
        elif op == "tomb":
            k = key_of(rng.choice(spaces), rng.choice(names))
            ctx.rec(op, k)
            await s.delete(delta_fifo.DeletedFinalStateUnknown(k, None))
            if model.pop(k, None) is not None:
                kinds.add("delete")
        elif op == "replace" and rng.random() < 0.5:
            objs = [new_obj(rng, ctx, names, spaces) for _ in range(rng.randrange(0, 5))]
            ctx.rec(op, [(o.metadata.name, o.metadata.labels) for o in objs])
            await s.replace(objs, str(step))
            model = {key_of(o.metadata.namespace, o.metadata.name): o for o in objs}
        elif op == "clear" and rng.random() < 0.3:
            ctx.rec(op)
            for o in list(model.values()):
                await s.delete(o)
            model.clear()
        elif op == "bad":
            try:
                await s.replace([*model.values(), 17], "0")
            except store.StoreKeyError:
                ctx.count("key_errors_rejected")
            else:
                ctx.fail("replace with an object without key was accepted")
        elif op == "add_indexers":
            fresh = rng.sample(sorted(set(FUNCS) - set(funcs)), min(1, len(FUNCS) - len(funcs)))
            new = {n: FUNCS[n] for n in fresh}
            conflict = bool(funcs) and rng.random() < 0.5
            if conflict:
                new[rng.choice(sorted(funcs))] = fresh_index
            ctx.rec(op, sorted(new), bool(model))
            if not new:
                continue
            try:
                await s.add_indexers(index.Indexers(new))
            except Exception as e:
                ctx.check(bool(model) or conflict, f"adding new indexers {sorted(new)} to an empty store was refused: {e!r}")
                ctx.count("refused_add_indexers")
            else:
                ctx.check(not model, "indexers were added to a store that holds objects")
                ctx.check(not conflict, "an indexer name already taken was accepted")
                ctx.count("accepted_add_indexers")
                funcs.update(new)
                unregistered -= set(new)
        await compare(ctx, s, model, funcs, sorted(unregistered), new_obj(rng, ctx, names, spaces))
    ctx.nontrivial = {"relabel", "delete"} <= kinds and bool(funcs)


async def large(ctx):
    """Many objects, many values per object, many objects per value."""
    rng = ctx.rng
    ctx.cls = obj_class(rng)
    n = rng.choice([60, 150, 400, 1000])
    values = [f"w{i}" for i in range(rng.choice([1, 5, 50]))]
    funcs = {"lab": labels_index, "ns": index.meta_namespace_index_func}
    s = store.new_indexer(store.meta_namespace_key_func, index.Indexers(funcs))
    names = [f"n{i}" for i in range(n)]
    model = {}
    serial = 0

    def mk(name):
        nonlocal serial
        serial += 1
        most = rng.choice([1, 3, 40])
        o = ctx.cls(rng.choice(["default", "kube-system", ""]), name, rv=str(serial), labels=[rng.choice(values) for _ in range(rng.randrange(0, most + 1))])
        return o, key_of(o.metadata.namespace, name)

    async def judge():
        for name, f in funcs.items():
            want = {}
            for k, o in model.items():
                for v in f(o):
                    want.setdefault(v, {})[k] = o
            got = list(await s.list_index_func_values(name))
            ctx.check(len(got) == len(set(got)) and set(got) == set(want), f"list_index_func_values({name}) is not the set of values stored objects have", got=len(got), want=len(want))
            for v in {*want, *values}:
                w = want.get(v, {})
                ctx.check(ids(await s.by_index(name, v)) == ids(w.values()), f"by_index({name},{v!r}) differs from the stored objects having that value", want=len(w))
                ctx.check(sorted(await s.index_keys(name, v)) == sorted(w), f"index_keys({name},{v!r}) differs", want=len(w))
            for ex in [mk("example")[0], *rng.sample(list(model.values()), min(2, len(model)))]:
                vals = set(f(ex))
                w = [o for o in model.values() if vals & set(f(o))]
                ctx.check(ids(await s.index(name, ex)) == ids(w), f"index({name}, example) is not the objects sharing a value with the example", values=len(vals), want=len(w))
        ctx.count("large_comparisons")

    for step in range(rng.randrange(2, 5)):
        how = rng.choice(["add", "update", "delete", "replace"]) if model else rng.choice(["add", "replace"])
        some = rng.sample(names, rng.randrange(n // 2, n + 1))
        ctx.rec(how, len(some))
        if how == "replace":
            pairs = [mk(x) for x in some]
            await s.replace([o for o, _ in pairs], str(step))
            model = {k: o for o, k in pairs}
        elif how == "delete":
            for k in rng.sample(sorted(model), rng.randrange(len(model) // 2, len(model) + 1)):
                await s.delete(model.pop(k))
        else:
            for x in some:
                o, k = mk(x)
                await getattr(s, how)(o)
                model[k] = o
        await judge()
    ctx.nontrivial = True


# ---------------------------------------------------------------- concurrent


def apply(state, op):
    kind = op[0]
    if kind in ("add", "update"):
        _, k, rv, labs = op
        return frozenset([t for t in state if t[0] != k] + [(k, rv, labs)]), None
    if kind == "delete":
        return frozenset(t for t in state if t[0] != op[1]), None
    if kind == "replace":
        return frozenset(op[1]), None
    if kind == "by_index":
        return state, tuple(sorted(t[1] for t in state if op[1] in t[2]))
    if kind == "index_keys":
        return state, tuple(sorted(t[0] for t in state if op[1] in t[2]))
    if kind == "index":
        return state, tuple(sorted(t[1] for t in state if set(op[1]) & set(t[2])))
    if kind == "values":
        return state, tuple(sorted({v for t in state for v in t[2]}))
    raise AssertionError(kind)


async def concurrent(ctx):
    rng = ctx.rng
    s = store.new_indexer(store.meta_namespace_key_func, index.Indexers(lab=labels_index))
    h = History()
    names = ["x", "y"]
    serial = 0

    def mk(n):
        nonlocal serial
        serial += 1
        labs = [rng.choice(["l0", "l1", "l2"]) for _ in range(rng.randrange(0, 3))]
        return Obj("a", n, rv=str(serial), labels=labs), (f"a/{n}", str(serial), tuple(sorted(set(labs))))

    def rvs(r):
        return tuple(sorted(o.metadata.resource_version for o in r))

    async def conv(coro, f):
        return f(await coro)

    async def client(i):
        for _ in range(rng.randrange(3, 6)):
            await yields(rng, 2)
            kind = rng.choice(["add", "update", "update", "delete", "replace", "by_index", "index_keys", "index", "values"])
            n = rng.choice(names)
            lab = rng.choice(["l0", "l1", "l2"])
            if kind in ("add", "update"):
                o, d = mk(n)
                await h.call(i, (kind, *d), lambda: getattr(s, kind)(o))
            elif kind == "delete":
                await h.call(i, (kind, f"a/{n}"), lambda: s.delete(Obj("a", n)))
            elif kind == "replace":
                pairs = [mk(m) for m in rng.sample(names, rng.randrange(0, 3))]
                await h.call(i, (kind, tuple(d for _, d in pairs)), lambda: s.replace([o for o, _ in pairs], "1"))
            elif kind == "by_index":
                await h.call(i, (kind, lab), lambda: conv(s.by_index("lab", lab), rvs))
            elif kind == "index_keys":
                await h.call(i, (kind, lab), lambda: conv(s.index_keys("lab", lab), lambda r: tuple(sorted(r))))
            elif kind == "index":
                o, d = mk(n)
                await h.call(i, (kind, d[2]), lambda: conv(s.index("lab", o), rvs))
            else:
                await h.call(i, (kind,), lambda: conv(s.list_index_func_values("lab"), lambda r: tuple(sorted(r))))

    await asyncio.gather(*(client(i) for i in range(rng.randrange(3, 5))))
    for o in h.ops:
        ctx.rec(o["who"], o["op"], o["call"], o["ret"], o["result"])
    ok = linearizable(h.ops, frozenset(), apply)
    if ok is None:
        raise Inconclusive("linearizability search gave up")
    ctx.count("linearizability_checks")
    ctx.check(ok, "concurrent history of writes and index queries is not linearizable")
    ctx.nontrivial = len(h.ops) >= 8


SCENARIOS = {"sequential": sequential, "large": large, "concurrent": concurrent}
PLAN = {"quick": {"sequential": 2500, "large": 60, "concurrent": 2500}, "thorough": {"sequential": 30000, "large": 1000, "concurrent": 40000}}
