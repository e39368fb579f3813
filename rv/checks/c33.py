"""C33: objects get the same identity whatever their representation."""
import copy

from kubernetes_asyncio import client

from aiok8s.api import meta
from aiok8s.cache import controller, delta_fifo, index, store
from aiok8s.runtime import schema

from rv.util import Obj, ObjList, sync

PROPERTY = "C33"
RULE = (
    "Random objects (typed Kubernetes models, plain typed objects, dictionaries) over group, version, kind, namespace, name and missing "
    "optional fields; every accessor and key function is compared between the two forms and with the definition. Lists likewise. "
    "Junk values must be refused. Non-trivial: each case compares at least one typed/dictionary pair."
)
REQUIRED_COUNTS = ("pairs", "core_group", "cluster_scoped", "missing_fields", "junk_refused", "lists", "tombstones")
ASSUMPTIONS = ["names and namespaces contain no slash, as the API server enforces"]

NAMES = ["a", "b", "ab", "a-b", "a.b", "x0", "default"]
SPACES = [None, None, "", "a", "b", "ab", "default", "kube-system"]


def make(rng):
    ns = rng.choice(SPACES)
    name = rng.choice(NAMES)
    uid = rng.choice([None, "u1", "u2"])
    rv = rng.choice([None, "1", "12", "0"])
    group, version, kind = rng.choice([("", "v1", "Pod"), ("", "v1", "Node"), ("apps", "v1", "Deployment"), ("apps", "v1beta1", "Deployment"), ("a.b.c", "v2", "Thing")])
    api_version = f"{group}/{version}" if group else version
    form = rng.choice(["model", "plain"])
    if form == "model":
        cls = {"Pod": client.V1Pod, "Node": client.V1Node, "Deployment": client.V1Deployment}.get(kind, client.V1Pod)
        typed = cls(api_version=api_version, kind=kind, metadata=client.V1ObjectMeta(namespace=ns, name=name, uid=uid, resource_version=rv))
    else:
        typed = Obj(ns, name, rv=rv, uid=uid)
        typed.api_version, typed.kind = api_version, kind
    m = {"name": name}
    if ns is not None:
        m["namespace"] = ns
    if uid is not None:
        m["uid"] = uid
    if rv is not None:
        m["resourceVersion"] = rv
    if rng.random() < 0.2:
        m = {**m, "namespace": ns, "uid": uid, "resourceVersion": rv}  # spelled out as nulls
    raw = {"apiVersion": api_version, "kind": kind, "metadata": m}
    return typed, raw, (ns, name, uid, rv, group, version, kind)


@sync
def objects(ctx):
    rng = ctx.rng
    seen = {}
    for _ in range(20):
        typed, raw, (ns, name, uid, rv, group, version, kind) = make(rng)
        ctx.rec(ns, name, uid, rv, group, version, kind)
        ctx.count("pairs")
        if not group:
            ctx.count("core_group")
        if not ns:
            ctx.count("cluster_scoped")
        if None in (uid, rv):
            ctx.count("missing_fields")
        want_key = f"{ns}/{name}" if ns else name
        for what, o in (("typed", typed), ("dictionary", raw)):
            a = meta.accessor(o)
            ctx.check(a.name == name, f"{what}: wrong name", got=a.name)
            ctx.check((a.namespace or None) == (ns or None), f"{what}: wrong namespace", got=a.namespace, want=ns)
            ctx.check(a.uid == uid, f"{what}: wrong uid", got=a.uid, want=uid)
            ctx.check(a.resource_version == rv, f"{what}: wrong resource version", got=a.resource_version, want=rv)
            t = meta.type_accessor(o)
            ctx.check(t.kind == kind and t.group_version_kind == schema.GroupVersionKind(group, version, kind), f"{what}: wrong group, version and kind", got=tuple(t.group_version_kind), want=(group, version, kind))
            for f in (store.meta_namespace_key_func, controller.deletion_handling_meta_namespace_key_func):
                k = f(o)
                ctx.check(k == want_key and type(k) is str, f"{what}: wrong key", got=k, want=want_key)
                # equal exactly for equal namespace and name
                ctx.check(seen.setdefault(k, (ns or None, name)) == (ns or None, name), f"{what}: two objects share a key", key=k)
            iv = index.meta_namespace_index_func(o)
            ctx.check(len(iv) == 1 and (iv[0] or None) == (ns or None), f"{what}: wrong namespace index value", got=iv)
        ctx.check(index.meta_namespace_index_func(typed) == index.meta_namespace_index_func(raw), "the namespace index differs between the forms")
        # tombstones and explicit keys
        ctx.count("tombstones")
        other = rng.choice([None, typed, raw])
        for key in (want_key, "zz/other"):
            got = controller.deletion_handling_meta_namespace_key_func(delta_fifo.DeletedFinalStateUnknown(key, other))
            ctx.check(got == key, "a tombstone's key is not the one it carries", got=got, want=key)
            for f in (store.meta_namespace_key_func, controller.deletion_handling_meta_namespace_key_func):
                got = f(store.ExplicitKey(key))
                ctx.check(got == key, "an explicit key is not itself", got=got, want=key)
        # setting the version is read back, in the object itself too
        new = rng.choice(["77", "78"])
        meta.accessor(typed).resource_version = new
        meta.accessor(raw).resource_version = new
        ctx.check(meta.accessor(typed).resource_version == new and typed.metadata.resource_version == new, "a typed object's version is not read back")
        ctx.check(meta.accessor(raw).resource_version == new and raw["metadata"]["resourceVersion"] == new, "a dictionary's version is not read back")
        before = copy.deepcopy(raw)
        before["metadata"]["resourceVersion"] = new
        ctx.check(raw == before, "reading an object altered it")
    ctx.nontrivial = True


@sync
def lists(ctx):
    rng = ctx.rng
    for _ in range(10):
        pairs = [make(rng) for _ in range(rng.randrange(0, 5))]
        rv = rng.choice(["1", "99"])
        ctx.rec(len(pairs), rv)
        ctx.count("lists")
        typed_items = [p[0] for p in pairs]
        raw_items = [p[1] for p in pairs]
        if rng.random() < 0.5:
            typed = client.V1PodList(items=list(typed_items), metadata=client.V1ListMeta(resource_version=rv))
        else:
            typed = ObjList(list(typed_items), rv)
        raw = {"kind": "PodList", "apiVersion": "v1", "metadata": {"resourceVersion": rv}, "items": list(raw_items)}
        for what, lst, items in (("typed", typed, typed_items), ("dictionary", raw, raw_items)):
            got = list(meta.extract_list(lst))
            ctx.check(len(got) == len(items) and all(a is b for a, b in zip(got, items)), f"{what} list: wrong items", got=len(got), want=len(items))
            ctx.check(meta.list_accessor(lst).resource_version == rv, f"{what} list: wrong version")
            new = [make(rng)[0 if what == "typed" else 1] for _ in range(rng.randrange(0, 4))]
            meta.set_list(lst, list(new))
            got = list(meta.extract_list(lst))
            ctx.check(len(got) == len(new) and all(a is b for a, b in zip(got, new)), f"{what} list: items set are not read back")
            meta.list_accessor(lst).resource_version = "123"
            ctx.check(meta.list_accessor(lst).resource_version == "123", f"{what} list: version set is not read back")
            ctx.check((lst["metadata"]["resourceVersion"] if what == "dictionary" else lst.metadata.resource_version) == "123", f"{what} list: version set did not reach the list")
    ctx.nontrivial = True


class NoMeta:
    pass


class NoneMeta:
    metadata = None


async def junk(ctx):
    rng = ctx.rng
    values = [lambda: 5, lambda: "pod", lambda: None, lambda: object(), lambda: [], lambda: {}, lambda: {"metadata": None}, lambda: {"kind": "Pod"}, NoMeta, NoneMeta, lambda: client.V1Pod(), lambda: {"items": []}]
    s = store.new_indexer(controller.deletion_handling_meta_namespace_key_func, index.Indexers(ns=index.meta_namespace_index_func))
    keep = Obj("a", "keep", rv="1")
    await s.add(keep)
    for v in rng.sample(values, 4):
        o = v()
        ctx.rec(repr(o)[:40] if not isinstance(o, (NoMeta, NoneMeta)) else type(o).__name__)
        for what, f in (("accessor", meta.accessor), ("list_accessor", meta.list_accessor)):
            try:
                r = f(o)
            except (AttributeError, KeyError, TypeError) as e:
                ctx.fail(f"{what} does not report junk as such but fails with {type(e).__name__}", value=repr(o)[:200])
            except Exception:
                ctx.count("junk_refused")
            else:
                ctx.fail(f"{what} accepted junk", value=repr(o)[:200], got=repr(r))
        for f in (store.meta_namespace_key_func, controller.deletion_handling_meta_namespace_key_func, index.meta_namespace_index_func):
            try:
                k = f(o)
            except Exception:
                ctx.count("junk_refused")
            else:
                ctx.fail("junk was given an identity", value=repr(o)[:200], got=repr(k))
        for op in ("add", "update", "delete"):
            try:
                await getattr(s, op)(o)
            except store.StoreKeyError:
                ctx.count("junk_refused")
            else:
                ctx.fail(f"a store accepted junk ({op})", value=repr(o)[:200])
        ctx.check(s.list() == [keep] and await s.by_index("ns", "a") == [keep], "junk changed a store")
    ctx.nontrivial = True


SCENARIOS = {"objects": objects, "lists": lists, "junk": junk}
PLAN = {"quick": {"objects": 800, "lists": 400, "junk": 300}, "thorough": {"objects": 20000, "lists": 10000, "junk": 3000}}
