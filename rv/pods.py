"""A fake pod API beneath kubernetes_asyncio: the real client and watch code runs, only the HTTP layer is replaced."""
import asyncio
import json
from urllib.parse import urlsplit

from kubernetes_asyncio.client import api_client, rest

from rv import server as S
from rv.lw import ApiDown

_apis = {}  # resource -> the API the fake HTTP layer talks to


class FakeRest:
    """Stands in for kubernetes_asyncio.client.rest.RESTClientObject."""

    def __init__(self, configuration=None, *a, **kw):
        pass

    async def close(self):
        pass

    async def request(self, method, url, query_params=None, headers=None, body=None, post_params=None, _preload_content=True, _request_timeout=None):
        path = urlsplit(url).path
        api = _apis.get(path.rsplit("/", 1)[-1]) or _apis["pods"]
        return await api.http(method.upper(), path, dict(query_params or []), body, _preload_content)


def _verb(verb):
    async def call(self, url, **kw):
        return await self.request(verb, url, **kw)

    return call


for v in ("GET", "HEAD", "OPTIONS", "DELETE", "POST", "PUT", "PATCH"):
    setattr(FakeRest, v, _verb(v))

rest.RESTClientObject = FakeRest
api_client.rest.RESTClientObject = FakeRest


class Reply:
    """A finished response, as rest.RESTResponse presents it."""

    def __init__(self, status, js):
        self.status = status
        self.reason = "status"
        self.data = json.dumps(js).encode()

    def getheaders(self):
        return {"content-type": "application/json"}

    def getheader(self, name, default=None):
        return self.getheaders().get(name, default)


def fail(status, reason="Failure"):
    from kubernetes_asyncio.client.exceptions import ApiException

    raise ApiException(http_resp=Reply(status, {"kind": "Status", "code": status, "reason": reason, "message": reason}))


class Stream:
    """A streaming response: lines of events."""

    status = 200

    def __init__(self, watch):
        self.watch = watch
        self.content = self
        self.released = False

    async def readline(self):
        try:
            e = await self.watch.__anext__()
        except StopAsyncIteration:
            return b""
        if e["type"] == "ERROR":
            e = {"type": "ERROR", "object": {"kind": "Status", "status": "Failure", "reason": "Expired", "message": "gone", "code": e["object"]["code"]}}
        return json.dumps(e).encode() + b"\n"

    def release(self):
        self.watch._close()

    close = release


class PodApi(S.Server):
    """Pods (or another core resource) over HTTP."""

    resource, kind = "pods", "Pod"

    def __init__(self, ctx, **opts):
        super().__init__(ctx, dicts=True, **opts)
        self.namespaces = set()  # namespaces asked for (None: all)
        self.paths = []
        self.scopes = {}
        if self.resource == "pods":
            _apis.clear()
        _apis[self.resource] = self

    def render(self, fields):
        o = super().render(fields)
        o["kind"] = self.kind
        if self.kind == "Pod":
            o["spec"] = {"containers": []}
        return o

    async def http(self, method, path, query, body, preload):
        parts = path.strip("/").split("/")
        self.paths.append((method, path))
        if method != "GET" or parts[:2] != ["api", "v1"]:
            self.ctx.fail("an unexpected API call", method=method, path=path)
        if parts[2:] == [self.resource]:
            ns = None
        elif len(parts) == 5 and parts[2] == "namespaces" and parts[4] == self.resource:
            ns = parts[3]
        else:
            self.ctx.fail("an unexpected API call", method=method, path=path)
        self.namespaces.add(ns)
        if str(query.get("watch", "")).lower() == "true":
            return await self.http_watch(ns, query)
        if not preload:
            self.ctx.fail("an unexpected API call", method=method, path=path)
        return await self.http_list(ns, query)

    async def http_list(self, ns, query):
        try:
            js = await self.list({k: query[k] for k in ("limit", "continue") if k in query})
        except ApiDown:
            fail(500)
        js["kind"] = self.kind + "List"
        js["apiVersion"] = "v1"
        if ns is not None:
            js["items"] = [i for i in js["items"] if i["metadata"].get("namespace") == ns]
            t, rv, state = self.ok_lists[-1]
            self.ok_lists[-1] = (t, rv, {k: v for k, v in state.items() if k.startswith(ns + "/")})
        return Reply(200, js)

    async def http_watch(self, ns, query):
        try:
            w = await self.watch({"resource_version": query["resourceVersion"], "timeout_seconds": int(query["timeoutSeconds"]) if "timeoutSeconds" in query else None})
        except ApiDown:
            fail(500)
        if ns is not None:
            w.scope = ns + "/"
        return Stream(w)

    def scoped(self, ns):
        return {k: v for k, v in self.state().items() if ns is None or k.startswith(ns + "/")}
