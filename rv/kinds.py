"""Kinds beyond pods, served by the same fake API."""
import inspect

from kubernetes_asyncio.client import api, models

from aiok8s.controller import client
from aiok8s.runtime import schema

from rv import mgr as M
from rv.pods import PodApi


class Nodes(PodApi):
    resource, kind = "nodes", "Node"


class Maps(PodApi):
    resource, kind = "configmaps", "ConfigMap"


KINDS = {M.Pod: PodApi}


def _more_kinds():
    """Two more kinds with clients modelled on the pod client, where they can be added that way."""
    pod = schema.GroupVersionKind("", "v1", "Pod")
    try:
        cls = type(client.rest_client_for_gvk(pod))
        base = cls.__mro__[1]
        own = {n: v for n, v in vars(cls).items() if not n.startswith("__")}
        (lister,) = [n for n, v in own.items() if inspect.isfunction(v)]
        if base is object or pod not in own.values() or M.Pod not in own.values():
            return

        def add(typ, kind, listers):
            gvk = schema.GroupVersionKind("", "v1", kind)
            body = {n: gvk if v == pod else typ if v is M.Pod else v for n, v in own.items()}
            body[lister] = listers
            type(base)(kind + "Client", (base,), body)
            client.rest_client_for_gvk(gvk)
            return client.gvk_for_object(typ) == gvk

        if add(models.V1Node, "Node", lambda self, namespace: api.CoreV1Api().list_node):
            KINDS[models.V1Node] = Nodes
        if add(models.V1ConfigMap, "ConfigMap", lambda self, namespace: api.CoreV1Api().list_namespaced_config_map if namespace else api.CoreV1Api().list_config_map_for_all_namespaces):
            KINDS[models.V1ConfigMap] = Maps
    except (AttributeError, TypeError, KeyError, ValueError, IndexError):
        pass


_more_kinds()
