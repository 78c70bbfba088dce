"""kubernetes_asyncio: plain objects with the fields they are made with; its calls are stubs of the contracts."""
import types

from .core import Unsupported
from .rt import patch_class

_CACHE = {}


class ApiException(Exception):
    def __init__(self, status=None, reason=None, **kw):
        super().__init__(status, reason)
        self.status, self.reason = status, reason


@patch_class
class _Model:
    """An object of the API: the fields it was made with, None otherwise."""
    _fields_of_model = ()

    def __init__(self, **kw):
        for k in self._fields_of_model:
            setattr(self, k, kw.pop(k, None))
        if kw:
            raise TypeError(f"unexpected fields {sorted(kw)}")


def _model(name, *fields):
    return patch_class(type(name, (_Model,), {"_fields_of_model": fields}))


class CoreV1Api:
    def __init__(self, client=None):
        self.api_client = client

    def __getattr__(self, name):
        if name.startswith("__") or name.startswith("_pv"):
            raise AttributeError(name)
        raise Unsupported(f"CoreV1Api.{name}")


def _mod(name, **attrs):
    m = types.ModuleType(name)
    m.__dict__.update(attrs)
    m.__pv_model__ = True
    return m


def module(name):
    if not _CACHE:
        meta = ("name", "namespace", "annotations", "labels", "resource_version", "uid")
        models = _mod("kubernetes_asyncio.client.models", V1ObjectMeta=_model("V1ObjectMeta", *meta),
                      V1ConfigMap=_model("V1ConfigMap", "api_version", "kind", "metadata", "data", "binary_data", "immutable"),
                      V1Pod=_model("V1Pod", "api_version", "kind", "metadata", "spec", "status"))
        exc = _mod("kubernetes_asyncio.client.exceptions", ApiException=ApiException)
        api = _mod("kubernetes_asyncio.client.api", CoreV1Api=CoreV1Api)
        client = _mod("kubernetes_asyncio.client", api=api, exceptions=exc, models=models, ApiException=ApiException,
                      CoreV1Api=CoreV1Api, V1ObjectMeta=models.V1ObjectMeta, V1ConfigMap=models.V1ConfigMap, V1Pod=models.V1Pod)
        watch = _mod("kubernetes_asyncio.watch", Watch=CoreV1Api)
        top = _mod("kubernetes_asyncio", client=client, watch=watch)
        for m in (models, exc, api, client, watch, top):
            _CACHE[m.__name__] = m
    return _CACHE.get(name)
