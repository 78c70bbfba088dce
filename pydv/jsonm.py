"""json: what a text says is a function of the text, and a text made from a value says that value."""
from . import core
from .core import Unsupported


def dumps(obj, **kw):
    h = core.E().hooks.get("json.dumps")
    if h is None:
        raise Unsupported("json.dumps")
    return h(obj)


def loads(s, **kw):
    h = core.E().hooks.get("json.loads")
    if h is None:
        raise Unsupported("json.loads")
    return h(s)


def module():
    import json
    from .aio import _module
    return _module("json", dumps=dumps, loads=loads, JSONDecodeError=json.JSONDecodeError)
