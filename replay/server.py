"""A small in-memory API server to list and watch (support code, no scenarios)."""
import asyncio
import copy
from types import SimpleNamespace

from lib import Violation, oops


class Obj:
    """A typed object: metadata with name, namespace, resource version."""

    def __init__(self, name, ns, rv, spec):
        self.metadata = SimpleNamespace(name=name, namespace=ns, uid="u-" + name, resource_version=str(rv))
        self.spec = spec
        self.api_version, self.kind = "v1", "Pod"

    def __repr__(self):
        return f"{key(self)}@{rv(self)}"


def raw(name, ns, rv_, spec):
    return {"apiVersion": "v1", "kind": "Pod", "spec": spec,
            "metadata": {"name": name, "namespace": ns, "uid": "u-" + name, "resourceVersion": str(rv_)}}


def key(o):
    if isinstance(o, dict):
        return o["metadata"]["namespace"] + "/" + o["metadata"]["name"]
    return o.metadata.namespace + "/" + o.metadata.name


def rv(o):
    return o["metadata"]["resourceVersion"] if isinstance(o, dict) else o.metadata.resource_version


class Stream:
    """What watch returns: async context manager and async iterator."""

    def __init__(self, srv, start):
        self.srv, self.at = srv, start
        self.ended = None            # None, "close", or an exception
        self.extra = []              # events to slip in (error events, foreign objects)
        self.closed = False
        self.entered = 0
        self.wake = asyncio.Event()

    def __aiter__(self):
        return self

    async def __aenter__(self):
        self.entered += 1
        return self

    async def __aexit__(self, *a):
        self.closed = True
        if self in self.srv.streams:
            self.srv.streams.remove(self)

    async def __anext__(self):
        while True:
            if self.extra:
                return self.extra.pop(0)
            if self.ended is not None:
                if self.ended == "close":
                    raise StopAsyncIteration
                raise self.ended
            if self.at < len(self.srv.history):
                t, o = self.srv.history[self.at]
                self.at += 1
                return {"type": t, "object": copy.deepcopy(o)}
            self.wake.clear()
            await self.wake.wait()

    def end(self, how="close"):
        self.ended = how
        self.wake.set()

    def inject(self, ev):
        self.extra.append(ev)
        self.wake.set()

    # the watches of the code base have a stop method as well
    async def stop(self):
        await self.__aexit__(None, None, None)


class Server:
    def __init__(self, rng, make=Obj):
        self.rng, self.make = rng, make
        self.objs = {}
        self.history = []            # (type, object): entry i has resource version i + 1
        self.streams = []
        self.lists, self.watches = [], []
        self.fail_list, self.fail_watch = 0, 0
        self.gone_before = 0         # watching from an older version than this fails
        self.frozen = False          # a frozen watch delivers nothing

    def wake(self):
        for s in self.streams:
            s.wake.set()

    def put(self, name, ns="d", silent=False):
        v = len(self.history) + 1
        o = self.make(name, ns, v, self.rng.random())
        k = key(o)
        t = "MODIFIED" if k in self.objs else "ADDED"
        self.objs[k] = o
        self.history.append((t, o))
        self.wake()
        return o

    def delete(self, name, ns="d"):
        k = ns + "/" + name
        if k not in self.objs:
            return None
        old = self.objs.pop(k)
        o = self.make(name, ns, len(self.history) + 1, old["spec"] if isinstance(old, dict) else old.spec)
        self.history.append(("DELETED", o))
        self.wake()
        return o

    async def list(self, options):
        self.lists.append(dict(options))
        await asyncio.sleep(0)
        if self.fail_list:
            self.fail_list -= 1
            raise oops("list failed")
        items = [copy.deepcopy(o) for o in self.objs.values()]
        v = str(len(self.history))
        if self.make is raw:
            return {"items": items, "metadata": {"resourceVersion": v}}
        return SimpleNamespace(items=items, metadata=SimpleNamespace(resource_version=v))

    async def watch(self, options):
        self.watches.append(dict(options))
        await asyncio.sleep(0)
        if self.fail_watch:
            self.fail_watch -= 1
            raise oops("watch failed")
        start = int(options["resource_version"])
        if start < self.gone_before:
            raise oops("410 Gone")
        s = Stream(self, start)
        self.streams.append(s)
        return s

    def drop(self, lose=True):
        """Break the running watches; with lose, whatever they have not delivered is only found by a relist."""
        if lose:
            self.gone_before = len(self.history) + 10 ** 6
        for s in list(self.streams):
            s.end(oops("connection lost"))
            self.streams.remove(s)

    def heal(self):
        self.gone_before = 0
