"""heapq on a list of entries, as a multiset with a least element (assumed contract of heapq)."""
from .core import Unsupported, E


def heappush(lst, x):
    h = E().hooks.get("heappush")
    if h is None:
        raise Unsupported("heapq")
    return h(lst, x)


def heappop(lst):
    h = E().hooks.get("heappop")
    if h is None:
        raise Unsupported("heapq")
    return h(lst)


def heapify(lst):
    raise Unsupported("heapify")
