"""What each property's proof takes for granted (goes into the evidence; see also DESIGN.md)."""

COOP = "asyncio is cooperative: other tasks run only at an await that suspends; what they do to the object is what its own methods guarantee (each method is proved to keep the guarantee)"
FIFOC = "a waiter of an asyncio.Condition that is cancelled in the very step in which it was notified loses that notification (CPython 3.12): such cancellations are left out, as the statement says"
CALLBACK = "functions supplied by the user (key, index, handlers, conditions, reconcilers) may return or raise anything and may be slow, but do not reach into private fields"
EQ = "objects used as keys are hashable and their == does not change while they are kept"
STORE = "the store is seen through its contract (C07, C08), proved separately"
QUEUE = "the queue is seen through its contract, proved separately"
RECORD = "the records in the lock were written by electors (JSON of the five fields, or no record)"

ASSUME = {
    "C01": [COOP, EQ, "consumers call done only for items they hold (done of an item that is not held is proved harmless)"],
    "C02": [COOP, EQ, FIFOC],
    "C03": [COOP, EQ, FIFOC],
    "C04": [COOP, EQ,
            "heapq keeps a list of [key, count, data] entries a heap: the first entry is a least one by the keys the entries were pushed with; push and pop change the content by one entry (assumed of the standard library)",
            "the queue's clock does not go back; its tickers and timers fire only after their duration, and a timer that is due fires (C21)",
            "the loop's proof uses the contracts of the priority queue (delaying.pq.*), proved on its code"],
    "C05": ["the queue of a rate-limited queue is seen through the contract of the delaying queue (C04)", "2.0 ** n is exact and raises OverflowError when it is out of range of a float"],
    "C06": ["the rate bound is over the time the clock shows; of a clock set back it is only proved that it gives no tokens", "the number of members of a combined limiter is arbitrary, each with an arbitrary result; a member that raises is out of scope"],
    "C07": [COOP, EQ, CALLBACK, "stored objects are not None"],
    "C08": [COOP, EQ, "index functions are total, deterministic per object content and return lists; stored objects are not changed in place while they are stored, or keep the index values they were stored with"],
    "C09": [COOP, EQ, CALLBACK, FIFOC],
    "C10": [COOP, EQ, CALLBACK, "copies are shallow: copy.copy / list() of the pending changes (assumed of the standard library)"],
    "C11": [COOP, EQ, STORE, "the key function is deterministic"],
    "C12": [COOP, EQ, CALLBACK],
    "C13": [COOP, EQ, CALLBACK, FIFOC],
    "C14": [STORE, "the delta queue is seen through its contract (C10): every change once, in order", "store operations do not fail; handlers of a plain informer do not raise (in the statement)"],
    "C15": [COOP, "asyncio.Queue is first in first out (assumed of the standard library)", "exponential_backoff is seen through its contract (C22)"],
    "C16": ["the clock does not go back", "random.random() is in [0, 1)"],
    "C17": ["resource versions tell a changed object from an unchanged one (in the statement)"],
    "C18": ["the client's watch is an asynchronous context manager over its events and may fail anywhere", STORE],
    "C19": ["a list or watch call that never answers is a hang of the network, not of the reflector (only streams that have ended are covered)", "the clock's timers fire (C21)"],
    "C20": [COOP, "asyncio.Queue is first in first out and bounded as configured", "watchers are read by one consumer each"],
    "C21": [COOP, "asyncio.sleep(d) returns no earlier than d later", "ticker intervals are positive"],
    "C22": ["asyncio.sleep(d) returns no earlier than d later", "random.random() is in [0, 1)", "conditions of the poll helpers give truth values"],
    "C23": [RECORD, "the elector's own clock does not go back", "the API server refuses a write against an old resourceVersion and returns what was written; annotations are texts", "json.loads(json.dumps(x)) == x for records"],
    "C24": [RECORD, "the elector's own clock does not go back", "asyncio.wait_for ends at its deadline; cancelling a task makes it end", "user callbacks on_stopped_leading and on_new_leader return (they are called synchronously)"],
    "C25": [QUEUE + " (C01-C05)", CALLBACK, "add and forget of the queue do not raise"],
    "C26": [CALLBACK, "the informer is seen through its contract (C14, C15)"],
    "C27": ["names and namespaces are texts (in the last part: without slashes)"],
    "C28": [COOP, "has_synced of an informer is monotone and does not raise", "informers are seen through their contracts (C12, C14)"],
    "C29": ["the generated API client does what its arguments say; the options are a mapping with text keys"],
}
