"""Writes /verif/properties.jsonl (kept as a script so that the texts can be reviewed in one place)."""
import json, os
P = []
def prop(id, title, statement, over, qtext, why, files, mech, state=(), observe=(), hook=None):
    assert len(title) <= 80, (id, len(title))
    P.append({"id": id, "title": title, "statement": statement,
      "quantifier": {"over": over, "text": qtext}, "why_tests_cant": why,
      "anchors": {"files": files, "state": [dict(zip(("name","meaning","where"), s)) for s in state],
                  "mechanism": [dict(zip(("name","where"), m)) for m in mech],
                  "observe_at": list(observe), "hook_needed": hook}})
Q="aiok8s/workqueue/queue.py"; DQ="aiok8s/workqueue/delaying_queue.py"; RQ="aiok8s/workqueue/rate_limiting_queue.py"; RL="aiok8s/workqueue/default_rate_limiters.py"
TS="aiok8s/cache/thread_safe_store.py"; ST="aiok8s/cache/store.py"; FI="aiok8s/cache/fifo.py"; DF="aiok8s/cache/delta_fifo.py"
CC="aiok8s/cache/controller.py"; SI="aiok8s/cache/shared_informer.py"; RF="aiok8s/cache/reflector.py"; MX="aiok8s/watch/mux.py"
CL="aiok8s/util/clock.py"; TM="aiok8s/util/_time.py"; WT="aiok8s/util/wait.py"; LE="aiok8s/leaderelection/leaderelection.py"; LK="aiok8s/leaderelection/resourcelock.py"
KC="aiok8s/controller/controller.py"; KH="aiok8s/controller/handler.py"; KS="aiok8s/controller/source.py"; KCl="aiok8s/controller/client.py"
KCa="aiok8s/controller/cache.py"
KM="aiok8s/controller/manager.py"; KI="aiok8s/controller/_informers_map.py"; KD="aiok8s/controller/_deleg_map.py"; KR="aiok8s/controller/_cache_reader.py"
ME="aiok8s/api/meta.py"; IX="aiok8s/cache/index.py"

prop("C01","A work item is never in two hands, and pending at most once",
 "An item returned by a work queue's get is not returned again, to any consumer, until done has been called for it. However often an item is added it is pending at most once, so one burst of adds is answered by one delivery. Pending items are delivered in the order in which they became pending.",
 ["histories","schedules","inputs"],"every sequence and interleaving of add, get, done and shut_down by any number of producers and consumers, for any hashable items",
 "The tests run a few fixed producer/consumer loops with one interleaving each; exclusivity and de-duplication must hold for every history and schedule.",
 [Q],[("Type.add / get / done", Q)],[("pending sequence","items waiting",Q+" Type._queue"),("dirty","items that need processing",Q+" Type._dirty"),("processing","items in some consumer's hands",Q+" Type._processing")],["get() results","len(queue)"])
prop("C02","No accepted work item is lost, and no consumer sleeps past one",
 "Every add accepted before shutdown is followed by a delivery of that item that starts after the add: an item added while it is being processed becomes pending again when done is called for it, and an item added while pending or idle is pending when add returns. As long as no waiting consumer is cancelled, no consumer stays blocked in get while an item is pending.",
 ["histories","schedules","inputs"],"every history and interleaving of add, get and done, including adds that hit an item in each of its states (idle, pending, processing, processing and dirty)",
 "The tests sample one or two re-adds; a lost item or lost wake-up needs a particular state and schedule.",
 [Q],[("Type.add, done: dirty set and notify", Q),("Type.get: wait loop", Q)],[("waiters","consumers blocked in get",Q+" Type._cond")],["get() results"])
prop("C03","Shutting a work queue down drains it and releases every consumer",
 "After shut_down of a plain, delaying or rate-limited work queue has returned, items added afterwards by any add operation are ignored, and items already pending (or dirty and under processing, once done is called) are still delivered. Every get that is blocked then, or is made later, returns: a pending item while there is one, and the shutdown signal (None, True) when there is none. A queue that is not shut down never returns the shutdown signal, and shutting down twice is harmless.",
 ["histories","schedules"],"every history of adds, gets, dones, delayed adds and shut_down, any number of blocked consumers, and all three queue types",
 "The tests shut down only the plain queue once; the delaying and rate-limited queues, which override shut_down, are never shut down.",
 [Q,DQ,RQ],[("Type.shut_down / add / get",Q),("_DelayingType.shut_down / add_after",DQ)],[("shutting down flag","set for good by shut_down",Q+" Type._shutting_down")],["get() results","shutting_down()"])
prop("C04","A delayed add is delivered once due, never early, once per item",
 "add_after with a positive delay makes the item pending no earlier than that delay after the call on the queue's clock, and makes it pending once the queue's loop has seen the clock reach that time, so long as the queue is not shut down. While an item is waiting for its time (from when the queue's loop has taken its delayed add up until the loop adds it) further delayed adds of it do not cause another delivery: the earliest of their times counts. A delay of zero or less adds the item at once, and items whose time has come are added in the order of their times.",
 ["histories","schedules","inputs"],"every set of items and delays, every interleaving of delayed adds with clock progress and with the queue's own loop",
 "The tests step a fake clock through four short scripts; ordering and de-duplication of the waiting items must hold for every mix of times and repeats.",
 [DQ],[("_DelayingType.add_after",DQ),("_DelayingType._waiting_loop",DQ),("_WaitForPriorityQueue",DQ)],[("waiting entries","item and the time it becomes ready",DQ+" _WaitForPriorityQueue")],["get() results on a fake clock"])
prop("C05","Retry delays grow exponentially per item, capped, and forget resets",
 "For every item the n-th consecutive failure since the item was last forgotten gets the delay min(base * 2^(n-1), max), for every n however large, without raising. num_requeues returns the number of those failures. Items do not influence each other, and forget (also of an unknown item) resets exactly that item.",
 ["histories","inputs"],"every base and maximum delay, every sequence of when / forget / num_requeues calls over any items, any number of consecutive failures",
 "The tests go up to 1001 failures of one item and two parameter pairs.",
 [RL],[("ItemExponentialFailureRateLimiter",RL)],[("failure count","per item",RL)],["when()","num_requeues()"])
prop("C06","The token bucket bounds the rate; combined limiters take the longest delay",
 "With limit r and burst b, the ready times (call time plus returned delay) a token bucket hands out never put more than b + r*T calls into any interval of length T, no delay is longer than that bound requires, and none is negative; a clock that is set back gives no tokens. A combined limiter asks every member exactly once per call and returns the largest delay, returns the largest requeue count, and passes forget on to every member. The default controller limiter combines 5 ms-doubling backoff up to 1000 s per item with an overall rate of 10 per second and burst 100.",
 ["histories","inputs"],"every limit > 0, burst >= 1 and every sequence of call times on a clock that may stand still (and, where stated, be set back)",
 "The test checks the token arithmetic at a handful of fixed states.",
 [RL],[("BucketRateLimiter.when/_advance",RL),("_MaxOfRateLimiters",RL),("default_controller_rate_limiter",RL)],[("tokens, last","bucket level at the last call",RL)],["when()"])
prop("C07","The object store is an exact last-write-wins map",
 "After any sequence of add, update, delete and replace, the store holds for each key exactly the object written last and nothing for keys never written, deleted since, or absent from the latest replace; get, get_by_key, list and list_keys all report exactly that content, and deleting an absent key is a no-op. If the key function fails on any object involved, the operation raises StoreKeyError carrying that object and leaves the store unchanged.",
 ["histories","inputs"],"every history of operations over any objects, any key function (including one that raises), and any set of index functions",
 "The tests run one short script of operations on one store.",
 [ST,TS],[("_Cache",ST),("_ThreadSafeMap",TS)],[("items","key to object",TS+" _ThreadSafeMap._items")],["get()","get_by_key()","list()","list_keys()"])
prop("C08","Index lookups always agree with the stored objects",
 "After any sequence of add, update, delete and replace, for every index: looking up an index value returns exactly the stored objects (or keys) whose index function yields that value, each once, and the listed index values are exactly those some stored object yields. Looking something up in an index that does not exist fails. This holds for index functions that yield no, several or repeated values. Indexers added to an empty store with new names take part from then on; adding indexers to a non-empty store or under an existing name is refused and changes nothing.",
 ["histories","inputs"],"every history of store operations, every set of deterministic index functions (values may repeat, may be shared between objects, may be empty)",
 "The tests check two small fixed indexes after a handful of operations.",
 [TS,ST],[("_update_indices / _delete_from_indices",TS),("index / by_index / index_keys / list_index_func_values / add_indexers",TS)],[("indices","index name to value to set of keys",TS+" _ThreadSafeMap._indices")],["index()","by_index()","index_keys()","list_index_func_values()"])
prop("C09","The FIFO queue delivers each key's latest object once, in arrival order",
 "Each pop of the FIFO queue hands its processor the object last written under a key that is pending (added, updated or in the latest replace, and since neither popped nor deleted), and that key is then no longer pending; a deleted or replaced-away object is never handed out, and every pending key is handed out if pops go on. Keys that were not deleted while pending are handed out in the order in which they became pending, updates not changing their place (a replace makes all its keys pending anew, in the order of its list). add_if_not_present and resync never replace or duplicate a pending object, deleting an absent key is a no-op, and list, list_keys, get and get_by_key report exactly the pending objects.",
 ["histories","schedules","inputs"],"every history of add, update, delete, replace, resync, add_if_not_present and pop, for any objects and key function",
 "The tests run short scripts with few keys.",
 [FI],[("FIFO",FI)],[("items","pending objects",FI+" FIFO._items"),("queue","key order",FI+" FIFO._queue")],["pop()","list()","get()"])
prop("C10","The delta queue hands over every change of a key, in order, exactly once",
 "The delta queue accumulates, per key, every add, update and delete (and queued sync) since the key was last popped, in the order in which they were made, and pop hands the processor the whole accumulated list of the longest-waiting key, once. Nothing is dropped but the following: of two consecutive deletions one is kept, preferring the one that carries a real object over a tombstone; a deletion of a key that is neither queued nor known is ignored; a resync queues nothing for a key that has pending changes. Reads (list, list_keys, get, get_by_key) report exactly the pending changes and give out copies that do not let the caller alter the queue.",
 ["histories","schedules","inputs"],"every history of add, update, delete, replace, resync, add_if_not_present and pop by any tasks, for any objects, key function and known-objects store",
 "The tests run scripts of at most four operations on a key.",
 [DF],[("DeltaFIFO._queue_action_locked, _dedup_deltas",DF),("DeltaFIFO.pop",DF)],[("items","key to pending changes",DF+" DeltaFIFO._items"),("queue","key order",DF+" DeltaFIFO._queue")],["pop()","get_by_key()"])
prop("C11","A relist queues the exact difference: syncs for listed, deletions for missing",
 "replace on the delta queue queues a sync of every listed object. For every key that is not listed but is in the known-objects store or has pending changes, the pending changes afterwards end in exactly one deletion: a deletion that is already the newest pending change stays (or gives way to an equivalent tombstone), otherwise a tombstone is queued that carries the key and the last object known for it (of the newest pending change if there is one, else the stored one). Other keys are untouched. Thus once all pending changes are processed nothing that was missing from the list survives. resync queues a sync of exactly those known objects that have no pending change.",
 ["histories","inputs"],"every queue content, every known-objects content, every list of objects with distinct keys",
 "The tests use three fixed objects; the mix of pending-only, known-only, and both must be right for every state.",
 [DF],[("DeltaFIFO.replace",DF),("DeltaFIFO.resync / _sync_key_locked",DF)],[("known objects","what the consumer already holds",DF+" DeltaFIFO._known_objects")],["pop()"])
prop("C12","has_synced turns true only once the first batch has been processed",
 "has_synced of the delta queue and of the FIFO queue, and of the informers built on them, is false before the queue is first populated; when the first population is a replace with n distinct keys (plus, for the delta queue, the deletions it queues) it stays false until n entries have been taken out by pop (entries deleted meanwhile count when pop passes over them) and the processing of each has finished, successfully or not, and is true from then on (a processor that was cancelled has not finished). At no moment in between, including while the last entry is still being processed, is it true.",
 ["schedules","histories"],"every schedule of pop's processing against observers of has_synced, every history before and after the first replace, any list",
 "The tests look at has_synced only between completed pops, never while a processor is suspended.",
 [DF,FI,CC,SI],[("pop / replace / has_synced",DF),("pop / replace / has_synced",FI),("_Controller.has_synced",CC)],[("initial population count","entries of the first batch still to process",DF)],["has_synced()"])
prop("C13","A failing processor loses no item, and closing ends every pop",
 "When pop's processor raises the requeue error, the popped entry is pending again afterwards unless a newer entry for its key is pending, in which case the newer one stays; when the requeue error has a cause, or the processor raises any other exception, pop raises ProcessError carrying that entry and that exception as cause. pop on a closed queue still returns pending entries and raises FIFOClosedError when there are none; every pop blocked on an empty queue returns or raises once an entry is added or the queue is closed. This holds for the FIFO queue and the delta queue.",
 ["histories","schedules","fault_sequences"],"every processor outcome (return, requeue with and without cause, any exception), every state of the queue, every schedule of blocked pops with add and close",
 "The tests exercise requeue twice on a one-element queue and never close a queue.",
 [FI,DF],[("FIFO.pop / close / add_if_not_present",FI),("DeltaFIFO.pop / close",DF)],[],["pop()"])
prop("C14","An informer's store mirrors the changes and its handler calls match it",
 "An informer (plain or shared) applies every change handed to it to its local store in order, before the handlers hear of it, so that the store always equals the result of the changes processed so far. For each change exactly one notification is made: add with the new object if the key was not in the store, update with the stored and the new object if it was, delete with the deleted object (or tombstone). (Handlers of a plain informer are assumed not to raise, and store operations not to fail.)",
 ["histories","inputs","schedules"],"every sequence of delta lists, any prior store content, objects and tombstones, any handler suspension",
 "The tests drive a few random changes through one informer and check only event kinds.",
 [CC,SI],[("_new_informer.process",CC),("_SharedIndexInformer.handle_deltas",SI),("deletion_handling_meta_namespace_key_func",CC)],[("store / indexer","local copy",SI+" _SharedIndexInformer._indexer")],["handler calls","get_indexer()"])
prop("C15","Every handler of a shared informer gets every notification once, in order",
 "Each notification distributed to a listener while it is running is passed to the matching handler method of that listener (on_add, on_update, on_delete with its objects) exactly once and in the order of distribution, however long the handler takes, until the informer stops. A handler that raises loses at most that one notification and later ones are still delivered. A handler that does not come back for long holds up neither the store nor the other handlers. A handler added after the start first gets an add for every object then in the store, and then every later change, none missed and none twice.",
 ["schedules","histories","fault_sequences"],"every interleaving of distribution, the listener's two tasks and the handler; every number of buffered notifications; handlers that suspend or raise; late registration at any moment",
 "The tests use quick handlers and count a few adds.",
 [SI],[("_ProcessListener._add / _pop / _run",SI),("_SharedProcessor._distribute / _add_listener",SI),("_SharedIndexInformer.add_event_handler",SI)],[("pending notifications","buffer of a slow listener",SI+" _ProcessListener._pending_notifications")],["handler calls"])
prop("C16","Periodic resyncs reach exactly the listeners that are due",
 "A listener with resync period 0 never gets a periodic resync notification; one with a positive period gets resyncs no closer together than its effective period, and the period of a handler is raised to at least the minimum (1 s) and at least the informer's check period once the informer has started, while before the start the check period drops to the smallest requested one. When a periodic check finds listeners due, exactly those are marked for the resync and their next time is one period later; a handler added later takes no part in a resync that is under way; the check asks for a resync if and only if some listener is due. An informer cache spreads its informers' resync periods over 0.9 to 1.1 times the configured one.",
 ["inputs","histories"],"every set of requested periods, before and after start, and every sequence of check times",
 "The tests cover four fixed periods and two check times.",
 [SI,KI],[("_determine_resync_period",SI),("_SharedProcessor._should_resync",SI),("_SharedIndexInformer.add_event_handler",SI),("_resync_period",KI)],[("next resync, resync period","per listener",SI+" _ProcessListener")],["handler calls on a fake clock"])
prop("C17","A change found by a relist reaches every listener",
 "When a relist shows that an object is new to the informer's store or differs (in resource version) from the stored one, every listener of a shared informer is notified of that change, whatever its resync period and whatever periodic resyncs happened before. Only re-deliveries of an unchanged object are limited to the listeners taking part in the current resync.",
 ["histories"],"every history of periodic resync checks and relists, every mix of listeners with and without a resync period",
 "No test relists after a resync check with listeners of different periods.",
 [SI],[("_SharedIndexInformer.handle_deltas",SI),("_SharedProcessor._distribute",SI)],[("syncing listeners","listeners of the current resync",SI+" _SharedProcessor._syncing_listeners")],["handler calls"])
prop("C18","The reflector applies the list and then every watch event, in order",
 "A reflector lists once, replaces the store's content with the listed items, and then starts its watch from the listed resource version; every received event of the expected kind is applied to the store once, in order and by its kind (added: add, modified: update, deleted: delete, bookmark: nothing), and objects of another type or kind are skipped without effect. The version it reports, and from which the next watch starts, is always that of the last applied event, or of the list when there was none. A store operation that fails does not stop the stream.",
 ["inputs","histories","schedules"],"every list, every sequence of events (kinds, types, versions), any store outcome, any number of consecutive watches",
 "The tests replay a few fixed event scripts.",
 [RF,ME],[("Reflector.list_and_watch",RF),("Reflector._watch_handler",RF)],[("last sync resource version","where to resume",RF)],["store calls","watch options","last_sync_resource_version()"])
prop("C19","A reflector always recovers: any failure ends in a relist, never a hang",
 "Whatever fails - the list call, the watch call, an error event, an exception raised by the watch stream, a failing resync of the store, or a watch that closes at once without events - the current list-and-watch round ends, its watch and its background tasks are stopped, and the running reflector lists again after its period; a watch that closes normally is simply started again. The reflector never blocks forever on a stream that has ended, and it only stops when it is cancelled.",
 ["fault_sequences","schedules"],"every failure at every point of a round, after any number of events, in any order of completion",
 "The tests inject a list error, a watch error and an error event; none raises from the stream.",
 [RF],[("Reflector.run",RF),("Reflector.list_and_watch",RF),("Reflector._watch_handler",RF)],[],["list calls","run()"])
prop("C20","The broadcaster gives each watcher every event, in order",
 "A watcher of a broadcaster receives exactly the events acted on after its watch call returned (after its prefix events, if it was given any), each once and in order, until it is stopped; in drop mode an event is withheld from a watcher only if that watcher's buffer was full at that moment, and other watchers are not affected. Stopping a watcher, also while a delivery to it is blocked, lets the others go on, and stopping twice is harmless. shutdown delivers everything acted on before it, then ends every watcher's iteration.",
 ["schedules","histories"],"every mode and buffer size, any number of watchers, every interleaving of watch, action, stop, slow consumption and shutdown",
 "The tests use two watchers and at most four events.",
 [MX],[("Broadcaster._distribute / _loop / watch / watch_with_prefix / _stop_watching / shutdown",MX),("_BroadcasterWatcher",MX)],[("watchers","id to watcher",MX+" Broadcaster._watchers")],["iteration of watchers"])
prop("C21","Timers and tickers of the clocks fire when due, once, and not after stop",
 "On the fake clock a timer fires exactly once, when the time is first set to or past its target, never before, and not at all once stopped; stop tells whether it was still pending and leaves every other timer alone, and reset moves a pending timer's target. A ticker fires whenever a step reaches its next tick unless its previous tick has not been consumed, and its next tick is the first multiple of its interval after the new time. now and since always reflect the time last set. A timer of the real clock gives one value after its duration and none once stopped before; a real ticker gives one after each interval unless the last one is still there.",
 ["histories","inputs"],"every set of timers and tickers, every sequence of set_time, step, stop and reset",
 "The tests use one or two timers and a few steps.",
 [CL,TM],[("FakeClock._set_time_locked / new_timer / new_ticker",CL),("_FakeTimer.stop / reset",CL)],[("waiters","pending timers and tickers",CL+" FakeClock._waiters")],["timer and ticker queues"])
prop("C22","Backoff and polling helpers attempt as often and wait as long as configured",
 "exponential_backoff evaluates its condition until it is first true, at most the configured number of steps, waits between attempts the successive durations d, d*f, d*f^2 ... limited by the cap (each stretched by at most the jitter factor, never shortened), raises WaitTimeoutError when the attempts are used up, lets the condition's exceptions through, and never alters the configuration it was given. jitter returns a value between the duration and duration * (1 + factor), using 1 for a factor that is not positive. The poll helpers evaluate the condition once per interval (the immediate ones also at once) and return at the first true result, let the condition's exceptions through, and those with a timeout raise WaitTimeoutError when it expires. The loop helpers (loop, until and their jittered forms) call their function again and again, each time one period, stretched by at most the jitter factor, after the previous call ended if sliding and after it began otherwise; until and jitter_until call it no more once the stop event is set.",
 ["inputs","histories"],"every number of steps, duration, factor, jitter and cap, every sequence of condition results",
 "The tests check a few fixed configurations.",
 [WT,"aiok8s/util/retry.py"],[("Backoff.step / exponential_backoff / jitter / poll*",WT),("loop / jitter_loop / until / jitter_until",WT)],[],["return values","sleeps"])
prop("C23","An elector leads only with a valid lease of its own",
 "An attempt to acquire or renew the lease succeeds only if the elector has itself just written, through the lock's create or update, a record naming it as the holder; a failed read or write never makes it succeed. It never writes its name into a lock whose record names another holder unless a full lease duration has passed, on its own clock, since it last saw that record change (records being written by electors); the number of leader transitions it writes grows by one exactly when the holder changes, while the acquire time is kept exactly as long as it does not. is_leader tells whether the record it last read or wrote names it. The config map lock keeps the record in one annotation of its config map and leaves the others alone, gives no record when there is no config map and an empty one when there is no annotation, reports every other failure, and writes only against the version it last read or wrote, so that a write fails when somebody else has written since.",
 ["histories","fault_sequences","inputs"],"every sequence of lock states written by other candidates, every clock reading, every failure of get, create and update",
 "There is no test of leader election at all.",
 [LE,LK],[("LeaderElector._try_acquire_or_renew",LE),("ConfigMapLock",LK)],[("observed record, raw record, time","what the elector last saw and when",LE)],["lock.create / lock.update calls","is_leader()"])
prop("C24","Leading starts after acquiring, ends by the renew deadline, always reported",
 "run, of an elector that may have run before, keeps trying to acquire the lease until it succeeds or is cancelled, calls on_started_leading only after the lease was acquired, once, keeps renewing while leading, and stops leading - cancelling the leader's work - no later than the renew deadline after the start of the first renewal attempt that follows the last successful one when renewals keep failing or hanging, and whenever it is cancelled. With release_on_cancel, a leader that stops then tries to give the lease up, for at most the renew deadline, by writing a record without holder; without it, or when it is not the holder, it writes no such record. on_stopped_leading is called exactly once on every exit of run that has begun, after the leader's work was cancelled, also when the elector never led. on_new_leader, which may be None, is called with the holder observed (none included), once for each change of it, after each attempt to acquire and after each renewal (successful or given up).",
 ["histories","schedules","fault_sequences"],"every outcome of every acquire and renew attempt, cancellation at any await",
 "There is no test of leader election at all.",
 [LE],[("LeaderElector.run / _acquire / _renew / _release / _maybe_report_transition",LE)],[],["callbacks","lock calls"])
prop("C25","Every reconcile outcome puts the request where it belongs",
 "A controller takes a request from its queue, reconciles it, and marks it done exactly once whatever happens. On success the request's failure history is forgotten; with a requeue delay it is forgotten and added again after that delay; when a requeue is asked for, or reconciling raises, it is added again rate-limited and its history kept; an item that is not a request is forgotten and not reconciled. The worker stops on shutdown (or cancellation) and only then, never because of a failing reconcile, and stopping the controller shuts its queue down.",
 ["inputs","fault_sequences","schedules"],"every reconcile result and exception, every kind of queue item, cancellation at any await",
 "There is no test of the controller.",
 [KC],[("_Controller._process_next_work_item / _reconcile_handler / start",KC)],[],["queue calls"])
prop("C26","Every object event becomes a request for that object",
 "Creation, update and deletion of an object seen by a watched source each enqueue a request with exactly that object's namespace and name (an update enqueues both the old and the new object's), unless some predicate rejects the event, in which case nothing is enqueued; predicates see the event with the right objects and metadata. A deletion that is only noticed by a relist and arrives as a tombstone counts like any other deletion. An object without metadata enqueues nothing and raises nothing.",
 ["inputs"],"every object, tombstone, pair of objects and list of predicates",
 "There is no test of sources or handlers.",
 [KS,KH],[("EventHandler.on_add / on_update / on_delete",KS),("EnqueueRequestForObject",KH)],[],["queue.add calls"])
prop("C27","Objects have one identity, typed or not, across store, cache and requests",
 "An object's store key is namespace/name when it has a non-empty namespace and its name otherwise (a tombstone's and an explicit key's is the key itself), the same for typed objects and dicts, also for dicts whose metadata has no namespace; looking an object up by its namespace and name uses that same key, and objects with different namespace or name (without slashes) never share one. The group, version and kind of an object follow from its apiVersion and kind for core ('v1') and named groups alike.",
 ["inputs"],"every namespace, name, apiVersion and kind, for typed objects and dicts",
 "The tests use a few names without namespace and never a group-version-kind.",
 [ST,ME,KR,CC],[("meta_namespace_key_func",ST),("accessor / type_accessor",ME),("_object_key_to_store_key",KR),("deletion_handling_meta_namespace_key_func",CC)],[],["keys"])
prop("C28","Controllers start on synced caches, and reads go to one shared informer",
 "The manager starts its controllers, each once, only after its cache has synced, and a manager whose cache cannot sync, or which is cancelled before, starts none, fails and stops its cache; a controller works on its queue only after its sources were started and the cache has synced. Waiting for a cache sync reports success only when all given informers (those of the cache) have synced, and then promptly. All requests for the same kind share one informer, of that kind, and starting the cache runs every informer requested before, once. Reading from the cache before it is started raises CacheNotStartedError, afterwards it waits for that informer to sync and returns the stored object for the key or raises KeyError if there is none (an informer first requested after the start is not run, as documented in the builder).",
 ["schedules","histories"],"every order in which informers sync, every interleaving of requests and reads with the start, every key, every number of informers and controllers",
 "There is no test of the manager or the informer cache.",
 [KM,KCa,KI,KD,KR,SI,KC],[("_ControllerManager.start / _wait_for_cache",KM),("_SpecificInformersMap.get / start",KI),("wait_for_cache_sync",SI),("_InformerCache.get",KCa),("CacheReader.get",KR),("_Controller.start",KC)],[("informers by kind","shared informers",KI+" _SpecificInformersMap._informers_by_gvk")],["controller start","cache.get()"])
prop("C29","A cache lists and watches exactly the kind and namespace it was made for",
 "An informer of a cache made for a namespace lists and watches only that namespace, and one of a cache made for no (or an empty) namespace lists and watches all of them; every such call goes to a client of the kind asked for, with exactly the options it was given (and the namespace, if there is one), which it leaves alone, and every watch is a stream of its own. A kind has exactly one client: registering a second one is refused and changes nothing, a type leads to the kind it was registered for, and a type or kind that is not registered is refused with KeyError.",
 ["inputs","histories"],"every namespace, kind, set of options and sequence of lists and watches",
 "There is no test of the informer cache or of the clients.",
 [KI,KCl,KCa],[("_create_structured_list_watch / _get_kwargs",KI),("_Client / _PodClient",KCl)],[("registered clients","kinds, object types",KCl)],["lister and watcher calls"])
with open(os.path.join(os.path.dirname(__file__),"..","properties.jsonl"),"w") as f:
    for p in P: f.write(json.dumps(p)+"\n")
print(len(P))
