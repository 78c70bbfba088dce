HEAD = '''# Contract-based deductive verification of tbarrella/aiok8s

(Written by `python3-vt tools/mkdesign.py` from tools/design_text.py, the contracts and the planted bugs.)

## The approach

No deductive verifier for Python is installed, so /verif contains one, `pydv`: a verification-condition generator
for the real code.  On every run it reads the modules of /repo as they are now, instruments their AST mechanically,
and executes every function under contract on symbolic values:

* *Functions.* A contract (`contracts/<area>.py`, `@spec.contract`) builds an arbitrary state that satisfies the
  precondition and the data-structure invariant, calls the function and states its postcondition.  A callee that is
  itself under contract is replaced by its contract (e.g. informers see the store as the map C07 proves it to be; the
  delaying loop sees its priority queue through `delaying.pq.*`); small private helpers are executed, so
  extracting or inlining one changes nothing.
* *Loops* are cut by invariants (`spec.LoopSpec`): the invariant is proved at the entry, everything the loop writes is
  forgotten, the invariant is assumed, one arbitrary iteration runs, the invariant is proved again.  What a
  loop writes is discovered by the engine (not declared), so frames need no annotations.  Loops over collections of any
  size are covered by one arbitrary iteration; there is no unrolling and no bound.
* *Awaits* are cut by rely/guarantee: at an await that may suspend, the monitor's invariant and guarantee are proved
  for the segment just executed, the shared fields are forgotten, and the invariant and rely are assumed.  That
  each method keeps the guarantee is proved in the method's own contract, so all interleavings of all methods are covered.
  Awaits at which the task may be cancelled fork a path on which CancelledError is raised there; contracts enable
  this with `eng.cancel_enabled`.  `asyncio.wait`, `wait_for`, tasks, events, conditions, locks, queues and sleeps
  are models with exactly the nondeterminism their documentation leaves (`pydv/aio.py`).
* *Heap.* Attributes, list elements and dict entries live in z3 arrays indexed by references (`pydv/heap.py`,
  `containers.py`); aliasing is whatever the path condition allows.  Values of the caller are opaque terms.
* *Existence of work* (exactly once, in order) is stated with ghost counters and ghost sequences held in heap arrays, so
  loops forget them unless the invariant keeps them.
* Every obligation is discharged by z3 on every run (`thorough`: every obligation also goes to cvc5, whose answer is
  recorded).  Paths are pruned only when z3 *refutes* them.  An obligation z3 gives up on is tried again with other seeds, and a contract
  that was left open by time limits (not refuted) is run once more with four times the patience, so a loaded machine
  does not raise alarms.
* *Vacuity*: contracts name cover points that must be reachable; a contract without a complete path, without
  obligations or with an unreachable cover counts as not proved.

The same properties are also tested by a bounded harness (`replay/`, run with the interpreter of the tests, on the
unmodified modules): randomised scenarios on a virtual-time event loop that explores schedules, delays, faults and
cancellations.  It is used for three things only: to replay a failing obligation as a concrete failing input, as the
labelled stand-in where a contract could not be applied to changed code (`BOUNDED` lines, "bounded only" in the evidence,
never counted as proved), and to test the contracts themselves.

### What a run decides

* every contract proved, harness silent: exit 0.
* an obligation tagged with the property fails: `VIOLATION`; the replay file has the obligation, its place, the
  solver's model if any and, if the harness found one, a failing input (scenario and seed) with the command that replays it;
  otherwise the line ends with `no-failing-input-found`.
* the harness finds a failing input: `VIOLATION` with it, also when the proof does not apply.
* code outside the verifier's subset (`Unsupported`), an untagged (supporting) obligation that fails, a loop that
  no LoopSpec of the contract matches (*weak loop*), or a comprehension kind that the contract was not written for
  (`contracts/constructs.json`, recorded on the clean tree): the contract is reported `BOUNDED`, i.e. undecided, and
  only the harness speaks.  This is what keeps refactorings quiet: a loop rewritten into a shape whose invariant is unknown
  cannot fail an obligation "by ignorance".

### What the instrumentation changes

The text that is verified is /repo's own, transformed on every run by `pydv/loader.py`:

* `for`, `async for` and `while` loops inside functions are driven by the loop rule, and re-read the locals they assign;
* list, dict and set displays and comprehensions build model containers; `*seq` in calls and `*args` of functions
  also pass sequences of unknown length;
* `is`/`is not` go through the identity of symbolic values; f-strings keep symbolic parts; `str`, `int`, `float`, `bool`
  and the builtins (`len`, `sorted`, `any`, ...) are the model ones;
* every function entry is logged (that is where "functions executed" in the evidence comes from) and attribute writes are
  logged (loop frames); exception handlers let the verifier's own control signals pass;
* dropped: annotations of arguments and returns.  Kept: decorators, defaults, class bodies, module-level code.

Nothing is extracted or rewritten by hand; imports of repository modules resolve to their instrumented versions, those of
asyncio, time, random, math, heapq, collections, copy, json and the Kubernetes client to models (assumed contracts), all
others to the real library.

### What is trusted

CPython executing instrumented code as the original; the engine, its models of the standard library (asyncio above all) and
of the API client; z3; mathematical reals for floats (no rounding, infinities are literals); user functions are called
with arbitrary results but do not reach into private state; per property the list under "taken for granted" (also
in the evidence).  Hash-based containers use ==, assumed to agree with `is` for opaque caller values.

### Running

`setup.sh` checks the tools; `./check.py C07 quick|thorough` decides a property; `python3-vt tools/run1.py MODULE [NAME]`
proves single contracts (`PYDV_REPO=path` for another tree); `python3 tools/seed.py try [ID]` runs planted bugs;
`tools/variants.py` runs behaviour-preserving edits.  Quick checks take 4 to 75 s.
'''

HOW = {
"C01": '''A monitor over the queue's private state (pending sequence, dirty set, processing set): pending = dirty minus processing,
each once.  add/get/done/shut_down each keep it and state exactly what they do to the sequence (append at the end, take the
first, nothing), from any state, with any other call in between wherever they wait.''',
"C02": '''Same monitor; in addition "an item pending and nobody told" is excluded: a ghost count of wake-ups owed to waiters is part of the
invariant (each append is followed by a notify in the same step).''',
"C03": '''Same monitor; shut_down sets the flag and wakes every waiter, get returns the signal only when drained and shut down; the delaying
queue's shut_down stops its loop and its inner queue, once.''',
"C04": '''Three layers.  The priority queue's insert/pop/peek over an arbitrary heap with the map of waiting items (each removed entry is marked,
exactly one live entry per item, at the earlier of the times).  The loop, over any clock, any sequence of delayed adds and any wake-up: an
item is added only when the clock was read past its time, times come in order, nothing waits past the moment the loop sees its time (the
timer set covers the earliest entry).  add_after passes (item, now + delay) on or adds at once.''',
"C05": '''Arithmetic contract over the failure map (any n, including the overflow branch); other items' entries are framed.''',
"C06": '''`when` is proved to follow the recurrence zero' = max(zero, now - b/r) + 1/r; a lemma (also discharged by z3, by induction over an
arbitrary interval) shows the recurrence implies the rate bound and that no smaller delay would do.  Combined limiters range over any number of
members with a call log.''',
"C07": '''Map semantics of each operation from any state, key function failing anywhere; the caching layer is proved against the storage's contract.''',
"C08": '''The index structure invariant (every stored object under each of its index values, nothing else, no empty entries, separate containers) is
kept by every write, for any number of indexers and values, by nested loop invariants; lookups return exactly the matching set.''',
"C09": '''Monitor over the items map and the order (each pending key once in the order, stale order entries allowed); pop's loop skips stale entries.''',
"C10": '''Monitor over key -> list of deltas (two-level heap model).  Merge rule of two deletions stated exactly; reads give out copies (separate references).''',
"C11": '''replace over any list, any known store, any pending changes with four nested/sequential loop invariants (recursion axioms for "seen in the list");
postcondition per key.''',
"C12": '''Ghost counter of initial entries not yet finished equals the code's counter (monitor part of C09/C10 contracts); has_synced reads it.''',
"C13": '''Exceptional postconditions of pop for every outcome of the processor, put-back under the lock, wake-up of every waiter by close.''',
"C14": '''Per delta, an arbitrary iteration with the store's contract: lookup decides add/update, store changes before the call-back is made, one notification.''',
"C15": '''distribute gives each running listener one entry (any number of listeners); the listener's two tasks keep "given = taken + in hand + queued" as a
ghost sequence, under cancellation at every await and any exception of the handler, and the first never waits for the handler alone;
registration under the lock.''',
"C16": '''Real arithmetic on periods and times; should_resync marks exactly the due ones for any number of listeners.''',
"C17": '''handle_deltas: the is-sync flag passed to distribute is true only for a re-delivery of an unchanged object; distribute reaches all
listeners when it is false.''',
"C18": '''list_and_watch, get_events, watch_handler with ghost sequences (received, applied) and ghost version; every failure anywhere.''',
"C19": '''Exceptional postconditions of the same contracts plus resync and run: no task left, context manager left, the run loop waits its period and lists again.''',
"C20": '''distribute over any watchers and fullness; the loop's order by ghost sequences; registration and stop under ids; the watcher's side.''',
"C21": '''An arbitrary fake clock with any number of waiters; set_time's loops treat each exactly as specified; sublist lemmas with explicit positions.''',
"C22": '''Ghost attempt counter and duration recurrence; every result, exception and time of the condition.''',
"C23": '''One attempt from any observed state, the lock being arbitrary at every operation; a ghost log of writes; the config map lock against a model of the API.''',
"C24": '''run as one contract over its whole life, ghost state for lease, work, callbacks; cancellation at every await, deadlines on the clock.''',
"C25": '''The worker over any number of items with the queue's contract; reconcile outcomes by cases; start and stop.''',
"C26": '''Each event type, typed and dict objects, tombstones, any number of predicates with arbitrary verdicts.''',
"C27": '''Functional contracts over z3 strings, typed and dict objects, absent/None/empty namespaces.''',
"C28": '''Manager, cache and controller start/stop in order, any number of controllers, informers and kinds; cancellation and failure anywhere.''',
"C29": '''The closure path from the cache's configuration to the client call, options copied; the registry for any two kinds.''',
}

TAIL = '''## Findings

All 31 genuine defects found so far are repaired in /repo, one `fix:` commit each, and listed in `known_findings.txt`; no finding is open.

## False alarms and machinery errors corrected on the way

* C11: the relist harness exempted keys whose deletion was pending; that exemption hid a real defect (aa3dcb4) and was removed.
* The engine once did not count ghost writes at loop back edges, treated `MTask.done()` of a finished model task wrongly and let `wait_for`
  complete in time only; each was found by planting a bug that should have been caught.
* The harness of C15 skipped a check when a listener had not started and so swallowed a violation.
* Violations raised inside code under test that catches `Exception` were lost; the harness now remembers every one.
* The config map lock's contract assumed too little about annotation texts (alarm on correct code): annotations are texts.
* C28 once demanded that the end of the cache ends the manager: not in the documentation; dropped.
* C04's first statement let an item count as waiting only once in the heap; "waiting" now begins when the loop takes it up.
* A planted bug `c04-at-once-while-waiting` was dropped: what it changes is not observable.
* Under heavy load z3's time limits once left an obligation of C11 open: contracts left open are now run once more with more patience.

## Limits, noted and not claimed

* A cancelled `mux.watch()` leaves an orphan watcher; a watch after shutdown waits for ever; stopping a watcher waits for the broadcaster's lock
  (as in Go).
* A waiter of a `Condition` cancelled in the step in which it was notified loses that wake-up (CPython 3.12).
* FIFO: a second replace before the first population is processed recounts.  DeltaFIFO add/update with a failing key function marks populated.
* A negative number of steps makes `exponential_backoff` loop for ever; after the cap is reached it sleeps once more and gives up (as in Go).
* `jitter_until` leaks its stop task when its function raises; a cancelled `_pop` leaks its get/put tasks; a cancelled `add_after` its put task.
* The buffer of a handler that does not come back grows without bound (as in Go).
* A raising handler of a plain informer drops the remaining deltas of that pop; malformed watch objects end the watch.
* `_FakeTicker.stop` does nothing (as in Go); `_RealTimer.stop` returns None.
* Elector: holder changes seen only inside one renew window are reported at its end; the lease may be released while the work still cleans up
  (both as in Go); `_release` leaves `_observed_raw_record`.
* `manager.start` twice is misuse; one failing controller leaves the others running; a `cache.start()` that raises before the sync leaves
  the wait for ever.
* A reconciler that returns None is logged and dropped; a CancelledError raised by a reconciler counts as cancellation.
* `add_after(x, 0)` while x waits leaves the later delivery (as in Go); the delaying loop's timer counts from the reading before its adds, so an item
  can be late by at most the 10 s heartbeat if the clock moves during the adds (as in Go).

## Behaviour-preserving edits

The checks were run against edits that change no behaviour (comment lines, no-op statements, extracted or inlined helpers, loops rewritten
as comprehensions or the reverse, statements reordered, conditions negated, renamed locals) for every module; all are quiet.  Where such
an edit takes code out of a contract's reach the check says `BOUNDED` and exits 0.
'''
