"""Single source for properties.jsonl (run: python3 tools/spec.py)."""
import json
import os

P = []


def prop(id_, title, statement, over, text, why, files, mechanism, state=(), observe=(), hook=None):
    P.append(
        {
            "id": id_,
            "title": title,
            "statement": statement,
            "quantifier": {"over": over, "text": text},
            "why_tests_cant": why,
            "anchors": {
                "files": files,
                "state": [{"name": n, "meaning": m, "where": w} for n, m, w in state],
                "mechanism": [{"name": n, "where": w} for n, w in mechanism],
                "observe_at": list(observe),
                "hook_needed": hook,
            },
        }
    )


C = "aiok8s/cache/"
K = "aiok8s/controller/"
Q = "aiok8s/workqueue/"
U = "aiok8s/util/"
W = "aiok8s/watch/"
L = "aiok8s/leaderelection/"

prop(
    "C01", "An object store always equals the map its history of writes defines",
    "After any history of add, update, delete and replace calls, a store lists exactly the keys that are live and returns, for each key, the very object most recently written under it and nothing for a deleted or never-written key. "
    "Concurrent callers see every operation happen atomically at one instant between its call and its return, and an operation whose object has no computable key is rejected with the store-key error and changes nothing. "
    "Deleting an absent object is harmless, a deletion tombstone deletes the key it carries, and lists handed out are snapshots that neither alias nor alter the store.",
    ["histories", "schedules", "inputs"],
    "all sequences and interleavings of store operations over any keys, objects, tombstones and key-function failures",
    "The tests run one fixed nine-step history on one store with one caller.",
    [C + "store.py", C + "thread_safe_store.py"],
    [("writes under one lock", C + "thread_safe_store.py add/update/delete/replace"), ("key computed before the write", C + "store.py _Cache")],
    [("items", "key to object map", C + "thread_safe_store.py")],
    ["store.new_store / store.new_indexer return value: add, update, delete, replace, get, get_by_key, list, list_keys"],
)
prop(
    "C02", "Index lookups always agree with the stored objects",
    "At every moment each index of an indexed store returns exactly the stored objects (or their keys) whose current index values include the requested value, each once, whatever sequence of writes, re-labelings, duplicate or empty index values, deletions and replaces led there, and the listed values of an index are exactly those some stored object has. "
    "Looking objects up by example returns exactly the stored objects sharing at least one index value with the example, and a lookup in an index that was never registered raises a key error. "
    "New indexers can be added to an empty store and work from then on, and are refused, changing nothing, when the store already holds objects or a name is already taken.",
    ["histories", "inputs", "configurations"],
    "all write histories over objects with arbitrary (multi-valued, repeated, empty) index values and any set of indexers",
    "The tests cover a handful of adds on single-valued indexes and never re-index, duplicate a value, replace, or add indexers.",
    [C + "thread_safe_store.py", C + "index.py", C + "store.py"],
    [("old index values removed before new ones are added", C + "thread_safe_store.py _update_indices/_delete_from_indices"), ("conflict check", C + "thread_safe_store.py add_indexers")],
    [("indices", "index name to value to key set", C + "thread_safe_store.py")],
    ["index, index_keys, by_index, list_index_func_values, add_indexers, get_indexers"],
)
prop(
    "C03", "A FIFO hands out each pending key once, oldest first, with its latest value",
    "For every interleaving of producers and consumers of the plain FIFO, a pop returns the latest value of a key that is pending, each addition is handed out exactly once unless it was superseded by a newer value of its key, deleted or replaced, and keys that stayed pending come out in the order they became pending (one deleted and added again meanwhile may keep its old place). "
    "A consumer that asks for a requeue gets the item pending again without overwriting a newer value, a consumer failure is reported together with the item, and add-if-absent never overwrites a pending value. "
    "A pop on an empty queue waits until something is added or the queue is closed, after which the remaining items are still handed out and further pops report that the queue is closed.",
    ["histories", "schedules"],
    "all operation histories and consumer/producer interleavings, including requeues, consumer failures, deletes, replaces, resyncs and closing",
    "The tests pop a few fixed sequences with one consumer; none closes the queue or mixes delete, replace, requeue and blocked consumers.",
    [C + "fifo.py"],
    [("dedup by key, ordered queue", C + "fifo.py add/pop"), ("wake-up of blocked pops", C + "fifo.py Condition notify_all")],
    [("items", "pending value by key", C + "fifo.py"), ("queue", "order of pending keys", C + "fifo.py")],
    ["FIFO.add/update/delete/add_if_not_present/replace/resync/pop/close/get/list"],
)
prop(
    "C04", "A delta queue delivers every change of every key, in order, exactly once",
    "For every interleaving of producers and consumers of the delta queue, concatenating the delta lists popped for a key yields that key's accepted changes in the order they were made, none lost, repeated or reordered, except that consecutive deletions are merged into one keeping the known final object over an unknown one. "
    "Pending keys are handed out oldest first, all accumulated deltas of a key together, while one delta list is being processed no other is handed out and no producer's change is accepted, and a deletion of a key that is neither pending nor known is ignored. "
    "A processor that requests a requeue gets the same deltas pending again, one that fails has the deltas reported in the error, and pops blocked on an empty queue wake on the next change or on close.",
    ["histories", "schedules", "fault_sequences"],
    "all histories of add/update/delete/replace/resync/add-if-absent with concurrent pops whose processing suspends, fails, or requests requeues",
    "The tests check final values of short fixed sequences; they never suspend inside processing or verify the complete delta sequence.",
    [C + "delta_fifo.py", C + "fifo.py"],
    [("deltas accumulated per key and popped under the lock", C + "delta_fifo.py _queue_action_locked/pop"), ("delete dedup", C + "delta_fifo.py _dedup_deltas")],
    [("items", "pending deltas by key", C + "delta_fifo.py"), ("queue", "order of pending keys", C + "delta_fifo.py")],
    ["DeltaFIFO.add/update/delete/replace/resync/pop/add_if_not_present/close"],
)
prop(
    "C05", "Relisting makes the delta queue's consumer converge on the listed objects",
    "Whatever changes are pending or already applied when a full list of objects replaces the delta queue's contents, a consumer that applies the popped deltas to the queue's known-object store ends up with exactly the listed objects as changed by the events that follow: no vanished object survives, no listed object goes missing, and every object it had that vanished is reported deleted with its last known state. "
    "A resync offers every known object that has no change pending exactly once and never resurrects, deletes or alters one. "
    "Applied versions of an object never go backwards.",
    ["histories", "schedules", "fault_sequences"],
    "all interleavings of watch events, missed events, relists, resyncs and pops",
    "The tests replace a queue once with a fixed known set and no pending work of the affected keys.",
    [C + "delta_fifo.py"],
    [("tombstones for vanished keys, sync deltas for listed ones", C + "delta_fifo.py replace"), ("resync skips keys with pending deltas", C + "delta_fifo.py _sync_key_locked")],
    [("known_objects", "what the consumer already applied", C + "delta_fifo.py")],
    ["deltas passed to the process callback of DeltaFIFO.pop, and the known-object store"],
)
prop(
    "C06", "A queue reports synced exactly when its first batch has been processed",
    "A queue filled by an initial list does not report itself synced before every object of that first list, and every deletion that list implied, has been popped and its processing has finished, whatever other changes, requeues or failures are interleaved, and reports synced as soon as they all have. "
    "A queue that was first changed by an individual add, update, delete or add-if-absent, or by an empty list, is synced at once, and a fresh queue is not. "
    "Once synced a queue never reports unsynced again.",
    ["histories", "schedules", "fault_sequences"],
    "all operation histories and all points inside a suspended processing step at which the flag is read",
    "The tests read the flag between complete pops only, never while the last initial item is still being processed or with interleaved changes.",
    [C + "delta_fifo.py", C + "fifo.py"],
    [("count of initial items left", C + "delta_fifo.py replace/pop, " + C + "fifo.py replace/pop")],
    [("initial_population_count", "initial items not yet popped", C + "delta_fifo.py")],
    ["has_synced()"],
)
prop(
    "C07", "A reflector mirrors the list and watch streams into its store faithfully",
    "The sequence of store operations a reflector performs is exactly the sequence of lists and watch events it received: each list becomes one replace with the same objects and version, and each added, modified or deleted event of the expected type becomes one matching operation with that event's object, in order, none skipped, repeated or reordered. "
    "Objects of another type or kind (including core-group kinds given by group, version and kind), events without metadata, bookmarks and unknown event types never touch the store and never stop the stream, and neither does a store operation that fails. "
    "The version it reports as last synced is always that of the last list or event it finished handing to the store.",
    ["inputs", "histories", "fault_sequences"],
    "all scripts of lists and watch streams with any mix of event types, object kinds and failing store operations",
    "The tests feed one short stream of five events of one type and look at the final store.",
    [C + "reflector.py", "aiok8s/api/meta.py", "aiok8s/runtime/schema.py"],
    [("event dispatch by type", C + "reflector.py _watch_handler"), ("type and kind filter", C + "reflector.py _watch_handler, aiok8s/api/meta.py type_accessor")],
    [("last_sync_resource_version", "version of the last processed list or event", C + "reflector.py")],
    ["calls on the store passed to Reflector, last_sync_resource_version()"],
)
prop(
    "C08", "A reflector recovers from every list or watch failure without a gap",
    "However a list call, a watch call or a watch stream ends or fails (error event, exception raised in the middle of the stream, clean close, immediate close, failing list), the reflector makes a new attempt within a few seconds and never hangs. "
    "After a clean close of a watch that delivered events it continues watching from exactly the version of the last event it handled, after any failure it starts over with a full list, and every watch starts from a version whose predecessors have all been handed to the store and asks the server for a bounded watch of five to ten minutes. "
    "At most one watch is open at a time and each one it stops using is closed.",
    ["fault_sequences", "histories", "schedules"],
    "all sequences of list/watch failures, closes and successful deliveries, at every point of the stream",
    "The tests inject one list error, one watch error and one error event; no test raises from inside a watch stream.",
    [C + "reflector.py"],
    [("restart loop", C + "reflector.py run"), ("watch loop with resume version", C + "reflector.py list_and_watch/_watch_handler")],
    [("options.resource_version", "where the next watch resumes", C + "reflector.py")],
    ["list(options) and watch(options) calls on the lister-watcher, watch object's context-manager exit"],
)
prop(
    "C09", "A reflector resyncs its store once per period while it is connected",
    "While connected, a reflector with a resync period asks whether a resync is due once per period, across any number of watch reconnections, and resyncs its store each time the answer is yes (or no such question is configured), and never otherwise; with no period it never resyncs. "
    "A failing resync ends the current watch and leads to a fresh list rather than being lost, and resyncing continues after it. "
    "A slow resync delays but does not stop later ones, and does not block watch events.",
    ["schedules", "configurations", "fault_sequences"],
    "all periods, answers, resync durations and failures, and watch reconnect patterns",
    "The tests wait for two resyncs at a 1 ms period and one failure that ends list_and_watch.",
    [C + "reflector.py", U + "clock.py", U + "_time.py"],
    [("resync task with a timer per period", C + "reflector.py list_and_watch.resync/_resync_queue")],
    [],
    ["resync() calls on the store, should_resync() calls, list(options) calls; virtual time"],
)
prop(
    "C10", "A shared informer's cache converges to the server's state",
    "Once the API server's objects stop changing and its faults stop, a running shared informer's cache becomes, within bounded time, exactly the server's set of objects at their latest versions, whatever creations, updates, deletions, re-creations, stream failures, expired versions, missed events and relists happened before. "
    "At any time each cached object is one the server really had under that key, and its version never goes backwards. "
    "The indexes of the cache, given at its creation or added before it runs, agree with its objects, and no index can be added once it holds objects.",
    ["histories", "schedules", "fault_sequences", "inputs"],
    "all server histories and fault sequences, namespaced and cluster-scoped, typed and dictionary objects, any handler set",
    "The tests run fault-free sources with a few objects; no test loses a watch, expires a version or deletes during an outage.",
    [C + "shared_informer.py", C + "controller.py", C + "delta_fifo.py", C + "reflector.py", C + "thread_safe_store.py"],
    [("list+watch into delta queue, deltas applied to the indexer", C + "shared_informer.py handle_deltas")],
    [("indexer", "the cache", C + "shared_informer.py")],
    ["get_indexer() of a running informer against a fake API server with fault injection"],
)
prop(
    "C11", "Every handler sees a complete, ordered, consistent history of each object",
    "The notifications each event handler of a shared informer receives form, per object, a legal history: an add first, then updates whose old object is the one it was last told about, then a delete, with versions never going backwards; replaying them gives exactly the cache once things settle, whenever the handler was registered. "
    "Every change applied to the cache is notified exactly once and in the same order to every handler registered at that time, including changes discovered by a relist and whatever the resync settings of the handlers. "
    "When a handler is told of a version, the cache already holds that version or a later state, and a handler registered late first receives an add for each cached object.",
    ["histories", "schedules", "fault_sequences", "configurations"],
    "all server histories with faults and relists, handler sets with different resync periods and registration times",
    "The tests use handlers registered before start on a fault-free source and compare only sets of names.",
    [C + "shared_informer.py", C + "controller.py", C + "delta_fifo.py"],
    [("distribution under one lock", C + "shared_informer.py _distribute"), ("registration blocks delta processing", C + "shared_informer.py add_event_handler/_block_deltas"), ("per-listener buffer", C + "shared_informer.py _ProcessListener")],
    [("syncing_listeners", "handlers due for the current resync", C + "shared_informer.py")],
    ["on_add/on_update/on_delete calls of registered handlers"],
)
prop(
    "C12", "A slow or failing handler never delays the cache or other handlers",
    "A handler that is slow, blocks forever or raises affects neither the freshness of the cache nor the delivery of notifications to the other handlers, nor the registration of new ones. "
    "It still receives all of its own notifications in order and exactly once when it becomes responsive, whatever number accumulated meanwhile. "
    "A notification whose handling raises is the only one that handler loses; delivery to it resumes after a bounded pause.",
    ["schedules", "fault_sequences"],
    "all patterns of handler delays, permanent blocking and exceptions against any event load",
    "No test has a slow or raising handler.",
    [C + "shared_informer.py", U + "wait.py", U + "retry.py"],
    [("unbounded pending buffer per listener", C + "shared_informer.py _ProcessListener._pop"), ("handler failure pause", C + "shared_informer.py _ProcessListener._run")],
    [("pending_notifications", "buffered notifications", C + "shared_informer.py")],
    ["handler invocations and get_indexer() contents in virtual time"],
)
prop(
    "C13", "Resync notifications reach exactly the handlers that asked, at their period",
    "On an informer that resyncs, a handler registered with a resync period receives an update for every cached object once per its own effective period (never more often, and at most one check period late), where the effective period is at least one second and, for a handler registered after start, at least the informer's check period. "
    "A handler registered with period zero, and every handler of an informer that does not resync, receives no resync updates after the initial list. "
    "Registering a handler with a shorter period before start makes the whole informer check that often and leaves other handlers' periods as requested.",
    ["configurations", "schedules"],
    "all combinations of informer period, handler periods, registration times and horizons",
    "The tests step a fake clock through two instants for three fixed periods.",
    [C + "shared_informer.py", C + "reflector.py"],
    [("due listeners chosen per resync check", C + "shared_informer.py _SharedProcessor._should_resync"), ("period clamping", C + "shared_informer.py add_event_handler/_determine_resync_period")],
    [("next_resync", "when a listener is next due", C + "shared_informer.py")],
    ["on_update calls with unchanged objects in virtual time"],
)
prop(
    "C14", "An informer reported as synced really holds the whole initial list",
    "An informer never reports that it has synced before every object of its first successful list is in its cache (or has since been changed or deleted by a later event), whatever slow handlers, concurrent registrations or failing first lists there are, and reports it soon after the list is processed; it never goes back to unsynced. "
    "Waiting for cache sync returns success only once all the given caches are synced, and within a fraction of a second of that, failure when a given check fails, and stops when cancelled.",
    ["schedules", "fault_sequences", "histories"],
    "all points in time at which the flag is read during start-up, under contention and initial failures",
    "The tests poll the flag once the source is idle; no test looks at the cache at the instant the flag flips.",
    [C + "shared_informer.py", C + "controller.py", C + "delta_fifo.py", U + "wait.py"],
    [("queue sync flag", C + "delta_fifo.py has_synced"), ("polling wait", C + "shared_informer.py wait_for_cache_sync")],
    [],
    ["has_synced(), wait_for_cache_sync(), get_indexer()"],
)
prop(
    "C15", "Stopping an informer or reflector stops everything it started",
    "Cancelling a running reflector, controller or shared informer at any moment makes its run return promptly, and after it has returned no list, watch, store or handler call is made, every watch it opened is closed, and no background task it created is left running. "
    "A handler registered after an informer stopped is ignored, and cancelling is never swallowed or turned into another error. "
    "This holds at every suspension point, including during the first list, inside store and handler calls, during back-off and resync.",
    ["crash_points", "schedules", "fault_sequences"],
    "cancellation at every suspension point of every start-up, steady-state, failure and resync history",
    "The tests cancel one reflector once right after one event.",
    [C + "reflector.py", C + "controller.py", C + "shared_informer.py"],
    [("cleanup in finally blocks", C + "reflector.py list_and_watch/_watch_handler"), ("processor stop event", C + "shared_informer.py run"), ("queue close and reflector cancel", C + "controller.py run")],
    [],
    ["calls on lister-watcher, store and handlers after run() ends; asyncio.all_tasks()"],
)
prop(
    "C16", "A work queue never loses, duplicates or concurrently processes an item",
    "For every interleaving of adders and workers, an item is never handed to a worker while another worker holds it, every add is followed by a hand-out of that item that starts after the add, and adds of an item already waiting (or re-added several times while held) lead to one single hand-out. "
    "Items come out in the order they became available, the length is the number of waiting items, and an available item never stays undelivered while a worker is waiting, also when waiting workers are cancelled. "
    "An item re-added while held becomes available when it is marked done.",
    ["schedules", "histories", "fault_sequences"],
    "all interleavings of add, get, done and cancelled gets by any number of tasks",
    "The tests run a fixed 50 by 10 loop with timing sleeps and a few sequential examples.",
    [Q + "queue.py"],
    [("dirty/processing sets and ordered queue", Q + "queue.py add/get/done"), ("wake-up of one waiting getter", Q + "queue.py Condition.notify")],
    [("dirty", "items needing processing", Q + "queue.py"), ("processing", "items held by workers", Q + "queue.py")],
    ["add/get/done/len of queue.new(), delaying_queue.new(), rate_limiting_queue.new()"],
)
prop(
    "C17", "Shutting down any work queue drains it and releases every worker",
    "After shutdown of a plain, delaying or rate-limited queue, adds of any kind are ignored, items already waiting or re-added before are still handed out, and then every get, including those already blocked, returns the shutdown indication; the queue reports itself as shutting down. "
    "Delayed items that were not due yet are never delivered, delayed adds in progress return promptly, and the queue leaves no running background task once its pending timers have expired. "
    "Shutting down twice is harmless.",
    ["schedules", "crash_points", "configurations"],
    "shutdown at every point of every history of adds, delayed adds, gets and dones, with any number of blocked workers",
    "Shutdown is exercised once, on the plain queue, at the end of the add/get loop; never on the delaying or rate-limited queues.",
    [Q + "queue.py", Q + "delaying_queue.py", Q + "rate_limiting_queue.py"],
    [("shutdown flag and notify_all", Q + "queue.py shut_down"), ("stop event for the waiting loop", Q + "delaying_queue.py shut_down")],
    [],
    ["shut_down(), shutting_down(), get() return values, asyncio.all_tasks()"],
)
prop(
    "C18", "A delayed add becomes available at its due time, neither early nor late",
    "An item added with a delay becomes available no earlier than its delay has passed and no later than an instant after, whatever other delayed or immediate adds, in any order and number, are pending. "
    "When the same item is scheduled several times the earliest due time wins and it becomes available once for those, and scheduling it again after it became available counts anew; a zero or negative delay means at once. "
    "Items become available in order of due time.",
    ["inputs", "schedules", "histories"],
    "all sets and interleavings of delayed adds, including thousands pending and repeated items",
    "The tests step a fake clock over two or three items.",
    [Q + "delaying_queue.py", Q + "rate_limiting_queue.py", U + "clock.py", U + "_time.py"],
    [("priority queue of due times with earliest-wins", Q + "delaying_queue.py _WaitForPriorityQueue"), ("timer for the head entry", Q + "delaying_queue.py _waiting_loop")],
    [("waiting_for_queue", "scheduled items by due time", Q + "delaying_queue.py")],
    ["time at which get() returns each item, in virtual time"],
)
prop(
    "C19", "Rate limiters give exact, bounded back-off and never exceed their rate",
    "The n-th consecutive failure of an item is delayed by the base delay doubled n-1 times, capped at the maximum, for every n without limit or error, counts per item independently, and restarts from the base once the item is forgotten. "
    "The bucket limiter never lets through more than its burst plus rate times elapsed time over any interval, and delays no event longer than that requires; one that could never let anything through cannot be made. "
    "A combined limiter delays by the largest of its members' delays and reports the largest of their counts, forgetting reaches every member, and a rate-limited queue makes an item available exactly when its limiter says.",
    ["inputs", "histories"],
    "all sequences of failures, forgets, items and arrival times, including thousands of consecutive failures",
    "The tests check at most a thousand failures of one item and the bucket's arithmetic at six points.",
    [Q + "default_rate_limiters.py", Q + "rate_limiting_queue.py"],
    [("exponent per item", Q + "default_rate_limiters.py ItemExponentialFailureRateLimiter"), ("token bucket", Q + "default_rate_limiters.py BucketRateLimiter"), ("max of limiters", Q + "default_rate_limiters.py _MaxOfRateLimiters")],
    [("failures", "failure count per item", Q + "default_rate_limiters.py"), ("tokens/last", "bucket level", Q + "default_rate_limiters.py")],
    ["when/forget/num_requeues, add_rate_limited + get in virtual time"],
)
prop(
    "C20", "Retry, back-off and polling helpers keep their timing and counting contracts",
    "A retry with back-off calls its condition at most the configured number of steps, waiting between calls the configured delays grown by the factor, capped and jittered within bounds, returns as soon as the condition holds, reports a timeout otherwise and never alters the caller's settings. "
    "Periodic loops and polls call their function one at a time at the configured (possibly jittered) period, measured from the end of a call when sliding and from its start otherwise, check immediately only in the immediate variants, stop within the timeout or promptly on the stop signal, and never call it again after that. "
    "An exception from the function or condition ends the helper and reaches the caller.",
    ["inputs", "schedules", "fault_sequences"],
    "all periods, jitters, durations, stop times, failures and back-off settings",
    "The tests call each helper with one or two settings and do not measure times.",
    [U + "wait.py", U + "_time.py", U + "retry.py"],
    [("step arithmetic", U + "wait.py Backoff.step"), ("timer per iteration", U + "wait.py jitter_loop/jitter_until"), ("timeout", U + "wait.py poll")],
    [],
    ["times of f()/condition() calls and of the helper's return, in virtual time"],
)
prop(
    "C21", "Clocks, timers and tickers fire exactly when due and never after being stopped",
    "A timer of either clock delivers exactly one tick, not before its duration has passed and (on the real clock, to a waiting receiver; on the fake clock, when time is moved to or past it) as soon as it has, and none if stopped before; a pending fake timer that is reset is due after the new duration instead. "
    "A ticker keeps ticking at its interval for as long as needed, never blocks and never buffers more than one tick for a slow receiver, and a stopped real ticker is silent. "
    "The fake clock's time is exactly what it was set or stepped to, elapsed times are differences of it, and stopping or resetting a fake timer reports whether it was still pending.",
    ["histories", "inputs"],
    "all histories of creating, stopping, resetting, reading timers and tickers and moving time, in any amounts",
    "The tests walk one fixed sequence of steps per feature on the fake clock and none on the real one.",
    [U + "clock.py", U + "_time.py"],
    [("waiter list fired by set_time", U + "clock.py FakeClock._set_time_locked"), ("asyncio sleep tasks", U + "_time.py")],
    [("waiters", "pending fake timers and tickers", U + "clock.py")],
    ["c() queues, stop(), reset(), now(), since(), has_waiters()"],
)
prop(
    "C22", "A waiting broadcaster delivers every event in order to every watcher",
    "With the wait-when-full policy, each watcher receives every event broadcast after it registered and before it stopped or the broadcaster shut down, exactly once and in broadcast order, preceded by its prefix events if it was registered with some, whatever the queue length, the speeds of the watchers and timed-out receives. "
    "Stopping a watcher, at any time and from anywhere including another watcher's loop, never blocks, never disturbs the other watchers and releases a broadcast waiting for it; a registration that is cancelled leaves no watcher behind that broadcasts would wait for. "
    "Shutdown returns only after all earlier events were distributed, and every watcher's iteration then ends after its remaining events.",
    ["schedules", "histories"],
    "all interleavings of broadcasts, registrations, slow receivers, cancelled receives, stops and shutdown, for every queue length",
    "The tests broadcast four events to two eager watchers and one mutual-stop case.",
    [W + "mux.py"],
    [("single distribution loop fed by one queue", W + "mux.py _loop/_distribute"), ("registration through the same queue", W + "mux.py _block_queue")],
    [("watchers", "registered watchers", W + "mux.py")],
    ["async iteration of watchers, action(), shutdown(), stop()"],
)
prop(
    "C23", "A dropping broadcaster never blocks and drops only what does not fit",
    "With the drop-when-full policy, broadcasting never waits for any watcher: with all watchers idle for good, any number of broadcasts and the shutdown complete. "
    "Each watcher receives a subsequence, in order and without duplicates, of the events broadcast while it was registered, containing every event that found room in its queue when distributed; in particular one that keeps up misses none, and an idle one keeps the first events up to its queue length. "
    "A slow or stopped watcher never costs another watcher an event.",
    ["schedules", "histories"],
    "all queue lengths of at least one, watcher speeds, stops and broadcast bursts",
    "The test broadcasts two events to two idle watchers of queue length one.",
    [W + "mux.py"],
    [("put without waiting, ignoring full queues", W + "mux.py _distribute")],
    [],
    ["async iteration of watchers, completion of action() and shutdown()"],
)
prop(
    "C24", "The fake controller source serves consistent lists and gap-free watches",
    "A list from the fake source is exactly the objects left by the changes made so far, labelled with the version of the last one, and a watch from a version delivers exactly the changes after that version, each once and in order, past ones and then future ones, except future ones explicitly made without notifying watchers. "
    "Versions count changes and every changed object carries its own; what lists and replayed changes hand out are copies, so a client's edits never reach the source. "
    "A watch from a future version is refused and does not disturb the source.",
    ["histories", "schedules"],
    "all histories of changes, lists and watches by concurrent clients",
    "The test makes three changes and opens three watches.",
    [C + "testing/fake_controller_source.py", W + "mux.py"],
    [("changes log and broadcaster under one lock", C + "testing/fake_controller_source.py change/list/watch")],
    [("changes", "all changes so far", C + "testing/fake_controller_source.py")],
    ["list(), watch() iteration"],
)
prop(
    "C25", "Every change to a watched object leads to a reconcile that sees it",
    "In a running manager, each creation, update or deletion of a watched object, including a deletion only noticed by a relist, is followed by a reconcile of that object's namespaced name that starts after the change reached the cache, so that once changes stop the last reconcile of every object that ever existed saw its final state. "
    "No reconcile request is made for a name that never existed, and predicates that reject an event suppress exactly that event. "
    "This holds with any number of workers, watches added to a running controller, slow reconcilers, connection failures, and predicates or handlers that raise on some event, which lose at most that event.",
    ["histories", "schedules", "fault_sequences"],
    "all object histories, connection faults, reconcile durations and worker counts",
    "No test exercises the controller package at all.",
    [K + "controller.py", K + "source.py", K + "handler.py", K + "builder.py", K + "manager.py", K + "event.py"],
    [("event handler enqueues the object's name", K + "handler.py EnqueueRequestForObject"), ("tombstone handling and predicates", K + "source.py EventHandler"), ("worker loop", K + "controller.py _worker")],
    [],
    ["reconcile(request) calls and cache.get results within them, against a fake pod API"],
)
prop(
    "C26", "Failed and requeued reconciles are retried as promised, one at a time per object",
    "A reconcile that raises or asks for a requeue is run again after the rate limiter's back-off for that object, which grows with consecutive failures, and one that asks to be requeued after a delay is run again once that delay has passed; a successful one is not run again until something changes and resets the back-off. "
    "Retries never stop, however many failures there are, and neither one object's failures, nor an item on the queue that is not a request, nor a reconcile that does not return a result, stops the reconciliation of others or ends the controller. "
    "Two reconciles of the same object never overlap, and no more reconciles run at once than the configured number of workers.",
    ["fault_sequences", "schedules", "configurations"],
    "all scripts of reconcile outcomes and durations over several objects and worker counts",
    "No test exercises the controller package at all.",
    [K + "controller.py", K + "reconcile.py", Q + "rate_limiting_queue.py", Q + "default_rate_limiters.py"],
    [("outcome handling", K + "controller.py _reconcile_handler"), ("worker restart", K + "controller.py start"), ("per-item exclusion", Q + "queue.py")],
    [],
    ["start and end times of reconcile(request) calls, in virtual time"],
)
prop(
    "C27", "A manager reconciles only after caches sync and stops completely",
    "Neither a reconcile nor a runnable added to the manager starts before the caches hold every object of the first successful list, whatever failures or delays the API has at start-up, and both do start soon after that, or at once when they are added to a running manager; by then runnables, reconcilers, sources, handlers and predicates that ask for the manager's cache, or for the means to pass it on, have been given it. "
    "A runnable that completes leaves everything else running, and one that fails makes the manager return promptly with its error; cancelling the manager at any moment, also while it is still waiting for its caches, makes it return promptly with the cancellation. "
    "After either, no reconcile, list or watch call is made, every opened watch is closed and nothing keeps running but timers that have nothing left to do.",
    ["crash_points", "fault_sequences", "schedules"],
    "cancellation at every point of start-up and operation, all start-up failure sequences",
    "No test exercises the manager at all.",
    [K + "manager.py", K + "controller.py", K + "cache.py", K + "_informers_map.py", K + "_deleg_map.py"],
    [("cache started and synced before runnables", K + "manager.py _wait_for_cache"), ("source start, cache sync, then workers", K + "controller.py start")],
    [],
    ["reconcile calls, list/watch calls on the fake pod API, asyncio.all_tasks()"],
)
prop(
    "C28", "Cached reads are complete, current and correctly scoped",
    "Reading from the manager's cache before it has started is refused with the not-started error; afterwards a read waits until that kind's cache is synced and returns the cached object of exactly that namespace and name, or a key error if there is none, also for a kind first asked for after the start. "
    "A read made while reconciling an object returns that object at least as new as the event that triggered the reconcile, and one kind's informer is shared by all its users. "
    "A cache limited to a namespace lists and watches only that namespace, and the resync period used stays within ten percent of the configured one.",
    ["histories", "schedules", "configurations"],
    "all read times relative to start, sync and events, all names, namespaces and resync settings",
    "No test exercises the cache package at all.",
    [K + "cache.py", K + "_informers_map.py", K + "_deleg_map.py", K + "_cache_reader.py", K + "client.py"],
    [("informer per kind", K + "_informers_map.py get/_add_informer_to_map"), ("key translation", K + "_cache_reader.py"), ("resync jitter", K + "_informers_map.py _resync_period")],
    [("informers_by_gvk", "one informer per kind", K + "_informers_map.py")],
    ["cache.get, cache.get_informer, list/watch calls on the fake pod API"],
)
prop(
    "C29", "A basic informer applies each change to its store, then tells its handler",
    "A basic (unshared) informer's store converges to the server's objects, and its handler is told of every applied change exactly once, in order and one at a time, after the store reflects it: add for a new object, update with the previously stored object as old, delete with the final object or a tombstone; with a resync period it is also sent an update of every stored object once per period, and without one never. "
    "Handlers that suspend for any time delay but never reorder, lose or duplicate anything. "
    "A controller configured to retry keeps re-processing a failing item (or, in either case, one that asks to be requeued) until it succeeds, without starving anything else, and one that is not skips only that item.",
    ["histories", "schedules", "fault_sequences"],
    "all server histories with faults and relists, handler durations and processing failures",
    "The hammer test makes no assertion about what was received; the update test checks label transitions only.",
    [C + "controller.py", C + "delta_fifo.py"],
    [("store write before handler call under the queue lock", C + "controller.py _new_informer.process"), ("retry on error", C + "controller.py _process_loop")],
    [],
    ["on_add/on_update/on_delete calls, the returned store"],
)
prop(
    "C30", "At most one elector leads at any time",
    "Among any number of electors competing for one lock with common lease settings and synchronized clocks, no two are ever leading at the same time (from the start callback until the leading task is cancelled and the stop callback called), whatever API failures, conflicts, delays, partitions and cancellations happen. "
    "An elector that cannot renew within its renew deadline stops leading before its lease can be taken over, and an elector takes over only when the lock is free, released, or was not seen renewed for a full lease duration. "
    "A lock record is never overwritten on the basis of a stale read, and settings under which this could not hold are refused when an elector is made.",
    ["schedules", "fault_sequences", "crash_points"],
    "all interleavings of electors, lost or delayed lock operations, partitions and cancellations",
    "No test exercises leader election at all.",
    [L + "leaderelection.py", L + "resourcelock.py"],
    [("observed time plus lease duration", L + "leaderelection.py _try_acquire_or_renew"), ("renew deadline", L + "leaderelection.py _renew"), ("optimistic concurrency of the config map", L + "resourcelock.py update")],
    [("observed_record/observed_time", "last lock record seen and when", L + "leaderelection.py")],
    ["on_started_leading / on_stopped_leading callbacks, lock operations, in virtual time"],
)
prop(
    "C31", "A free lock is taken promptly, kept while healthy and handed over on failure",
    "If the lock is free or its holder is gone, some healthy elector becomes leader within the lease duration plus a few retry periods, and a healthy leader keeps renewing and leads without interruption. "
    "A leader that loses the lock or is cancelled has its leading task cancelled and its stop callback called exactly once; if configured to release on cancel, it gives up the lock once its leading task has ended, so that another can lead within a retry period; running an elector returns when it lost the lock and ends as cancelled when it was cancelled, whatever else fails. "
    "Every elector is told of each new leader it observes, once per change, and reports being leader exactly while it holds the last record it observed.",
    ["schedules", "fault_sequences", "configurations"],
    "all numbers of electors, failure times, lock operation failures and settings",
    "No test exercises leader election at all.",
    [L + "leaderelection.py"],
    [("acquire loop", L + "leaderelection.py _acquire"), ("renew loop", L + "leaderelection.py _renew"), ("transition report", L + "leaderelection.py _maybe_report_transition")],
    [("observed_record", "last lock record seen", L + "leaderelection.py")],
    ["callbacks, is_leader(), lock operations, in virtual time"],
)
prop(
    "C32", "The config-map lock stores and reads back records without lost updates",
    "Reading a config-map lock returns exactly the record last written by anyone, or no record when the config map or its annotation does not exist, and creating or updating writes exactly the given record while leaving the rest of the config map as it was. "
    "An update is refused if the config map changed since this lock last read or wrote it, so two lock clients never both succeed from the same state. "
    "Other API errors are passed on to the caller and leave the lock usable.",
    ["histories", "schedules", "fault_sequences"],
    "all interleavings of several lock clients and API failures over one config map",
    "No test exercises the lock at all; the module could not even be imported.",
    [L + "resourcelock.py"],
    [("resource version carried by the cached config map", L + "resourcelock.py get/update")],
    [("cm", "config map as last seen", L + "resourcelock.py")],
    ["get/create/update against a fake config-map API"],
)
prop(
    "C33", "Objects get the same identity whatever their representation",
    "A typed object and the dictionary form of the same object have the same key, name, namespace, uid, resource version and group-version-kind, whether namespaced or cluster-scoped, in the core group or another, and with or without optional metadata. "
    "Keys are namespace/name for namespaced objects and the bare name otherwise, equal exactly for objects of equal namespace and name, the key of a tombstone or explicit key is the key it carries, and something that is not an object or a list is reported as such rather than given an identity. "
    "Lists of either form yield their items and version, and setting items or versions is read back.",
    ["inputs"],
    "all objects and lists, typed or dictionary, with any namespace, name, group, version and missing optional fields",
    "The tests only use typed pods, mostly without namespace.",
    ["aiok8s/api/meta.py", C + "store.py", C + "controller.py", C + "index.py", "aiok8s/runtime/schema.py"],
    [("accessors by representation", "aiok8s/api/meta.py"), ("key functions", C + "store.py meta_namespace_key_func, " + C + "controller.py deletion_handling_meta_namespace_key_func")],
    [],
    ["meta.accessor/list_accessor/type_accessor/extract_list/set_list, key and index functions"],
)
prop(
    "C34", "The leader record tells who leads since when",
    "Every record an elector writes names that elector as holder, with the configured lease duration in whole seconds and the time of this renewal as renew time; "
    "renewals keep the acquire time and the transition count as they are, restarts under the same identity included, and an elector that takes the lock over from another holder, or after a release, records a new acquire time and exactly one more transition, while a lock it created counts none. "
    "A released lock names no holder but keeps the count, so the count equals the number of changes of leader over the whole history of the lock.",
    ["histories", "schedules", "fault_sequences"],
    "all histories of acquiring, renewing, losing and releasing a lock by any electors under API failures",
    "No test runs an elector at all.",
    [L + "leaderelection.py"],
    [("record built from the last read one", L + "leaderelection.py _try_acquire_or_renew"), ("release", L + "leaderelection.py")],
    [("observed record", "last record read or written", L + "leaderelection.py")],
    ["records passed to the lock's create and update"],
)

prop(
    "C35", "What is finished with is let go",
    "However long it runs, the memory, tasks and timers a component holds depend on the objects, items, watches and watchers it currently has, not on how many it has handled: a deleted object, a superseded version, an item that is done and forgotten, an ended watch, a fired or stopped timer and a stopped watcher are no longer referred to by anything the library keeps, beyond the most recent few. "
    "A component that was stopped, shut down or cancelled ends every task and timer it started, and once its user drops it nothing of it stays. "
    "A call that is given up, by cancelling it or by a timeout, leaves no task behind.",
    ["histories", "schedules", "fault_sequences"],
    "all histories of objects, items, watches and watchers coming and going, of any length, and all instants at which calls are given up or components stopped",
    "Tests are short and look at what is delivered, never at what remains; a slow leak shows only over many generations of objects.",
    [C + "thread_safe_store.py", C + "delta_fifo.py", C + "shared_informer.py", C + "reflector.py", Q, W, U, K, L],
    [("indices drop deleted objects", C + "thread_safe_store.py"), ("finished items leave the queue's sets and the limiters' maps", Q), ("helper tasks cancelled", U + "wait.py, aiok8s/workqueue/delaying_queue.py, aiok8s/watch/mux.py")],
    [("tasks, timers, weak references and traced memory", "read off asyncio.all_tasks(), the loop's timers, gc and tracemalloc at rest", "the running process")],
    ["every component's public calls, over batches of fresh objects"],
)

prop(
    "C36", "A fake watcher hands over every event, once and in order",
    "Each event sent through a FakeWatcher by add, modify, delete, error or action is received exactly once, with its type and object unaltered and in the order of the sends, whatever the number of senders and the receiver's speed; a send does not return before its event is being received, and a receive that times out or is cancelled loses nothing. "
    "Stopping it, at any time or by leaving it as a context, ends the iteration, also of a receiver that is waiting, after all events whose sends had returned; is_stopped() tells. "
    "After a stop, reset() makes it usable anew, even if the receiver has not noticed the stop yet.",
    ["schedules", "histories"],
    "all interleavings of senders, timed-out and cancelled receives, given-up sends, stops and resets",
    "The test sends five events to one eager receiver, then stops.",
    [W + "watch.py"],
    [("one queue, joined by each send", W + "watch.py"), ("stop event", W + "watch.py FakeWatcher.__anext__")],
    [("result queue", "events sent and not received", W + "watch.py"), ("stopped", "whether stopped since the last reset", W + "watch.py")],
    ["sends, receives, stop, reset"],
)

prop(
    "C37", "Replicas that elect a leader act one at a time",
    "When replicas run their manager as the leading task of an elector over one lock, no replica starts a reconcile or calls the API while another leads or when it does not lead itself, whatever partitions, cancellations, restarts and failures of either API happen. "
    "Once a replica stops leading, everything its manager started ends, also reconciles that take some time to clean up when cancelled, before its elector has ended and before another replica leads. "
    "Once the faults stop, one replica leads and reconciles every object's final state, also of those changed while nobody led.",
    ["schedules", "fault_sequences", "crash_points"],
    "all interleavings of replicas, lock and pod API faults, partitions, cancellations, restarts and object changes",
    "No test runs an elector and a manager together.",
    [L + "leaderelection.py", K + "manager.py", K + "controller.py"],
    [("leading task cancelled and awaited before the stop callback", L + "leaderelection.py"), ("every worker awaited when a controller is cancelled", K + "controller.py start")],
    [("leading", "whether a replica leads", L + "leaderelection.py")],
    ["reconciles, calls on the fake pod API, start and stop callbacks, by replica"],
)

if __name__ == "__main__":
    here = os.path.dirname(os.path.dirname(os.path.abspath(__file__)))
    with open(os.path.join(here, "properties.jsonl"), "w") as f:
        for p in P:
            assert len(p["title"]) <= 80, p["id"]
            n = p["statement"].count(". ") + 1
            assert n <= 3, (p["id"], n)
            f.write(json.dumps(p) + "\n")
    print(len(P), "properties")
