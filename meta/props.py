# Single source for properties.jsonl (see gen.py).  (id, title, statement, over, text, why, files, mechanism)
P = []
def prop(id, title, statement, over, text, why, files, mech, **kw):
    P.append(dict(id=id, title=title, statement=statement, quantifier=dict(over=over, text=text), why_tests_cant=why,
                  anchors=dict(files=files, mechanism=[dict(name=n, where=w) for n, w in mech], **kw)))

prop("P01", "A future completes at most once and its outcome never changes",
     "Whatever threads race to complete a future, exactly the first completion decides its status and its value or error, and status and payload become visible together. Every later completion attempt leaves status, value and error untouched and releases the error it was handed.",
     ["schedules", "histories"], "all interleavings and orders of completion attempts, status queries and value reads on one future",
     "The tests complete each future once, from one thread; a second or concurrent completion is never exercised, so a check made outside the critical section or an overwritten payload goes unseen.",
     ["src/dex-future.c", "src/dex-future-private.h", "src/dex-static-future.c"],
     [("test-and-set of the status under the object lock", "src/dex-future.c dex_future_complete"), ("readers snapshot status under the same lock", "src/dex-future.c dex_future_get_value, dex_future_get_status, dex_future_is_*")])

prop("P02", "Attaching to a future never misses or repeats its completion",
     "A dependent attached to a future is told about the completion exactly once: immediately when the future has already completed, otherwise by the completing thread, and no interleaving of attach and complete makes both or neither happen. Dependents that are already gone are skipped, all others are each notified, and whatever the dependent does not handle itself it inherits as its own outcome.",
     ["schedules", "histories"], "all interleavings of attach, complete and release of dependents, any number of dependents",
     "The window between the status check and the list insertion is a few instructions wide; the tests attach before or after completion from the same thread.",
     ["src/dex-future.c"],
     [("status check and enqueue in one critical section", "src/dex-future.c dex_future_chain"), ("list is detached in the critical section that sets the status", "src/dex-future.c dex_future_complete"), ("fallback to inheriting the outcome", "src/dex-future.c dex_future_propagate")])

prop("P03", "Every internal lock is released exactly once on every path",
     "Each mutex or reader-writer lock the library acquires is released exactly once before the acquiring operation returns or gives up its stack, on success, error and early-return paths alike. No lock is acquired again by its holder or released without being held.",
     ["inputs", "histories"], "all control-flow paths of every function that touches a lock, in every build configuration analysed",
     "Error and early-out paths are rarely taken in the tests, and a leaked lock only shows when somebody else contends for it.",
     ["src"], [("lock/unlock pairs", "all g_mutex_*, g_rw_lock_* and object lock/unlock call sites")])

prop("P04", "User code and blocking work never run under an internal lock",
     "No user callback, destroy notify, completion propagation, cancellation request, scheduler hand-off to user code or wait for a future runs while the calling thread holds one of the library's object, queue, channel, semaphore or fiber locks. Callbacks may therefore call any API on the same objects without deadlocking.",
     ["schedules", "histories", "programs"], "all callers, callbacks and call chains, however deep",
     "A re-entrant callback on the same object is needed to hang, and the tests' callbacks do not re-enter.",
     ["src"], [("detach under the lock, act after the unlock", "dex_future_complete, dex_channel_*, dex_semaphore_close, dex_fiber_*, dex_block_*, dex_delayed_release")])

prop("P05", "Internal locks are always taken in one global order",
     "Considering every chain of calls, the 'held while acquiring' relation between the library's kinds of locks is acyclic, and no operation acquires the lock of a second object of the same kind while holding one. Hence no set of threads can deadlock on internal locks.",
     ["schedules", "programs"], "all pairs of call chains in all threads",
     "A deadlock needs two threads inside opposite windows at once; the tests never create such contention.",
     ["src"], [("lock acquisition sites and call graph", "all of src, in particular src/dex-object.c weak references, src/dex-fiber.c, src/dex-channel.c")])

prop("P06", "Shared mutable state is only touched under its lock",
     "Mutable state that several threads can reach (future status and dependents, set bookkeeping, channel and semaphore queues, fiber queues and flags, work queues, weak reference lists, promise, timeout, delayed and async-pair state) is read and written only while holding the lock that guards it, or through atomic operations. The only exceptions are code that runs before the object is shared or after its last reference is gone, and fields fixed at construction.",
     ["schedules"], "all accesses to every guarded field on every path, for all thread interleavings",
     "Data races need a specific interleaving; the suite is mostly single-threaded and is not run under a race detector.",
     ["src"], [("object mutex", "src/dex-object-private.h"), ("per-structure mutexes", "src/dex-fiber-private.h, src/dex-work-queue.c, src/dex-semaphore.c, src/dex-channel.c, src/dex-thread-pool-worker.c")])

prop("P07", "References are neither leaked nor released twice",
     "On every path of every operation each reference obtained (created, ref'd, upgraded from a weak reference, stolen from a container or passed in with full ownership) is released, returned, stored or handed over exactly once, and nothing is used after this operation gave its reference away.",
     ["inputs", "histories"], "all paths of every library function, for futures, errors, sources and helper objects it owns",
     "The tests run without a leak checker and mostly take success paths; a leaked or doubly released reference on an error path changes no result they compare.",
     ["src"], [("reference ownership conventions (transfer full / none)", "all of src")])

prop("P08", "Weak references are safe against concurrent last release",
     "Upgrading a weak reference yields either a strong reference to a live object or nothing; it never revives an object whose teardown has begun, and an object is torn down exactly once, after its weak references have been cleared. Setting, clearing and upgrading weak references from any threads leaves the object's list of weak references consistent.",
     ["schedules"], "all interleavings of ref, unref, weak set, weak clear and weak upgrade",
     "The race between dropping the last reference and upgrading a weak one is a few instructions wide and not exercised.",
     ["src/dex-object.c", "src/dex-object-private.h"],
     [("reference count transitions", "src/dex-object.c dex_ref, dex_unref"), ("weak list bookkeeping", "src/dex-object.c dex_weak_ref_*")])

prop("P09", "Chained callbacks run for the right outcome, once, with their data freed once",
     "A then-callback runs only for a resolved upstream, a catch-callback only for a rejected one, a finally-callback for both; when the kind does not match, the outcome passes through unchanged. A non-looping callback runs at most once, a looping one again only on the future it returned itself, always on the scheduler captured at creation, and the callback data is destroyed exactly once whether the callback ran, was skipped or the block was dropped.",
     ["schedules", "histories", "inputs"], "all kinds, outcomes, loop depths and drop points",
     "Tests sample a few kind/outcome pairs; the data-destroy count and the loop/drop interactions are not checked.",
     ["src/dex-block.c", "src/dex-future.c"],
     [("kind flags chosen by each constructor", "src/dex-future.c dex_future_then .. dex_future_finally_loop"), ("dispatch decision", "src/dex-block.c dex_block_propagate, dex_block_handles"), ("callback data release", "src/dex-block.c")])

prop("P10", "Dropping the last interest in a pending future cancels the work upstream",
     "A dependent that gives up on a pending future (a decided or destroyed combinator, a discarded delayed future) is detached, and when no interested dependent is left the future is told to discard its work, which cancels the underlying operation (async pair, cancellable promise, fiber, timeout) or is forwarded to its input (delayed). While another dependent is still interested, nothing is cancelled.",
     ["histories", "schedules"], "all dependency graphs and orders of dropping dependents",
     "Tests cancel simple two-level chains; a class that forgets to forward or clears the wrong child is not noticed.",
     ["src/dex-future.c", "src/dex-block.c", "src/dex-future-set.c", "src/dex-async-pair.c", "src/dex-delayed.c", "src/dex-fiber.c", "src/dex-timeout.c", "src/dex-promise.c", "src/dex-async-result.c"],
     [("interest accounting", "src/dex-future.c dex_future_discard"), ("per-class discard handlers", "*_discard virtual functions")])

prop("P11", "Combinators settle exactly when and how their contract says",
     "'any' settles with the first resolution, 'all race' with the first rejection, 'first' with whichever comes first and 'all' only when every input has completed; when no deciding input ever comes, 'any' rejects and 'all race' resolves once the last input completes. Variadic and array constructors of the same combinator behave identically, every input is observed exactly once, and losing inputs are discarded when the result is decided early.",
     ["schedules", "histories", "inputs"], "all input counts, outcomes, completion orders and interleavings",
     "Tests use two or three inputs completed sequentially from one thread in a handful of orders.",
     ["src/dex-future-set.c", "src/dex-future-set-private.h", "src/dex-future.c"],
     [("completion accounting", "src/dex-future-set.c dex_future_set_propagate"), ("flags of each constructor", "src/dex-future.c dex_future_all .. dex_future_firstv")])

prop("P12", "Typed awaits return the value only when the type matches",
     "Each typed await consumes the future it is given, returns the payload converted with the accessor of its own type only when the resolved value holds that type, and otherwise returns the type's neutral value with an error set. Values returned with ownership are independent copies of the future's payload.",
     ["inputs"], "all value types resolved against all typed awaits, rejected and pending futures included",
     "Only a few accessor/type combinations are tested, and mismatches hardly at all.",
     ["src/dex-future.c"], [("type test then accessor", "src/dex-future.c dex_await_check and dex_await_* functions")])

prop("P13", "Typed constructors and resolvers store the type and value they name",
     "Every typed way to produce a resolved future (constructors, promise resolvers, async-pair returns) yields a value whose type is the one in its name, set with the setter of that type from the caller's argument, and exactly once takes or copies ownership as documented. The temporary holder of an owned value is always cleared.",
     ["inputs"], "all typed producers and all argument values",
     "Each producer needs its own test; many have none.",
     ["src/dex-future.c", "src/dex-promise.c", "src/dex-async-pair.c"],
     [("type/setter pairs", "dex_future_new_for_*, dex_future_new_take_*, dex_promise_resolve_*, dex_async_pair_return_*")])

prop("P14", "Every completion carries exactly one outcome with a usable error",
     "Wherever the library completes a future it supplies exactly one of a value and an error on each path: never neither, never both. Rejections made up by the library itself use a known error domain with a code from that domain's enumeration.",
     ["inputs", "histories"], "all completion sites and all paths reaching them",
     "Error branches of most completion sites are not executed by the tests.",
     ["src"], [("completion sites", "all callers of the completion primitive")])

prop("P15", "Asynchronous operation pairs deliver the operation's own result once",
     "An asynchronous operation wrapped as a future is started exactly once with the wrapper's own cancellable, its finish function is called exactly once with the result object it was given (unless it was cancelled first), and the future then completes exactly once with a value of the declared return type or with the error reported. The wrapper stays alive until the operation calls back, and cancelling the future cancels the operation unless that was disabled.",
     ["inputs", "schedules"], "all return types, success and failure of the operation, completion before or after the start call returns, instance or no instance",
     "Only one or two return types are used in the tests; failures and cancellation of the operation are not.",
     ["src/dex-async-pair.c", "src/dex-async-pair.h"],
     [("start and ready callback", "src/dex-async-pair.c dex_async_pair_new, dex_async_pair_ready_callback"), ("cancellation", "src/dex-async-pair.c dex_async_pair_discard")])

prop("P16", "Each GIO wrapper pairs start, finish, cancellation and reference correctly",
     "Every wrapper of a GIO asynchronous call passes its arguments through unchanged, hands the operation the cancellable of the future it returns, keeps that future alive for its completion callback, finishes with the finish function belonging to the call it started and completes the future exactly once with the finished value or with the reported error. The callback's reference is released exactly once.",
     ["inputs", "fault_sequences"], "all wrapped operations, success, failure and cancellation",
     "Most wrappers have no test; a wrong finish function, cancellable or argument order still compiles.",
     ["src/dex-gio.c"], [("wrapper/callback pairs", "src/dex-gio.c")])

prop("P17", "Channels deliver every accepted item once, in order, within capacity",
     "Items accepted by a channel are delivered to receivers exactly once in the order they were sent, at most 'capacity' items are buffered, and a send completes only once its item has entered the buffer (or was taken by a waiting receiver). Whenever room or items become available, waiting senders and receivers are served in arrival order and none is left waiting although it could proceed.",
     ["schedules", "histories"], "all interleavings of send, receive, receive-all and close, any capacity and backlog",
     "The tests use small sequential scripts with one receiver; backlog plus bulk receive and concurrent ends are not covered.",
     ["src/dex-channel.c"],
     [("send", "src/dex-channel.c dex_channel_send"), ("receive", "src/dex-channel.c dex_channel_receive, dex_channel_receive_all")])

prop("P18", "Closing a channel end settles everyone waiting on it",
     "Closing the receive side rejects every waiting receiver and every sender still waiting for room, closing the send side makes receivers fail once the buffered items are drained, and later operations on a closed end are rejected with the channel-closed error instead of waiting. Closing twice is harmless, and destroying a channel leaves no waiter pending.",
     ["histories", "schedules"], "all orders of close, send, receive and destruction",
     "Only a couple of close orders are tested.",
     ["src/dex-channel.c"], [("state flags and draining", "src/dex-channel.c dex_channel_unset_state_flags, dex_channel_close_send, dex_channel_close_receive, dex_channel_finalize")])

prop("P19", "Semaphores wake exactly as many waiters as permits were posted",
     "Each posted permit satisfies exactly one waiter, present or future; a wait completes at once iff a permit is available, permits are neither lost nor invented in either implementation, and closing or destroying the semaphore rejects every waiter queued at that time.",
     ["schedules", "histories", "configurations"], "all interleavings of post, wait and close, with and without event descriptors",
     "Tests run only one of the two implementations, with a fixed schedule.",
     ["src/dex-semaphore.c"], [("permit counter and waiter queue", "src/dex-semaphore.c dex_semaphore_post_many, dex_semaphore_wait, dex_semaphore_close")])

prop("P20", "An awaiting fiber is always resumed, exactly once per completion",
     "A fiber that awaits a pending future is suspended only after it is registered with that future, is made runnable when the future completes no matter which thread completes it or when, and the thread that runs it is woken. A runnable fiber is never dropped from or duplicated in its scheduler's queues, and a fiber never suspends on a future that has already completed.",
     ["schedules"], "all interleavings of await, suspension and completion from other threads",
     "The lost-wakeup window lies between registering and switching stacks; tests complete futures on the same thread.",
     ["src/dex-fiber.c", "src/dex-fiber-private.h"],
     [("await and suspension", "src/dex-fiber.c dex_fiber_await, dex_await_borrowed"), ("wake-up", "src/dex-fiber.c dex_fiber_propagate"), ("runnable/blocked queues", "src/dex-fiber.c dex_fiber_scheduler_*")])

prop("P21", "A fiber runs its function once and completes with that function's outcome",
     "A spawned fiber calls its function exactly once, completes with the outcome of the future the function returned (resolved, rejected or once it settles), and when the function returns nothing rejects as exited without a result. Once it is discarded its further waits fail as cancelled, and it rejects as cancelled when the future it returned is still pending then. Its function data is released exactly once and the fiber is removed from its scheduler after it exits.",
     ["histories", "schedules"], "all fiber functions, return values and discard points",
     "Discard at arbitrary points and functions that return nothing or a pending future are barely tested.",
     ["src/dex-fiber.c", "src/dex-scheduler.c"],
     [("start routine", "src/dex-fiber.c dex_fiber_start_"), ("discard", "src/dex-fiber.c dex_fiber_discard"), ("exit handling", "src/dex-fiber.c dex_fiber_scheduler_iteration")])

prop("P22", "A fiber stack has one owner and is guarded against overflow",
     "A stack handed to a fiber belongs to that fiber alone until it has exited, is then returned to the pool or freed exactly once, and is never on the free list while in use; requested sizes are honoured after rounding. Every stack is laid out with an inaccessible guard page at its growing end, inside the allocation and outside the usable area, and allocation failures are detected.",
     ["inputs", "histories"], "all requested sizes, pool states, acquire and release orders",
     "Stack reuse after exit and overflow into the guard are not tested.",
     ["src/dex-stack.c", "src/dex-stack-private.h", "src/dex-fiber.c"],
     [("allocation and guard", "src/dex-stack.c dex_stack_new"), ("pooling", "src/dex-stack-private.h dex_stack_pool_acquire, dex_stack_pool_release")])

prop("P23", "Every submitted work item runs exactly once on its scheduler",
     "A work item pushed to any scheduler from any thread is stored before its consumer is notified, the consumer's main context is woken, and the item is invoked exactly once by that scheduler and with its own data. Items are not invoked while the queue's lock is held and none is left in a queue whose consumer has gone idle; those still queued when a scheduler is destroyed or a worker stops are run then. A main scheduler runs its items, and the workers take shared items, in the order they were pushed; a fiber spawned on a scheduler is registered exactly once, with that scheduler's own fiber source.",
     ["schedules", "histories"], "all interleavings of push, pop, steal and dispatch, any number of items and threads",
     "A missed wake-up needs the consumer to be entering its poll at that instant; tests push from one thread and then wait.",
     ["src/dex-scheduler.c", "src/dex-main-scheduler.c", "src/dex-thread-pool-scheduler.c", "src/dex-thread-pool-worker.c", "src/dex-work-queue.c"],
     [("push implementations", "dex_main_scheduler_push, dex_thread_pool_scheduler_push, dex_thread_pool_worker_push, dex_work_queue_push"), ("dispatch", "dex_main_scheduler_dispatch, dex_work_queue_run, source functions")])

prop("P24", "The work-stealing queue neither loses nor duplicates an item",
     "Each item pushed by the owner is obtained exactly once, by the owner's pop or by one successful steal; growing the ring keeps every live item and keeps old rings readable for concurrent thieves, and ring sizes are always powers of two so that index masking is injective. The ordering between slot accesses and index updates follows the published Chase-Lev protocol.",
     ["schedules"], "all interleavings of one owner with any number of thieves under the C11 memory model rules the protocol relies on",
     "The tests never run owner and thieves against each other, and x86 hides missing orderings.",
     ["src/dex-work-stealing-queue.c", "src/dex-work-stealing-queue-private.h", "src/dex-thread-pool-worker.c"],
     [("ring", "src/dex-work-stealing-queue-private.h dex_work_stealing_array_*"), ("push/pop/steal", "src/dex-work-stealing-queue-private.h dex_work_stealing_queue_push, _pop, _steal")])

prop("P25", "Asynchronous file I/O performs the requested transfer and reports its result",
     "A read or write request performs exactly the named operation on the given descriptor, buffer, byte count and offset (a negative offset meaning the current position) and completes with the number of bytes transferred, or rejects with the I/O error for the operation's own errno. All backends agree on this mapping.",
     ["inputs", "fault_sequences", "configurations"], "all arguments, results and error codes on both backends",
     "Tests run one backend on well-behaved files; no failing transfer is tested.",
     ["src/dex-aio.c", "src/dex-aio-backend.c", "src/dex-posix-aio-backend.c", "src/dex-posix-aio-future.c", "src/dex-uring-aio-backend.c", "src/dex-uring-future.c"],
     [("public entry points", "src/dex-aio.c"), ("portable backend", "src/dex-posix-aio-future.c dex_posix_aio_future_run, dex_posix_aio_future_complete"), ("ring backend", "src/dex-uring-future.c dex_uring_future_sqe, dex_uring_future_cqe")])

prop("P26", "An in-flight I/O request stays alive and is completed once by its context",
     "From submission until completion the backend owns exactly one reference to a request; every submitted request is eventually handed to the kernel or worker exactly once, also when the submission queue is momentarily full, and every completion is taken off its queue, delivered outside the backend's lock, acknowledged and released exactly once. A request whose completion has been delivered is no longer referenced by the backend.",
     ["schedules", "histories", "fault_sequences"], "all submission and completion interleavings and queue-full situations while the context is in use",
     "Submission-queue overflow is not tested.",
     ["src/dex-uring-aio-backend.c", "src/dex-posix-aio-backend.c"],
     [("ring context", "src/dex-uring-aio-backend.c prepare/check/dispatch/queue"), ("portable context", "src/dex-posix-aio-backend.c")])

prop("P27", "Timeouts reject once with the timed-out error and never outlive their source",
     "A timeout future rejects with the timed-out error exactly when its deadline source fires, with seconds, milliseconds and deadlines converted to the same time scale; when it is discarded or finalised earlier, its source is removed and it never fires afterwards. The source holds no strong reference that would keep the future alive, and discarding concurrently with firing is safe.",
     ["inputs", "schedules"], "all delays, discard points and firing/discarding interleavings",
     "Tests use one delay and do not discard concurrently.",
     ["src/dex-timeout.c"], [("source callback and discard", "src/dex-timeout.c")])

prop("P28", "Signal and cancellable futures fire once for their own event and detach",
     "A signal future resolves with the number of the signal it was created for, a cancellable future rejects as cancelled when that cancellable is cancelled, also when that happened before creation, and both remove their handler or source when they are finalised, whether or not it has fired. Neither keeps itself alive through its own handler.",
     ["histories", "schedules"], "all orders of creation, event, discard and release",
     "Neither class has a dedicated test.",
     ["src/dex-unix-signal.c", "src/dex-cancellable.c"], [("signal source", "src/dex-unix-signal.c"), ("cancelled handler", "src/dex-cancellable.c")])

prop("P29", "An async-result bridge calls back exactly once with the future's outcome",
     "Awaiting a future through the bridge delivers the ready callback exactly once, from the main context that was current at creation, after the outcome is available to the propagate functions; these return the value of the requested type or set the future's error. The source object, callback data and future are held until then and released exactly once.",
     ["schedules", "histories", "inputs"], "all completion orders and threads, all payload types",
     "Tests cover same-thread completion only.",
     ["src/dex-async-result.c"], [("await and completion", "src/dex-async-result.c dex_async_result_await, dex_async_result_complete_*"), ("propagation", "src/dex-async-result.c dex_async_result_propagate_*")])

prop("P30", "A delayed future stays pending until released, then mirrors its input",
     "A corked future never completes before it is released, however early its input completes; after release it completes exactly once with its input's outcome, immediately if the input is already complete and otherwise when the input completes. Releasing is idempotent.",
     ["histories", "schedules"], "all orders and interleavings of release and input completion",
     "The tests release only after the input has completed.",
     ["src/dex-delayed.c"], [("cork state", "src/dex-delayed.c dex_delayed_propagate, dex_delayed_release")])

prop("P31", "Misuse of the public API is rejected before anything is touched",
     "Every public function (except dex_ref, whose argument the caller vouches for) checks that each object argument it is going to dereference is of the expected type, and returns its neutral value with a critical warning instead of touching memory, taking locks or changing state when it is not. Arguments documented as nullable are accepted.",
     ["inputs"], "all exported functions and all argument values",
     "Tests never pass wrong arguments; removing a guard changes nothing they see.",
     ["src"], [("argument guards", "all exported functions")])

prop("P32", "Destroying an object releases everything it owns, once, in a safe order",
     "The finaliser of every type releases each owned resource of that type (references, memory, locks, sources, descriptors, queue entries) exactly once and then runs its parent's finaliser, so nothing owned outlives its owner.",
     ["histories"], "all types and all states an object can be in when its last reference is dropped",
     "The tests run without leak checking and many objects are never finalised in them.",
     ["src"], [("finalise virtual functions", "all *_finalize functions")])

prop("P33", "Worker threads start fully initialised and stop before their state is freed",
     "A thread-pool worker is usable only after its thread has published its context and started running, its creator waits for that without missing the signal, and shutting down stops and joins the thread before any state the thread uses is freed. The set of workers used for stealing never contains a worker whose queue is gone.",
     ["schedules"], "all interleavings of worker start, stealing, stop and destruction",
     "The tests keep one pool alive for the whole process.",
     ["src/dex-thread-pool-worker.c", "src/dex-thread-pool-scheduler.c"],
     [("start handshake", "src/dex-thread-pool-worker.c dex_thread_pool_worker_new, thread function"), ("shutdown", "dex_thread_pool_worker_finalize, dex_thread_pool_scheduler_finalize")])

prop("P34", "Event-loop sources are prepared, checked, dispatched and removed consistently",
     "For every custom event source, prepare and check report ready exactly when there is work, looking at all of the queues dispatch will drain, and dispatch keeps the source installed for as long as its owner needs it. Every source the library creates is attached before its creator drops it, and is destroyed by the owner that created it.",
     ["histories", "schedules"], "all source types and queue states",
     "A source that misses one of its queues only delays work until the next unrelated wake-up, which tests do not notice.",
     ["src/dex-main-scheduler.c", "src/dex-fiber.c", "src/dex-work-queue.c", "src/dex-work-stealing-queue.c", "src/dex-thread-pool-worker.c", "src/dex-uring-aio-backend.c", "src/dex-posix-aio-backend.c"],
     [("source function tables", "GSourceFuncs tables and their functions")])

prop("P35", "Global defaults are created once and shared",
     "Library initialisation, the default thread pool, the default I/O backend, per-thread storage and the cached boolean futures are each created once even under concurrent first use, and every caller gets the same instance with the ownership the API documents. No other process-wide value is ever seen by another thread before it is final. The default scheduler is the main-loop scheduler and per-thread defaults are those of the thread's own scheduler.",
     ["schedules"], "all concurrent first uses from any threads",
     "First use happens once per process, always single-threaded in the tests.",
     ["src/dex-init.c", "src/dex-thread-pool-scheduler.c", "src/dex-aio-backend.c", "src/dex-scheduler.c", "src/dex-thread-storage.c", "src/dex-future.c"],
     [("once-initialisers", "dex_init, dex_thread_pool_scheduler_get_default, dex_aio_backend_get_default, dex_future_new_for_boolean")])

prop("P36", "A promise's cancellable follows the promise, not the other way round",
     "A cancellable promise exposes the same cancellable for its whole life and cancels it exactly when the promise is discarded while pending; a promise created without one never exposes one, and resolving or rejecting never cancels it.",
     ["histories", "schedules"], "all orders of discard, resolve, reject and query",
     "Cancellation through a promise is tested in one order only.",
     ["src/dex-promise.c"], [("discard", "src/dex-promise.c dex_promise_discard"), ("accessor", "src/dex-promise.c dex_promise_get_cancellable")])

prop("P37", "File-descriptor values have one owner",
     "A descriptor wrapped as a value is closed exactly once unless it is stolen, copies duplicate the descriptor instead of sharing it, and a stolen or invalid descriptor is never closed by the wrapper.",
     ["histories", "inputs"], "all sequences of wrap, copy, steal, peek and free",
     "No test covers descriptor values.",
     ["src/dex-fd.c"], [("boxed descriptor", "src/dex-fd.c")])

prop("P38", "Nothing is used before it was given a value, and no local outlives its function",
     "On every path of every function, success, failure and early return alike, a variable, an out parameter or a local structure has been given a value before it is read, passed on, compared or returned, so no outcome depends on what happened to be in memory. The address of a stack variable is never returned, queued, kept as callback data, or left in longer-lived memory when the function that owns it returns.",
     ["inputs", "histories"], "all control-flow paths of every function of the library",
     "A variable left unset on a rarely taken path usually holds a harmless zero, and a stale stack address usually still shows the old contents; neither fails a test dependably.",
     ["src"], [("locals and out parameters", "all functions"), ("callback data and queue links", "g_source_set_callback, dex_scheduler_push, dex_fiber_new, GQueue links and *_async call sites")])

prop("N01", "Runnable work is scheduled fairly",
     "No runnable fiber, queued work item or channel waiter is postponed forever while others keep running.",
     ["schedules"], "all infinite executions", "Needs unbounded executions.", ["src/dex-fiber.c", "src/dex-thread-pool-worker.c", "src/dex-main-scheduler.c"],
     [("source priorities and iteration order", "main-loop sources")])
prop("N02", "Timeouts never fire early and fire promptly after their deadline",
     "A timeout future completes no earlier than its deadline and, on an otherwise idle context, within a small bounded delay after it.",
     ["schedules", "inputs"], "all clock and load conditions", "Depends on the clock and on the load of the main loop.", ["src/dex-timeout.c"],
     [("deadline source", "src/dex-timeout.c")])
prop("N03", "The work-stealing queue is linearizable under the C11 memory model",
     "Every concurrent execution of push, pop and steal is equivalent to a sequential one under the weak memory model.",
     ["schedules"], "all weak-memory executions", "Tests run on one strongly ordered machine.", ["src/dex-work-stealing-queue-private.h"],
     [("Chase-Lev deque", "src/dex-work-stealing-queue-private.h")])
prop("N04", "Memory use stays bounded by the live work",
     "With a bounded number of live futures, fibers and buffered items, memory held by pools, retired rings and queues stays bounded.",
     ["histories"], "all workloads", "Needs a quantitative bound over unbounded histories.", ["src/dex-stack.c", "src/dex-work-stealing-queue.c"],
     [("pools and retired rings", "stack pool, retired ring list")])
prop("N05", "Switching fibers preserves the complete execution context",
     "After a fiber is resumed, all callee-saved registers, the floating-point environment and its stack contents are exactly as when it was suspended, on every supported architecture.",
     ["programs", "configurations"], "all points of suspension and all architectures", "Tests observe only what the C code around the switch happens to keep in registers.", ["src/dex-ucontext.c", "src/dex-fiber-context-private.h"],
     [("context switch", "per-architecture context code")])
