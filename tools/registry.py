"""One entry per property: its text (properties.jsonl), how it is decided (harnesses and
witnesses), and what MANIFEST.json says about it.  tools/gen.py writes both files.

anchors: (file, mechanism) in /repo; for a claimed property at least one function of each
listed anchor file must have been analysed ("touch"), otherwise the check is broken.
"""
def H(f, **k):
    d = {"file": f}; d.update(k); return d
W = H
S = "schedules"; I = "inputs"; P = "programs"; HI = "histories"; F = "fault_sequences"; C = "configurations"
AI = "abstract interpretation of LLVM IR (typestate, lifetime and happens-before domains)"
TY = "type-level witnesses (static_assert / must-not-compile)"
D = "include/stdexec/__detail/"
X = "include/exec/"
PROPS = {}


def prop(id, title, statement, over, text, why, anchors, rule, harness=(), witness=(), technique=AI, note="", touch=None):
    PROPS[id] = {"title": title, "statement": statement, "over": over, "text": text, "why": why, "where": anchors,
                 "rule": rule, "harness": list(harness), "witness": list(witness), "technique": technique, "note": note,
                 "anchors": [a[0] for a in anchors if a[0].endswith(".hpp")] if touch is None else touch}


INLINE_WHY = "The tests run a few fixed senders and functions; they cannot cover every mix of completion channel, inline/deferred completion, throwing call and destruction inside the completion."
RACE_WHY = "The outcome depends on how threads interleave and on memory orders the test machine does not exercise; tests sample a handful of schedules on a strongly ordered CPU."

prop("P01", "then, upon_error and upon_stopped transform exactly their own channel",
     "For every predecessor completion, the adaptor completes its receiver exactly once: its own channel calls the function once with the predecessor's datums and sends the result as a value (nothing for void), and every other channel passes through unchanged without calling the function. If the function throws, the receiver gets that exception as an error; nothing else is sent. The adaptor touches neither the function, the datums nor its own state after completing the receiver.",
     [P, I], "every predecessor (any signature set, inline or deferred), every function (any result, void, throwing or not), a receiver that may destroy the operation while being completed",
     INLINE_WHY,
     [(D + "__then.hpp", "calls the function and forwards its result"), (D + "__upon_error.hpp", "same for set_error"), (D + "__upon_stopped.hpp", "same for set_stopped"), (D + "__basic_sender.hpp", "shared connect/complete plumbing of the adaptors")],
     "on every abstract path of then/upon_error/upon_stopped over an opaque predecessor and an opaque function: one completion, right channel and datum, function called exactly for its own channel, no access to the operation after it was completed",
     [H("then.cpp")])

prop("P02", "let_value, let_error and let_stopped keep their values alive and run once",
     "When the predecessor completes on the adaptor's own channel, its datums are moved into the operation, the function is called once with references to them, and the sender it returns is connected and started once; its completion is the completion of the whole. The stored datums stay alive and unchanged until that second operation has been destroyed, and other channels pass through. If copying the datums, calling the function or connecting its sender throws, the receiver gets that exception as its only completion.",
     [P, I], "every predecessor and second sender (any signatures, inline or deferred), every function (throwing or not), throwing datum copies, a receiver that destroys the operation while being completed",
     INLINE_WHY,
     [(D + "__let.hpp", "stores the datums, connects and starts the second sender")],
     "on every abstract path: one completion, datum identity, lifetime of the stored datums, at-most-once calls, exceptions become the only completion",
     [H("let.cpp")])

prop("P03", "when_all completes once, after all children, with all values or one failure",
     "when_all starts every child and completes its receiver exactly once, only after every child has completed: with the children's values concatenated in order if all succeeded, otherwise with the first child error, otherwise with stopped. The first failing child, or a stop request from the receiver, asks all other children to stop; whatever the interleaving of child completions and stop requests, no completion is lost or doubled, everything the children wrote is visible to the receiver, and no stop callback is left registered when the receiver is completed. The variant and transfer forms behave the same way.",
     [S, P, I], "all interleavings of two or three completing children and a stop request, all completion channels, throwing datum copies",
     RACE_WHY,
     [(D + "__when_all.hpp", "arrival counter, state machine started/error/stopped, stop forwarding")],
     "on every abstract path and every explored interference: exactly one completion, ordering after all children, precedence error over stopped, happens-before from each child to the receiver, no access after completion",
     [H("when_all.cpp", split=4)])

prop("P04", "Stop callbacks run at most once, never late, and deregistration waits for them",
     "A callback registered with an in-place stop source runs exactly once if stop is requested while it is registered or before, and never otherwise; exactly one stop request reports success. Destroying a callback object removes it, waits for it if it is running on another thread, and does not wait if it is destroyed from inside the callback itself; after destruction the callback is never run or touched. Whatever a thread did before requesting stop is visible to every thread that observes the stop and to every callback run because of it.",
     [S, HI], "all interleavings of concurrent requests, registrations and deregistrations; callbacks that remove themselves or others or register new ones",
     RACE_WHY,
     [("include/stdexec/stop_token.hpp", "spin-locked callback list, notifying thread, callback-completed flag")],
     "typestate of each callback (runs once, never after deregistration), list lifetime, data races and memory orders over all explored interferences, no stuck state",
     [H("stop.cpp", split=4)])

prop("P06", "Scheduler adaptors deliver the right result on the right scheduler",
     "continues_on delivers its child's completion from the target scheduler's context, after that scheduler completed; if the schedule operation fails or is stopped the receiver gets that instead, and if storing the datums throws it gets the exception. starts_on starts its child on the scheduler, and that scheduler is what the child's environment names; on does the same and then returns to where it came from; affine reschedules onto the starting scheduler without losing a result to a stop request. Each completes exactly once, runs nothing before start, and an exception from connecting a part leaves connect with nothing started or leaked.",
     [P, I, S], "every child completion and every scheduler behaviour (inline, deferred, on another thread, failing), throwing copies and throwing connects",
     "The tests use a few fixed schedulers; the guarantee quantifies over every scheduler's timing, failure and context and over every datum.",
     [(D + "__continues_on.hpp", "stores the completion, starts the schedule operation, then delivers"), (D + "__starts_on.hpp", "schedule then child"), (D + "__on.hpp", "round trip to the original scheduler"), (D + "__affine.hpp", "finally + unstoppable schedule"), (D + "__sequence.hpp", "first operation then second"), (D + "__finally.hpp", "keeps the first result while the second runs"), (D + "__schedule_from.hpp", "pass-through")],
     "on every abstract path: one completion, from the right scheduler's context, with the right channel and datum; order of starts; lifetime of stored datums; exceptions leave connect cleanly",
     [H("sched.cpp", split=4)])

prop("P10", "exec::async_scope empties only after every nested operation has completed",
     "A nested sender completes as its child and counts from its start to the end of its completion; spawn and spawn_future start at once. when_empty starts its sender, and on_empty completes, exactly once, only when no nested operation is running, and what those operations did is visible to it; the scope may be destroyed from that completion and can be reused before it. A stop request of the scope reaches every nested, spawned and future operation. A future completes its receiver exactly once, with the spawned operation's completion whether that came first or later, or with stopped if its receiver asked to stop; a future that is dropped, connected and dropped, or assigned over leaves its operation running and the shared state is freed exactly once. An exception from connect leaves with nothing started, counted or leaked.",
     [S, HI, P], "all orders and interleavings of completion, start, drop, assignment, stop requests and waiting for empty; throwing connects and result moves",
     RACE_WHY,
     [("include/exec/async_scope.hpp", "active count and waiter queue under one mutex; future state ownership handed between future and operation")],
     "on every abstract path and interference: one completion, right channel and datum, on_empty only at count zero with happens-before from every completion, allocation balance zero, no access after the scope or the state is gone",
     [H("ascope.cpp", split=4)])

prop("P14", "when_any delivers the first completion once, after stopping the others",
     "when_any starts every child, remembers the completion of the first child to finish, asks the others to stop, and completes its receiver exactly once, with that completion, only after every started child has completed. If stop was requested from outside it completes with stopped, without starting children if the request came before start. Whatever the interleaving of child completions and stop requests, no completion is lost or doubled and no stop callback is left registered when the receiver is completed.",
     [S, P, I], "all interleavings of two or three completing children and a stop request, all completion channels, throwing datum copies",
     RACE_WHY,
     [(X + "when_any.hpp", "emplaced flag, arrival counter, stop forwarding")],
     "exactly one completion after all started children, equal to the first completion, happens-before, no access after completion, over all explored interferences",
     [H("when_any.cpp", split=4)])

prop("P05", "run_loop runs scheduled work once and in order; sync_wait returns its result",
     "Work scheduled on a run_loop runs exactly once, in the order it was scheduled, on the thread inside run(), and is completed with stopped instead when its receiver has requested stop. run() returns only after finish() was called and everything scheduled before has run; no wakeup is lost, and finish() does not touch the loop after run() may have returned. sync_wait blocks until its sender completes and then returns the values, returns empty on stopped, or throws the error; what the sender did before completing is visible after it returns.",
     [S, HI], "all interleavings of producers, finishers and the running thread; senders completing inline or from another thread on any channel",
     RACE_WHY,
     [(D + "__run_loop.hpp", "intrusive queue of operations, task counter, blocking wait"), (D + "__sync_wait.hpp", "result state, loop and finish from the receiver")],
     "exactly one completion per started schedule operation, FIFO order, happens-before, lifetime of loop and sync_wait state, no stuck thread, over all explored interferences",
     [H("runloop.cpp", split=4)])

prop("P07", "Counting scopes: join completes only after every associated operation is gone",
     "While a counting scope is open, associating succeeds and the associated sender runs as its child; once it is closed or joined, associating fails and the associated sender completes with stopped without running, and its sender is dropped. A join completes exactly once, only after every association (held by senders, operations or bare) has been dropped, on the joiner's scheduler if it had to wait, and whatever those operations did is visible to it; the scope may be destroyed from that completion. A scope destroyed while used and not joined terminates. With counting_scope, a stop request reaches every associated operation, from the scope or from its receiver, and runs its callback once. An exception while associating leaks no association.",
     [S, HI, P], "all interleavings of associate, close, join, stop requests and completions; senders whose copy, move or connect throws",
     RACE_WHY,
     [(D + "__counting_scopes.hpp", "packed count and state, CAS loops, registered join operations"), (D + "__associate.hpp", "association held by sender and operation"), (D + "__stop_when.hpp", "fused stop token and its callback")],
     "on every abstract path and interference: join completes once and only at association count zero, happens-before from every disassociation, no access to the scope afterwards, senders built are destroyed once, stop callbacks run once",
     [H("scope.cpp", split=4)])

prop("P08", "spawn and spawn_future start at once, release once and report the result",
     "spawn and spawn_future start their sender at once if the scope accepts it and never otherwise; the state is allocated once with the chosen allocator and is destroyed and deallocated exactly once, before the scope association is released, after the operation has completed and the future is gone. A future completes its receiver exactly once: with the spawned sender's completion, or with stopped if the scope refused it or the receiver asked to stop before the result was there. Dropping the future, or a stop request from its receiver, asks the spawned operation to stop; the operation may complete from inside that request. If allocating, connecting or associating throws, the exception leaves the call with nothing started or leaked.",
     [S, HI, F, P], "all orders and interleavings of completion, start, drop, stop request and join; failing allocators, connects, associations and callback registrations",
     RACE_WHY,
     [(D + "__spawn.hpp", "allocated state that frees itself on completion"), (D + "__spawn_future.hpp", "producer/consumer/canceller negotiation through one atomic pointer"), (D + "__spawn_common.hpp", "choice of allocator and environment")],
     "on every abstract path and interference: one completion, right channel and datum, allocation balance zero at join, association released last, happens-before into the destructor, no access after free",
     [H("spawn.cpp", split=4)])

prop("P09", "split and ensure_started share one operation among all their consumers",
     "split connects its sender once and starts it when the first consumer starts; ensure_started starts it at once. Every consumer that starts completes exactly once: as the shared operation completed (split by reference, ensure_started by move), whether it starts before, while or after that happens, or with stopped if its own receiver asked to stop first. One consumer's stop request does not disturb the others; when the last consumer is gone while the operation runs, the operation is asked to stop. The shared state, its operation and its results live until the operation has completed and the last consumer is gone, then are destroyed once. A throwing connect leaves split with its exception; a throwing result move becomes the error.",
     [S, HI, P], "all orders and interleavings of starts, completion, stop requests and drops of senders and operations; throwing connects and result moves",
     RACE_WHY,
     [("include/exec/detail/shared.hpp", "waiter list with tombstone, started reference, consumer count"), ("include/exec/split.hpp", "split"), ("include/exec/ensure_started.hpp", "ensure_started"), (D + "__transform_sender.hpp", "noexcept of recursive transforms")],
     "on every abstract path and interference: one completion per started consumer, result equal to the shared completion, one start and one destruction of the shared operation, stop forwarded iff no consumer is left, happens-before from completion to consumer",
     [H("split.cpp", split=4)])

prop("P11", "static_thread_pool runs every task once, on its threads, without losing a wakeup",
     "A sender from a pool scheduler completes exactly once, with a value on a thread of the pool (on the thread asked for, for get_scheduler_on_thread) or with stopped if its receiver asked to stop; what the submitter did is visible to the task. No submission from inside or outside the pool is lost, however full the local queue, however many threads submit for the first time at once and whether or not the worker is falling asleep. bulk on the pool calls its function exactly once for each index and for no other, in adjacent non-empty chunks, passes the predecessor's completion on unchanged, delivers one of the thrown exceptions as the error, and completes after every call, whose effects are visible. schedule_all visits every item once and completes after the last, also when items start later or fail to connect. The destructor joins every thread, also when creating one fails.",
     [S, HI, P], "any number of submitters and items up to the stated bounds, all interleavings within the preemption bound, all channels, throwing functions, failing thread creation",
     RACE_WHY,
     [("include/exec/static_thread_pool.hpp", "sleep and notify protocol, remote queues, bulk shares and arrival count, schedule_all countdown"), ("include/exec/detail/atomic_intrusive_queue.hpp", "submission lists")],
     "on every abstract path and interference: exactly one completion per started operation, each index and item visited once, happens-before from submission and to completion, no stuck thread, no access after destruction, all threads joined",
     [H("pool.cpp", split=8)])

prop("P27", "The queues, lists and timer heap give back exactly what was put in, once",
     "The work-stealing queue of a pool thread returns to its owner the newest item and to thieves the oldest, refuses items only when it is full, and gives every item out exactly once and whole whatever thieves do meanwhile, also while blocks are reused. The intrusive queue and list keep their order through push, append, prepend, move and removal. The multi-producer queues give the one consumer every item exactly once in each producer's order and never lose the wakeup of a waiting consumer. The timer heap always has a smallest key in front, and erase tells whether the node was in and removes only it.",
     [S, HI], "all operation sequences up to the stated length, all key choices, all interleavings of owner, thieves and producers within the preemption bound",
     "Unit tests use single sequences; the lists are correct only if every sequence, and every interleaving of thieves and producers, keeps every item.",
     [("include/exec/detail/bwos_lifo_queue.hpp", "block hand-over between owner and thieves"), ("include/exec/detail/intrusive_heap.hpp", "path arithmetic and parent links"), (D + "__intrusive_queue.hpp", "tail upkeep"), (D + "__intrusive_mpsc_queue.hpp", "stub node")],
     "against the abstract list each sequence stands for, on every abstract path; each item taken once; happens-before between put and take; no livelock",
     [H("containers.cpp", split=8)])

prop("P18", "Advertised completion signatures are exactly what the sender can send",
     "For every sender factory and adaptor, the set of completion signatures advertised for an environment is exactly the set of completions the operation can perform: value types are the function's results or the children's (decayed where the adaptor stores them), a child's other channels pass through unchanged, exception_ptr is added if and only if something the adaptor itself calls, copies or connects may throw (a superfluous exception_ptr is tolerated for into_variant, into_tuple and repeat_n), set_stopped appears only where the adaptor or a child can stop (for stop-aware adaptors: if the environment's token can be stopped). A program in which a sender could complete in a way its receiver does not accept, a function does not accept what it would be called with, or values have a shape the adaptor does not support, is rejected at compile time; its well-formed twin is accepted.",
     [P], "every program: signatures are a function of types only, and the witnesses use opaque types that differ in exactly the traits the adaptors may inspect (throwing or not: copy, move, call, connect)",
     "Which completions a pipeline advertises decides whether downstream code compiles and which handler is instantiated; a missing exception_ptr ends in std::terminate at run time, only for inputs that throw. Tests instantiate a handful of pipelines.",
     [(D + "__then.hpp", "then completion signatures"), (D + "__let.hpp", "let_* completion signatures"), (D + "__when_all.hpp", "when_all completion signatures"), (D + "__continues_on.hpp", "continues_on"), (D + "__bulk.hpp", "bulk"), (D + "__into_variant.hpp", "into_variant"), (X + "finally.hpp", "finally"), (X + "repeat_until.hpp", "repeat"), (X + "when_any.hpp", "when_any"), (D + "__receivers.hpp", "receiver_of"), (X + "sequence.hpp", "sequence"), (X + "split.hpp", "split")],
     "each obligation is a static_assert on the type-checked program (exact set equality of the advertised signatures, modulo &&), evaluated by clang++ and g++ on /repo's headers; each must-not-compile block has to be ill-formed while its twin compiles",
     witness=[W("sigs.cpp"), W("reject.cpp")], technique=TY, touch=[])

prop("P19", "noexcept on connect, start, get_env and stop-token operations is truthful",
     "connect of an adaptor is noexcept only if nothing it does can throw: connecting each child, connecting the scheduler's sender, and moving or copying each stored function, value and sender into the operation; otherwise the exception escapes to the caller instead of terminating the program. Where nothing can throw, the adaptors that let_value and when_any depend on say so. start, get_env, schedule, comparison of schedulers, and the stop source, token and callback operations are noexcept. Receivers that can throw when moved or completed, and operations whose start can throw, are rejected.",
     [P], "every program: noexcept is a function of types only; each adaptor is instantiated with opaque senders, functions, schedulers and receivers that differ only in whether the operation in question may throw",
     "A wrong noexcept compiles silently and only shows as std::terminate when an allocation or copy throws at the right point, or as a missing exception_ptr handler; tests never make connect throw in each position.",
     [(D + "__basic_sender.hpp", "connect and operation state"), (D + "__connect.hpp", "connect"), (D + "__let.hpp", "let connect"), (D + "__when_all.hpp", "when_all connect"), (D + "__continues_on.hpp", "continues_on connect"), (X + "fork_join.hpp", "fork_join connect"), (X + "finally.hpp", "finally connect"), (X + "unless_stop_requested.hpp", "unless_stop_requested connect"), (X + "variant_sender.hpp", "variant_sender connect"), (D + "__stop_token.hpp", "stop token operations"), (D + "__run_loop.hpp", "run_loop scheduler")],
     "each obligation is a static_assert on the noexcept operator of the type-checked program, evaluated by clang++ and g++ on /repo's headers",
     witness=[W("noex.cpp"), W("reject_noex.cpp")], technique=TY, touch=[])

prop("P21", "Sender expressions are lazy; a failed connect leaves nothing behind",
     "Calling an algorithm or connecting its sender starts no child and calls no user function. If connecting a child, a scheduler's sender, or moving a stored function or value throws, the exception leaves connect, everything constructed so far is destroyed exactly once, nothing was started, nothing leaks and the program does not terminate. An operation that is connected but never started can be destroyed without effects. A sender that may be connected as a const lvalue can be connected and run repeatedly, each run with the same results, and its stored values are intact afterwards.",
     [P], "every place in each adaptor where connect, a copy or a move may throw; every adaptor instantiated with opaque throwing senders, schedulers and functions; connected twice, never started, or started once",
     "Tests connect only senders that do not throw and destroy only started operations; a leak, a double destruction or a terminate on the failure path needs the exception at one particular construction step.",
     [(D + "__basic_sender.hpp", "connect and operation state"), (D + "__let.hpp", "let connect"), (D + "__when_all.hpp", "when_all connect"), (D + "__continues_on.hpp", "continues_on connect"), (D + "__finally.hpp", "finally connect"), (D + "__just.hpp", "just connect"), (D + "__bulk.hpp", "bulk connect"), (X + "sequence.hpp", "sequence connect"), (X + "repeat_n.hpp", "repeat_n connect"), (X + "repeat_until.hpp", "repeat_until connect"), (X + "when_any.hpp", "when_any connect"), (X + "fork_join.hpp", "fork_join connect"), (D + "__schedule_from.hpp", "schedule_from connect")],
     "typestate of every object (constructed, moved-from, destroyed), of every child operation, and of every heap block, on every path including each exceptional edge of connect",
     harness=[H("connect.cpp", split=4)], technique=AI)

prop("P20", "Queries: receiver environments, sender attributes and env composition",
     "A child of every adaptor, when it queries its receiver's environment, gets the answer of the outer receiver to each forwarding query (allocator, user-defined forwarding queries), except where the adaptor documents a change: write_env, starts_on and on replace what they say they replace, when_all/when_any/stop_when substitute a stop token, continues_on and starts_on set the start scheduler. write_env, env, prop and env_from answer with the first environment that answers. read_env completes with exactly what the receiver's environment answers. Adaptors documented to forward their child's attributes do so. A completion scheduler that a sender names is the one the operation completes on.",
     [P], "every adaptor with an opaque child that queries, an opaque outer environment with symbolic answers, and every combination of inner environments",
     "Tests query a few adaptors with constants; a dropped or misdirected query silently selects the default allocator, never_stop_token or the wrong scheduler deep inside a composition.",
     [(D + "__env.hpp", "env, prop, env join"), (D + "__queries.hpp", "query objects, forwarding"), (D + "__write_env.hpp", "write_env"), (D + "__read_env.hpp", "read_env"), (D + "__let.hpp", "let environment"), (D + "__when_all.hpp", "when_all environment"), (D + "__continues_on.hpp", "continues_on attributes"), (D + "__starts_on.hpp", "starts_on environment"), (D + "__on.hpp", "on"), (X + "env.hpp", "with, without, read_with_default"), (X + "fork_join.hpp", "fork_join environment"), (X + "finally.hpp", "finally environment")],
     "value flow of a symbolic answer from the outer environment to the inner query, compared with the answer expected, on every path",
     harness=[H("env.cpp", split=4, inlined=["env_first_wins", "env_from", "env_reference", "defaults", "env_copy"])], technique=AI)

prop("P23", "Senders complete where they say: affine() is a no-op only where it may be",
     "A sender adaptor claims to complete inline or on the scheduler it was started on only if every completion that can reach the claimed channel comes from a child (predecessor, second sender, branch, scheduler's sender) that does, including children whose error or stopped completion is turned into a value and senders made by user functions. Hence affine(), which is a no-op on senders making that claim for all their channels, always comes back to the scheduler it was started on, and so does each co_await in stdexec::task.",
     [P], "every combination of a per-channel completion behaviour of each child with each adaptor: the claim is a function of types only",
     "A false claim compiles and passes every single-threaded test; it shows as a coroutine silently resuming on another thread for one particular composition.",
     [(D + "__queries.hpp", "sync attributes"), (D + "__affine.hpp", "affine"), (D + "__let.hpp", "let attributes"), (D + "__upon_error.hpp", "upon_error attributes"), (D + "__upon_stopped.hpp", "upon_stopped attributes"), (D + "__stopped_as_optional.hpp", "stopped_as_optional attributes"), (D + "__when_all.hpp", "when_all attributes"), (D + "__continues_on.hpp", "continues_on attributes"), (D + "__sequence.hpp", "sequence attributes"), (D + "__completion_behavior.hpp", "completion behaviour"), (X + "fork_join.hpp", "fork_join attributes")],
     "each obligation is a static_assert on the completion-behaviour query of the type-checked program, evaluated by clang++ and g++ on /repo's headers",
     witness=[W("affinity.cpp")], technique=TY, touch=[])

prop("P12", "Coroutines: tasks and awaited senders resume once and free their frames",
     "co_await of a sender suspends the coroutine until the sender completes and resumes it exactly once with its value (several values as a tuple), or by throwing its error; a stopped sender unwinds every coroutine up to one that handles it, and none of them is resumed. A task (stdexec or exec) does not run until it is started, completes its receiver exactly once with the value returned, the exception that left the body, the error or stopped signal that was yielded or returned; locals are destroyed once and before the awaiting coroutine goes on, frames are freed once, by the allocator they came from. Stop requests reach the awaited senders through tokens of any type, also when the request completes the task. A task runs on the scheduler it was started on again after each co_await, and completes on it; reschedule_coroutine_on moves it, at_coroutine_exit actions run once each, in reverse order, before the task completes, on_coroutine_succeeded, _failed and _stopped actions likewise if the coroutine ended that way. Any awaitable works as a sender: its await_* functions are called in order on a live awaiter, and what they throw is the error.",
     [S, HI, P], "every completion channel of the awaited sender, inside start or later, on the same or another thread, all interleavings within the preemption bound; every result of await_ready and await_suspend, every throwing step; nested tasks",
     "Whether a frame is freed, or touched after it was, depends on the exact moment the sender completes relative to await_suspend; tests await senders that complete at one moment.",
     [(D + "__task.hpp", "task promise and awaiter"), (D + "__as_awaitable.hpp", "hand-over between await_suspend and the completing thread"), (D + "__connect_awaitable.hpp", "awaitable operation state"), (X + "task.hpp", "basic_task, reschedule_coroutine_on"), (X + "at_coroutine_exit.hpp", "cleanup coroutine"), (X + "on_coro_disposition.hpp", "cleanup for one disposition"), (D + "__with_awaitable_senders.hpp", "continuation"), ("include/stdexec/stop_token.hpp", "stop source destroyed by its own request")],
     "typestate of frames, locals, awaiters and operations, exactly-once resumption, happens-before from completion to resumption, on every abstract path of the coroutine-lowered IR",
     harness=[H("coro.cpp", split=8)], technique=AI)

prop("P13", "Type-erased senders, receivers, schedulers and values behave as what they hold",
     "A type-erased object (__any, any_sender, any_receiver, any_scheduler) owns exactly one object of the erased type however it was constructed, copied, moved, swapped, assigned (also to itself), emplaced or reset, in its buffer or on the heap; every erased object is destroyed exactly once, also when a construction, copy, move or allocation throws, in which case the exception reaches the caller and the object is empty or as it was. Equality is equality of the erased objects of one type. An erased sender connects, starts and completes exactly as the sender it holds: same completion, payload, errors of connect, stop requests (tokens of any type are adapted, a request racing with the completion or with start included) and queries in both directions.",
     [HI, S, P], "every sequence of container operations of the histories listed over small, large and throwing erased types, each throwing position and allocation failure; every completion of the erased sender, stop requests at every point, all interleavings within the preemption bound",
     "Which buffer an object lives in and which copy or move throws is decided by size and exception properties that tests sample at one or two values; the token adapter's race needs one interleaving.",
     [(D + "__any.hpp", "containers, value and reference models, buffer or heap placement"), (X + "any_sender_of.hpp", "any_receiver, any_sender, any_scheduler, stop token adapter")],
     "typestate of the erased object and its storage, ghost counts of live objects and heap balance, exactly-once completion and happens-before along every abstract path",
     harness=[H("any.cpp", split=4)], technique=AI)

prop("P29", "Objects live at suitably aligned addresses",
     "Every object the library places in storage it manages itself (values, errors, functions, operation states, senders held in buffers, variants, tuples, heap blocks, erased objects) is constructed, accessed and released at an address that satisfies the alignment of its type, over-aligned types included; a block obtained with an alignment is released with that alignment.",
     [P], "every adaptor, scope and erased container that stores a value, instantiated with an over-aligned value; every placement of a child completion",
     "On the test machine's allocator misaligned storage is usually aligned by accident.",
     [(D + "__any.hpp", "buffer placement"), (D + "__variant.hpp", "variant storage"), (D + "__tuple.hpp", "tuple"), (D + "__spawn_common.hpp", "allocation of operation states"), (X + "any_sender_of.hpp", "erased senders and operation states"), (X + "async_scope.hpp", "future state")],
     "congruence of every address (base alignment of the abstract object, offset) against the alignment of each load, store, atomic and aligned parameter in the IR; alignment of each allocation against its release",
     harness=[H("align.cpp", split=2)], technique=AI)

prop("P15", "repeat, repeat_until and repeat_n run their child the right number of times",
     "repeat_until starts its child again and again, one operation at a time, until the child sends a true value, and then completes with set_value(); repeat does so until an error or a stop; repeat_n(n) runs it exactly n times (n = 0: not at all) and completes with set_value(). Any error or stop of the child ends the loop at once and is delivered unchanged, and no iteration starts after it or after a stop request. Every iteration's operation is destroyed before the next is connected, and the last one before the whole completes; exceptions from copying or connecting the child, converting its value or copying its error become the one completion and are advertised. Iterations that complete inline never nest deeper than the trampoline's limit.",
     [P, HI], "every number of iterations up to four (sixty for nesting), inline and deferred children on every channel, every step throwing alone, stop requests between iterations, an error that lives in the child's operation",
     "The tests use a few counters and inline children; they do not combine throwing copies, connects and conversions with deferred children and a receiver that destroys the operation in its completion.",
     [(X + "repeat_until.hpp", "reconnects the child in place, cleans up before completing"), (X + "repeat_n.hpp", "counts the iterations"), (X + "sequence.hpp", "sequences the trampoline and the child"), (D + "__sequence.hpp", "runs senders one after the other")],
     "on every abstract path: number and order of child operations, one live at a time, one completion with the right channel and datum, advertised signatures, exceptions delivered, bounded nesting, no access to a destroyed operation",
     [H("repeat.cpp")])

prop("P16", "finally always runs its final sender; fork_join shares one result",
     "finally starts its final sender exactly once after the initial operation has completed, on every channel and even if storing the results throws, and only after the initial operation has been destroyed; then it completes with the initial outcome (stored by value), or with the final sender's error or stop if it does not succeed. fork_join stores the child's outcome by value, destroys the child operation, and starts every branch once with const references to that one stored outcome, which stays alive and unchanged until all branches have completed; it then completes like when_all of the branches. An operation that was never started frees what it holds.",
     [P, I], "every outcome of the initial and final operations and of up to three branches, inline and deferred, results that live in the completing operation, copies that throw, completions on other threads, stop requests, a receiver that destroys the operation while being completed",
     "The tests complete with a few fixed senders inline; whether a result that lives in the child's operation is still alive when it is used, and what happens when storing it throws, shows only in combinations they do not run.",
     [(D + "__finally.hpp", "stores the results, destroys the initial operation, starts the final one"), (X + "finally.hpp", "the public name"), (X + "fork_join.hpp", "caches the results, runs when_all over the branches")],
     "on every abstract path: the final operation and every branch start exactly once, after the child operation is destroyed; one completion with the right channel and datum; one shared live object for all branches; no leak, no access to a destroyed operation",
     [H("fin.cpp")], touch=[D + "__finally.hpp", X + "fork_join.hpp"])

prop("P25", "The trampoline scheduler runs work on the starting thread, bounded and in order",
     "Work scheduled on the trampoline scheduler completes exactly once, on the thread that started it, before the outermost start on that thread returns: with set_stopped if its receiver's stop token was requested, else with set_value. Scheduled operations never nest deeper than the limit the scheduler was built with, deferred ones run in the order they were started, the operations may be destroyed by their completion, and the trampoline is left clean so that a later schedule runs at once. Threads do not disturb each other.",
     [HI, S], "chains and fans of operations started from one another under different depth and stack-size limits, stop requests, two threads",
     "The tests only run one recursive scheduling loop and look at whether the stack overflows.",
     [(X + "trampoline_scheduler.hpp", "thread-local state, recursion depth and size, intrusive list of deferred operations")],
     "on every abstract path: one completion per operation, thread, order, nesting depth, nothing left when the outermost start returns, no access to a destroyed operation; the distance between stack frames is a parameter",
     [H("tramp.cpp")])

prop("P17", "bulk calls its function for every index below the shape, exactly once",
     "bulk, bulk_chunked and bulk_unchunked, without a scheduler that customises them, call the function only for a value completion and only where and after the predecessor has completed; the calls cover every index in [0, shape) exactly once and no other index (none for a shape of zero or below), in order, with the same live references to the predecessor's values and with a function that keeps its state from call to call. Then the predecessor's values are passed on. If the function throws, no further call is made and that exception is the error completion; errors and stopped pass by.",
     [P, I], "shapes of different types and signs, functions that may throw at every call, every outcome of the predecessor and several value signatures",
     "The tests run fixed shapes with functions that do not throw or throw always; negative shapes, narrow shape types and a function that throws at one particular index are not among them.",
     [(D + "__bulk.hpp", "the three algorithms, the lowering of bulk to bulk_chunked, the exception handling")],
     "on every abstract path: index ranges contiguous from zero to the shape, one completion with the right channel and datum, thrown exceptions delivered and nothing called after them, values alive during every call",
     [H("bulk.cpp")])

prop("P30", "The small factories and adaptors do exactly what their names say",
     "just/just_error/just_stopped, just_from, read_env and create complete once with exactly what they were given; into_variant, into_tuple, stopped_as_optional, stopped_as_error, materialize and dematerialize map each completion of their child to the documented one and change nothing else; write_env and unstoppable change only what they promise in the child's environment; unless_stop_requested does not start its child if stop was already requested and is transparent otherwise; variant_sender behaves as the alternative it holds; reschedule completes on the current scheduler with the child's outcome. Values are moved through alive; an exception from a copy, move or function becomes the error completion.",
     [P, I], "every outcome of the opaque children, lvalue and rvalue senders, moves and copies that throw, stop requested before, during or never",
     "The tests look at a handful of ints and strings; which object is moved when, what happens if it throws and which signatures are really delivered are not checked for most of these.",
     [(D + "__into_variant.hpp", "the variant of value tuples"), (D + "__stopped_as_optional.hpp", "optional of the single value"), (D + "__stopped_as_error.hpp", "stopped to error"), (D + "__just.hpp", "factories"), (D + "__read_env.hpp", "environment queries as senders"), (D + "__write_env.hpp", "environment for the child"), (X + "materialize.hpp", "completions as values and back"), (X + "into_tuple.hpp", "values as a tuple"), (X + "just_from.hpp", "completions chosen by a function"), (X + "create.hpp", "senders from a function"), (X + "unless_stop_requested.hpp", "check before start"), (X + "variant_sender.hpp", "one of several senders"), (X + "reschedule.hpp", "back to the scheduler")],
     "on every abstract path: the mapped completion with the child's datum, advertised, exactly once; every object alive when used, nothing leaked",
     [H("misc.cpp")])

prop("P31", "Detached operations are released once they complete, and only then",
     "start_detached and execute start their operation before they return and keep it, the environment and whatever it holds alive until it completes, inline or later on any thread; then everything is destroyed and the storage goes back, once, to the allocator of the environment it came from. If allocating, copying or connecting throws, the exception reaches the caller, nothing is started and nothing is leaked; an error completion or a throwing function terminates. start_now starts all its senders inside the given scope at once, forwards its environment and stop requests to them, and its async_wait completes with a value after the last of them, immediately if that has happened; the storage may be destroyed by that completion.",
     [P, HI, S], "operations that complete inside start, later, or on another thread before start returns; every allocation, copy and connect failing; completions racing with the wait",
     "The tests run detached operations that complete inline with the default allocator; start_now has no test of a wait that races with the completions or of a connect that throws.",
     [(X + "start_detached.hpp", "self-destroying operation, allocator"), (X + "execute.hpp", "a function on a scheduler"), (X + "start_now.hpp", "pending counter and joiner exchange")],
     "on every abstract path: started once, destroyed once and after the completion, allocator balance by identity, exceptions reach the caller, the wait completes exactly once and last, no access to destroyed storage",
     [H("detach.cpp")])

prop("P24", "Sequence senders deliver every item once, then complete once",
     "Subscribing to a sequence sender offers the receiver exactly the items of the source, each once, as one of the advertised item types, with the source's results (transformed by transform_each), in order where the source is sequential; the sequence completes exactly once, as advertised, only after every item it started has been answered, and offers nothing afterwards. iterate visits the elements in order until the consumer breaks; a plain sender is the sequence of itself; merge ends after all its sequences. merge_each forwards the items of all nested sequences, asks everything to stop on the first error, stoppable environment or not, and delivers that error as the last item; nested sequences and items that stop do not affect the others; an error of the outer sequence is delivered as it is. ignore_all_values completes as the first item that did not produce a value, also if the sequence stops because of it, and otherwise as the sequence. Stop requests reach the items, no callback outlives the sequence, and an exception from set_next, from connecting its result or from a nested subscribe ends the sequence, or reaches the caller of subscribe, but never terminates.",
     [HI, I, F], "source, nested and outer sequences of up to two items that complete with any signature, now or later, in every order; consumers that continue, break, answer later or throw in set_next and in connect; items and stop requests racing on other threads",
     "The tests use short sequences of just and consumers that always continue; none fails a nested sequence, breaks in the middle, answers late, or races two failing items.",
     [(X + "sequence_senders.hpp", "subscribe, set_next, sequence of one"), (X + "sequence/merge_each.hpp", "nested sequences, delayed error, nested stop"), (X + "sequence/merge.hpp", "merged sequences"), (X + "sequence/iterate.hpp", "element loop"), (X + "sequence/transform_each.hpp", "item adaptor"), (X + "sequence/ignore_all_values.hpp", "first non-value result"), (X + "sequence/any_sequence_of.hpp", "type-erased sequence"), (X + "sequence/empty_sequence.hpp", "no items")],
     "on every abstract path: item log equals the source's, one completion, after the last answer; first failure and its payload; lifetimes of items, errors and operations; no call of std::terminate; no stuck state",
     [H("seq.cpp", split=4)])

prop("P22", "parallel_scheduler and task_scheduler do the work through any backend",
     "Work scheduled on a parallel_scheduler or task_scheduler runs through whatever backend or scheduler is behind it and completes exactly once, as and where that does, with its value, error or stop. bulk, bulk_chunked and bulk_unchunked call the function for every index below the shape exactly once, however the backend splits the work over threads; under a sequential policy in order; never after the work has completed. An exception of the function, of storing the values or of the backend becomes the one set_error completion; it neither terminates nor completes twice. Stop requests of any token type reach the backend. The backend or wrapped scheduler is released, the predecessor's operation and stored values destroyed and all memory freed, also if the operation is never started, stops early or fails. The default backend covers every index with its chunks for any parallelism and uses its storage only if the operation fits. Equality, copies and queries of the schedulers are those of what they hold. There is one process-wide backend, the one set last, even if first uses and replacements race.",
     [S, HI, P, F], "backends that complete inline or later with any signature and run the work whole, item by item, backwards, or on two threads, or give up; functions, values, connect and allocations that throw; operations not started or stopped; racing first uses",
     "The tests use the static thread pool with functions that do not throw and mostly default shapes; no test throws in bulk, destroys an unstarted operation, uses another stop token, or races the first use.",
     [(D + "__parallel_scheduler.hpp", "schedule and bulk operations, stored values"), (D + "__task_scheduler.hpp", "type-erased backend, bulk state"), (D + "__parallel_scheduler_backend.hpp", "receiver proxies, stop forwarding"), (D + "__parallel_scheduler_default_impl.hpp", "chunking, storage, process-wide instance")],
     "on every abstract path: one completion with the backend's result; per-index call counts; exceptions delivered; lifetime of backend, operation, scratch storage and values; heap balance; no call of std::terminate; no race on the instance",
     [H("psched.cpp"), H("tsched.cpp"), H("psingle.cpp")])

prop("P26", "Timed scheduling: never early, never lost, in order, stop requests answered",
     "An operation of schedule_at or schedule_after on a timed_thread_context completes exactly once, on the thread of its context: with a value when its time has come and not before, and as soon as it has come, whatever other operations are waiting, are being submitted or are being stopped at that moment; operations wait in the order of their times, and those with equal times complete in the order in which they were submitted. A stop request before, during or after start makes a waiting operation complete with set_stopped without waiting for its time, even if the request overtakes the submission; it affects only the operation it was made for. Destroying the context completes what is still waiting or being submitted with set_stopped, and nothing touches the context or an operation after that operation's completion lets them go. A scheduler that has only one of schedule_at and schedule_after gets the other from now().",
     [S, HI, F], "every order of the time points, every interleaving of up to three submitting threads, a stopping thread and the destructor with the context's own thread within the preemption bound; time is a virtual clock that advances only when nothing else can run, so lateness is exact",
     "Whether a wakeup is lost or a stop request overtakes its operation is decided by a few instructions between the queue and the condition variable; a test with real time sees at most a delay.",
     [(X + "timed_thread_scheduler.hpp", "submission, wakeup, stop hand-over, shutdown"), (X + "timed_scheduler.hpp", "schedule_at, schedule_after and their defaults"), (X + "detail/intrusive_heap.hpp", "timer heap"), (D + "__intrusive_mpsc_queue.hpp", "command queue")],
     "typestate of operation, context and stop callback, exactly-once completion, exact virtual completion time, happens-before across submitter, stopper, timer thread and destructor, no path that only waits for time-outs, on every abstract path",
     harness=[H("timed.cpp", split=6)], technique=AI)

prop("P32", "Values and operations kept in an operation are held exactly once and whole",
     "The storage in which operations keep values, errors, child operations and shared state (optional, variant, tuple of any number of values, lazily constructed storage, intrusive shared pointer, variant_sender) holds exactly what was put in, constructed from exactly the arguments given: putting something in destroys what was there, a failed construction leaves it empty and the exception reaches whoever asked, copies, moves, swaps and self-assignments keep the value, and everything held is destroyed once, before its storage goes. Construction may destroy the storage itself (an operation that completes while it is being made) without anything being touched afterwards. A shared object lives exactly as long as somebody owns it and is destroyed after everything its owners did.",
     [S, F], "every sequence of the operations up to the stated length on every alternative, each throwing or not, zero to ten values; two releasing threads within the preemption bound",
     "Each container is instantiated by the tests with a few types that do not throw; the failure path of one alternative, or the ninth value, is an instantiation nobody runs.",
     [(D + "__optional.hpp", "optional"), (D + "__variant.hpp", "variant"), (D + "__tuple.hpp", "tuple"), (D + "__manual_lifetime.hpp", "lazy storage"), (D + "__intrusive_ptr.hpp", "shared ownership"), (D + "__scope.hpp", "scope guard"), (X + "variant_sender.hpp", "variant_sender")],
     "typestate of every held object (constructed, moved from, destroyed, storage given up) and of every heap block on every abstract path, including each exceptional edge",
     harness=[H("holds.cpp")], technique=AI)

prop("P28", "Functions make their sender on demand, in memory of the given allocator",
     "An exec::function makes its sender when it is connected and not before: it calls the factory once, with the arguments it was given, in order and alive, connects what the factory returns and completes as that does, once, with its values. The operation lives in memory of the frame allocator of the receiver's environment, else of its allocator, else of the default one; the sender inside sees a working frame allocator over the same memory, the listed queries of the receiver's environment and its stop token, through which a stop request reaches it before or after start and which nothing stays registered with once it has completed. Every block goes back once, with the size it was allocated with, to the allocator it came from, also if the factory, an argument, the connection or an allocation throws, or the operation is never started. An allocator or memory resource made from another one (memory resource over an allocator, allocator over a resource, type-erased and rebound allocators) hands out memory of the requested size and alignment from it, and is equal to another exactly if what is inside is.",
     [HI, F], "every environment kind, completion inside start, later, or on another thread, stop requests before, during and after start, each step throwing; alignments of 1 to 128, sizes up to 129 bytes",
     "The tests use the default allocator only and no stop token; whether memory really comes from the allocator that was asked for, and goes back there on the exceptional paths, is not looked at.",
     [(X + "function.hpp", "operation, allocator choice, environment, stop token"), (X + "__memory_resource_adaptor.hpp", "memory resource over an allocator"), (X + "__frame_allocator.hpp", "allocator over a resource"), (D + "__any_allocator.hpp", "type-erased allocator"), (X + "any_sender_of.hpp", "type-erased receiver and operation")],
     "per-allocator balance of blocks and bytes, alignment of every pointer handed out, factory calls, completion and stop flow, lifetime of operation and callback, on every abstract path",
     harness=[H("func.cpp")], technique=AI)

prop("P33", "A pool that only says how to run a task gets correct schedule and bulk",
     "For a pool derived from exec::thread_pool_base, which only says how many agents it has and how to run one task: schedule enqueues exactly one task and completes on it, with set_value, or with set_stopped if stop was requested before; what the submitter did is visible there. Bulk on the pool calls its function, after a value completion only, for every index below the shape exactly once and for no other (none for a shape of zero or below), whatever the type and sign of the shape and the number of agents; with at most as many agents as there are indices and the pool has, one at a time and in order unless the policy is parallel; every call sees the predecessor's values, alive, and what every call did is visible to the receiver. Then the values are passed on, once, after the last call has returned; if calls throw or keeping the values throws, one of these exceptions is the error; errors and stopped pass by. Nothing touches the operation after its completion.",
     [S, I], "pools that run a task at once or each on a thread of its own, 1 to 256 agents, shapes of four types from -2 to 5, every interleaving within the preemption bound, functions and values that throw, values that can only be moved",
     "One existing test covers the whole header, with one agent, shape 1 and no threads.",
     [(X + "thread_pool_base.hpp", "scheduler, bulk sender and its shared state"), (X + "static_thread_pool.hpp", "even_share")],
     "index coverage, happens-before of the calls against the completion, lifetime of operation and values, one completion with the right channel and datum, on every abstract path",
     harness=[H("tpool.cpp")], technique=AI)

prop("P34", "An Asio operation as a sender completes once, after its last handler",
     "For any initiating function, the sender made with completion_token (or use_sender) starts the initiation with its arguments when it is started and not before, and completes once: with the values the handler is called with, converted to a declared signature before the receiver is completed (an exception of that conversion is the error); with set_stopped if every owner of the handler drops it; with the first exception if the initiation, a handler posted through the associated executor, or the posting throws - but not before the initiation and every handler running through that executor has returned or the handler was called, on whatever threads they run. A stop request made before start or until the completion is emitted once, as cancellation of everything, to the slot of the handler, never at the same time as a handler or the initiation runs; after the completion no stop callback is left and the operation is not touched, so that it may be destroyed in the completion. The handler's allocator is that of the environment, and its executors compare like those inside. use_sender turns a leading error code into: nothing if it is no error, set_stopped if it says cancelled, else a system_error with that code.",
     [S, HI, F], "initiations that call, keep, drop, throw, post through executors that run at once, later, on another thread, throw or lose the handler, nested and branching handlers, stop requests at every point and concurrently, several value signatures",
     "The tests run chosen orders with one io_context; the races of stop request, handlers and completion, the failing executor and the destruction of the operation inside its completion at each of these points are left to luck.",
     [(X + "asio/completion_token.hpp", "operation_state_base, frame_, completion_handler, executor, convert"), (X + "asio/use_sender.hpp", "receiver::set_value")],
     "completion count, channel and datum per path, lifetime of the operation and handler, happens-before between cancellation and handlers, allocation balance, on every abstract path through the headers together with Boost.Asio's own",
     harness=[H("asio.cpp")], technique=AI)

prop("P35", "io_uring_context completes each operation once, and can be stopped and rerun",
     "On an exec::io_uring_context, over a kernel that keeps its contract (takes entries in order, completes each once, a timeout when it expires or is cancelled, in any order of reports, interrupted calls included), every started schedule, schedule_after and schedule_at completes once on the thread that drives the context (at once where it is started, if the context has been stopped): with a value - a timer not before the kernel reports its expiry, for exactly the time asked for - or with set_stopped, and that only if a stop of the operation or of the context was requested. No submission, stop request or finish from any thread is lost, also while the context goes to sleep, stops or starts again, and none of them waits for an unrelated timer. The run returns once it is empty (run_until_empty), finished or stopped, with all operations complete, and can be repeated; a stopped context restarts with the next run or reset(). The sender of run() completes once with a value, set_stopped if stop was requested, or the failure; a second concurrent run is rejected without disturbing the first. A failing kernel call is reported with the kernel's error and nothing leaks; rings never overflow; mappings and descriptors are released once.",
     [S, HI, F], "one and two remote submitters and stoppers against the driving thread at every preemption up to the bound, expiry at once, later or never, both orders of a cancellation's reports, interrupted and failing kernel calls, one or two ring mappings, repeated runs",
     "The tests of io_uring_context are not among the stable ones; they run chosen orders against the real kernel, so failing calls, a full ring, lost wakeups and the races of stop with completion are left to luck.",
     [(X + "linux/io_uring_context.hpp", "__context, __submission_queue, __completion_queue, __stoppable_task_facade, __stop_operation, __run_op"), (X + "linux/detail/memory_mapped_region.hpp", "moves and destruction"), (X + "linux/detail/safe_file_descriptor.hpp", "moves and destruction"), (X + "detail/atomic_intrusive_queue.hpp", "requests of other threads")],
     "completion count, channel and thread per path, lifetime of operations, happens-before, stuck threads (lost wakeups), ring occupancy and descriptor balance, on every abstract path of the header over a harness-defined kernel (the system calls are replaced by macro)",
     harness=[H("uring.cpp")], technique=AI)

# properties this family of technique does not decide: (id, title, statement, over, text, why, anchors, reason)
NA = [
    ("N01", "Submitted work eventually runs, and no submitter starves", "Every operation started on a pool, run loop or thread context is eventually executed while the context runs, and work stealing and remote queues do not starve a submitter.",
     [S], "infinite schedules", "Liveness over infinite executions cannot be observed in finite test runs.",
     [(X + "static_thread_pool.hpp", "work stealing, remote queues"), (D + "__run_loop.hpp", "FIFO queue")],
     "a liveness property over unbounded fair schedules of the operating system: the static domain here (finite interference, fixpoint over states) decides lost wake-ups and deadlocks (P05, P11) but no fairness argument"),
    ("N02", "Lock-free structures are correct under weak memory value reorderings", "The queues and counters behave as under sequential consistency even where relaxed atomics may return stale values.",
     [S], "all executions of the C++ memory model", "A strongly ordered test machine never shows these executions.",
     [(X + "detail/bwos_lifo_queue.hpp", "relaxed claims and grants"), (D + "__atomic_intrusive_queue.hpp", "atomic list")],
     "needs an axiomatic memory model with reads-from enumeration (a model checker); the happens-before domain here decides races and missing release/acquire edges (P27) but keeps sequentially consistent values"),
    ("N03", "The Linux kernel's side of io_uring keeps the contract the context relies on", "The kernel takes submitted entries in order, completes each exactly once and honours timeouts and cancellations as P35 assumes.",
     [S, HI], "all kernels and ring states", "Depends on the kernel; needs rare ring states.",
     [(X + "linux/io_uring_context.hpp", "system calls and shared rings")],
     "the kernel's side of the shared rings has no source here; P35 decides the library's side over a kernel that keeps its contract"),
    ("N04", "Sender pipelines are as fast and as small as hand-written code", "Operation states have no overhead and the optimiser removes the abstraction.",
     [C], "compilers and optimisation levels", "A test measures one machine.",
     [(D + "__basic_sender.hpp", "layout of operation states")],
     "performance is a quantitative fact about generated code and machines, not a semantic property of the source"),
    ("N05", "GPU, Windows, macOS, asio and taskflow schedulers keep the same contracts", "The stream schedulers of nvexec and the platform-specific contexts complete every operation exactly once on the right context.",
     [S, C], "all platforms", "They need their platforms.",
     [("include/nvexec/stream_context.cuh", "CUDA streams"), (X + "windows/windows_thread_pool.hpp", "Windows thread pool"), (X + "libdispatch_queue.hpp", "libdispatch"), (X + "thread_pool_base.hpp", "taskflow and asio pools")],
     "their translation units need CUDA, Windows, libdispatch, asio or taskflow headers, which are not installed: there is no typed program to analyse"),
]
