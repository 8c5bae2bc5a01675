"""The properties: the single source of properties.jsonl and MANIFEST.json (see gen.py)."""
SCHED = "all thread interleavings (within a preemption bound) and all C11 weak-memory read choices (within a stale-read bound) of each scenario"

P = []


def prop(id, title, statement, over, quant, why, files, mech, engines, observe=None, note="", state=None):
    P.append(dict(id=id, title=title, statement=statement, over=over, quant=quant, why=why, files=files,
                  mech=mech, engines=engines, observe=observe or [], note=note, state=state or []))


prop("C01", "mpsc channels deliver every accepted message exactly once, in order",
     "Every message a bounded or unbounded mpsc sender accepts is received exactly once by a receiver that keeps receiving, or dropped exactly once if the receiver goes away first; nothing else is ever received and no message is lost, duplicated or leaked. Messages of one sender handle arrive in the order it sent them, and if one send completed before another began (on any handles, in any threads) it arrives first. A message that is handed back by a failed send is handed back intact and is never also delivered.",
     ["schedules", "histories"],
     "every interleaving of senders, clones and the receiver in several threads, under weak memory, and every short sequence of channel operations in one thread",
     "Tests run a handful of schedules on x86; a lost or reordered message needs a push preempted at one instruction, or a weaker ordering that x86 hides.",
     ["futures-channel/src/mpsc/mod.rs", "futures-channel/src/mpsc/queue.rs"],
     [dict(name="intrusive MPSC queue", where="futures-channel/src/mpsc/queue.rs push/pop/pop_spin"), dict(name="open/num_messages word", where="futures-channel/src/mpsc/mod.rs State, inc_num_messages")],
     ["mc", "seq"], ["Sender/UnboundedSender send APIs", "Receiver::poll_next/try_recv", "message Drop"])

prop("C02", "mpsc never loses a wake-up: no sender, receiver or flush hangs",
     "A receiver task that found the channel empty is woken once a message is available or the last sender is gone; a sender task that found the channel full is woken once it may send again, or once the receiver is closed or dropped. This holds for the waker of the most recent poll, whatever else happens on the channel in between and even if wake itself polls or drops the woken task on the spot, so that as long as the other side keeps making progress no task waiting on a channel operation (receiving, sending, flushing, closing) waits forever.",
     ["schedules", "histories"],
     "every interleaving of parking, sending, receiving, closing and dropping, including tasks that move to another waker between polls",
     "A lost wake-up needs the wake to fall between the check for emptiness/capacity and the registration; timing-based tests practically never hit that window.",
     ["futures-channel/src/mpsc/mod.rs", "futures-channel/src/mpsc/queue.rs", "futures-channel/src/mpsc/sink_impl.rs"],
     [dict(name="recv_task AtomicWaker, re-check after register", where="futures-channel/src/mpsc/mod.rs Receiver::poll_next"), dict(name="parked_queue of SenderTask", where="futures-channel/src/mpsc/mod.rs park, unpark_one, poll_unparked")],
     ["mc", "seq"], ["wake-ups of the tasks polling the two halves"])

prop("C03", "bounded mpsc capacity and back-pressure are exact",
     "A bounded channel created with buffer size n never holds more than n messages plus one per sender handle, and every sender handle can always get its guaranteed message in without waiting for others' progress. When poll_ready reports readiness, the very next start_send on that handle succeeds unless the channel was closed; try_send fails with 'full' only while the handle has to wait for capacity, hands the message back, and changes nothing.",
     ["schedules", "histories"],
     "every interleaving of up to three sender handles with the receiver, and every sequence of channel operations up to a depth, for buffer sizes 0 and 1 (2 in thorough)",
     "Tests check capacity for one hand-written order of operations; over-admission or a false 'full' depends on the history of parking, unparking, cloning and dropping.",
     ["futures-channel/src/mpsc/mod.rs"],
     [dict(name="num_messages and maybe_parked accounting", where="futures-channel/src/mpsc/mod.rs BoundedSenderInner::do_send_b, poll_unparked")],
     ["mc", "seq"], ["results of poll_ready/start_send/try_send/try_recv"])

prop("C04", "mpsc closure is observed exactly once everything is drained",
     "The receiver sees end-of-stream exactly when the channel was closed (all senders dropped, close_channel, disconnect, or Receiver::close) and every accepted message has been taken, and keeps seeing it afterwards; it never sees it while an accepted message is outstanding or a live sender could still send. After closing or dropping the receiver every send fails with 'disconnected' and hands its message back, and the state queries (is_closed, is_terminated, is_connected_to, same_receiver, try_recv's errors) agree with this.",
     ["schedules", "histories"],
     "every interleaving of sends, clones, drops and closes of both halves, and every sequence of operations up to a depth",
     "The dangerous histories are a close racing with an accepted send or with a clone of the last sender; tests only close quiescent channels.",
     ["futures-channel/src/mpsc/mod.rs", "futures-channel/src/mpsc/sink_impl.rs"],
     [dict(name="num_senders, set_closed, close", where="futures-channel/src/mpsc/mod.rs Clone/Drop of senders, Receiver::close, Drop of receivers")],
     ["mc", "seq"], ["poll_next/try_recv results, is_closed, is_terminated, send errors"])

prop("C05", "oneshot: the value or a cancellation arrives exactly once, both wake",
     "A value sent into a oneshot channel is received exactly once, or returned to the sender, or (if the receiver is dropped) dropped exactly once; dropping the sender makes the receiver resolve to Canceled, and never while a value is on its way. The receiver task is woken by send or sender drop, and a task polling the sender for cancellation is woken when the receiver closes or is dropped, for every interleaving and for the waker of the latest poll. is_canceled, is_terminated, try_recv and close agree with what happened, and no memory error, double drop or leak occurs.",
     ["schedules", "histories"],
     "every interleaving of send/drop/poll_canceled against poll/try_recv/close/drop under weak memory, and every operation sequence up to a depth",
     "The races are between two try-locks and one flag; tests on strongly ordered hardware with coarse timing do not produce them.",
     ["futures-channel/src/oneshot.rs", "futures-channel/src/lock.rs"],
     [dict(name="complete flag with double checks around the slots", where="futures-channel/src/oneshot.rs Inner::{send,poll_canceled,drop_tx,close_rx,try_recv,recv,drop_rx}"), dict(name="try-lock", where="futures-channel/src/lock.rs")],
     ["mc", "seq"], ["Receiver/Sender results and wake-ups"])

prop("C06", "AtomicWaker: a wake after or during register is never lost",
     "If a task registers its waker and then finds its condition still false, a wake issued after the condition became true always wakes the most recently registered waker, whatever the interleaving of register, wake and take (including when the waker's own clone or wake panics or re-enters). Everything written before wake is visible to the woken task, each registered waker is handed out at most once, and no waker is leaked, dropped twice or used after drop.",
     ["schedules", "histories"],
     "every interleaving of one registering task with up to three wakers/takers under the C11 memory model",
     "The window between swapping the waker in and releasing the slot is a few instructions wide, and missing orderings do not show on x86 at all.",
     ["futures-core/src/task/__internal/atomic_waker.rs"],
     [dict(name="WAITING/REGISTERING/WAKING state machine", where="futures-core/src/task/__internal/atomic_waker.rs register, take, wake")],
     ["mc"], ["wake-ups", "Waker clone/drop accounting", "visibility of data published before wake"])

prop("C07", "async Mutex: exclusive, and always released to someone who waits",
     "At most one guard (borrowed, owned or mapped) exists at any time and the protected data is handed over with full visibility. Whenever the mutex is free and tasks wait for it, at least one task that is still waiting gets woken, even if waiters are cancelled (dropped) at any moment, including after having been woken or by the wake-up itself (a wake may poll or drop the woken task on the spot); try_lock succeeds exactly when the mutex is free. Dropping guards, futures or the mutex never leaks, and into_inner/get_mut see the last value.",
     ["schedules", "histories"],
     "every interleaving of up to three lockers with cancellation at every point, and every sequence of lock/poll/drop/try_lock operations up to a depth",
     "Losing the lock needs a cancelled waiter to swallow the wake-up; tests never cancel a waiter between its wake-up and its next poll in all orders.",
     ["futures-util/src/lock/mutex.rs"],
     [dict(name="HAS_WAITERS/IS_LOCKED bits and the waiter slab", where="futures-util/src/lock/mutex.rs lock/unlock/remove_waker")],
     ["mc", "seq"], ["guards alive", "wake-ups", "try_lock results"])

prop("C08", "BiLock and split halves: exclusive access, no lost wake-up, safe reunite",
     "Two halves of a BiLock, of a split Stream+Sink or of a split AsyncRead+AsyncWrite never get at the underlying object at the same time, and each half's operations behave like the same operations on the whole object. A half that found the other side in possession is woken when it is released, even if the other half is dropped. reunite succeeds exactly for halves of the same original and returns it unchanged.",
     ["schedules", "histories"],
     "every interleaving of the two halves (poll, hold, release, abandon, drop), and every operation sequence up to a depth",
     "The contention window of a BiLock is one swap; the single-threaded tests never reach the boxed-waker state in all orders.",
     ["futures-util/src/lock/bilock.rs", "futures-util/src/stream/stream/split.rs", "futures-util/src/io/split.rs"],
     [dict(name="0/1/boxed-waker state word", where="futures-util/src/lock/bilock.rs poll_lock, unlock, reunite")],
     ["mc", "seq"], ["simultaneous accesses", "wake-ups", "reunite results"])

prop("C09", "Shared: one run, every handle gets the result, no handle is stranded",
     "The future inside Shared is polled by at most one handle at a time and never again after it completed; every handle that is polled to completion gets an equal clone of its output, and peek returns it once it is there. Whenever the inner future signals progress, some handle whose task is waiting gets woken, even if the handle that polled last is dropped or is moved to another task, or the wake-up itself polls or drops a handle, so no remaining handle waits forever. The inner future and its output are dropped exactly once, when the last handle goes, and weak handles upgrade exactly while a strong one exists.",
     ["schedules", "histories"],
     "every interleaving of up to three handles polling, cloning, dropping and of the inner future's wake-up, under weak memory",
     "Stranding a handle needs the polling handle to vanish between its wake-up and its next poll; tests poll handles in one or two fixed orders.",
     ["futures-util/src/future/future/shared.rs"],
     [dict(name="IDLE/POLLING/COMPLETE/POISONED state and Notifier slab", where="futures-util/src/future/future/shared.rs poll, record_waker, ArcWake for Notifier, Drop")],
     ["mc", "seq"], ["outputs per handle", "polls of the inner future", "wake-ups", "drop counts"])

prop("C10", "FuturesUnordered: each future yields once, polled only when woken, none lost",
     "Every future pushed is polled on the next poll of the set, later only after its own waker was used, never concurrently, never after it completed, and yields its output exactly once. A wake-up of any child from any thread, at any moment, leads to the set's current task being woken and to the child being polled again; no wake-up is lost, even while the set is being polled, pushed to, iterated, cleared or dropped. len, is_empty, iteration and is_terminated reflect exactly the futures not yet yielded, and wakers that outlive the set are harmless.",
     ["schedules", "histories"],
     "every interleaving of child wake-ups (wake, wake_by_ref, clone, drop of wakers) with polling, pushing and dropping the set, and every operation sequence up to a depth",
     "The ready queue is a lock-free intrusive list whose broken states last for one instruction; a duplicate, a lost child or a use-after-free appears only in particular interleavings.",
     ["futures-util/src/stream/futures_unordered/mod.rs", "futures-util/src/stream/futures_unordered/ready_to_run_queue.rs", "futures-util/src/stream/futures_unordered/task.rs", "futures-util/src/stream/futures_unordered/iter.rs", "futures-util/src/stream/select_all.rs"],
     [dict(name="ready-to-run queue and task links", where="futures-util/src/stream/futures_unordered/"), dict(name="queued/woken flags", where="futures-util/src/stream/futures_unordered/task.rs")],
     ["mc", "seq"], ["polls and outputs of children", "wake-ups of the set's task", "drop counts"])

prop("C11", "FuturesOrdered yields every output exactly once, in queue order",
     "FuturesOrdered yields the output of each future exactly once, in the order of the queue as determined by push_back and push_front, whatever order the futures complete in; len, is_empty and is_terminated reflect the outputs not yet yielded. All queued futures make progress concurrently and no wake-up is lost: when the future at the head can complete, the waiting task is woken and gets its output.",
     ["schedules", "histories"],
     "every completion order, every interleaving of child wake-ups with polling, and every sequence of push_back/push_front/poll/complete up to a depth",
     "Ordering depends on the interplay of out-of-order completions with pushes at both ends; tests cover a few hand-picked orders.",
     ["futures-util/src/stream/futures_ordered.rs"],
     [dict(name="index heap", where="futures-util/src/stream/futures_ordered.rs")],
     ["mc", "seq"], ["sequence of yielded outputs", "wake-ups"])

prop("C12", "Abortable: abort takes effect, wakes the task, and is reported truthfully",
     "Once abort() has been called on any handle, the abortable future or stream ends with Aborted (or the end of the stream) at its next poll instead of polling its inner future, and its waiting task is woken so that this happens, whatever the interleaving of abort, polling and completion. Without abort it behaves exactly like its inner future or stream; an output that was already produced is not replaced, and is_aborted is true on every handle exactly from the first abort on.",
     ["schedules", "histories"],
     "every interleaving of abort from one or two handles with polling, completion, moving tasks and dropping",
     "Missing the abort needs it to land between the flag check and the waker registration; tests abort before or well after.",
     ["futures-util/src/abortable.rs", "futures-util/src/future/abortable.rs"],
     [dict(name="aborted flag re-checked after waker registration", where="futures-util/src/abortable.rs try_poll, AbortHandle::abort")],
     ["mc", "seq"], ["poll results", "wake-ups", "is_aborted"])

prop("C13", "RemoteHandle gets the value or the panic, and dropping it cancels",
     "A RemoteHandle resolves to exactly the output of its remote future, re-raises the remote future's panic, and is woken when either is there. Dropping the handle makes the remote half stop polling its future, drop it and complete, waking the task that runs it; after forget() the remote half runs to completion regardless. If the remote half is dropped unfinished, the handle does not hang.",
     ["schedules", "histories"],
     "every interleaving of the remote task's polls and completion with polling, dropping and forgetting the handle",
     "The handle may be dropped between the remote's cancellation check and its registration; tests drop it only while the remote is idle.",
     ["futures-util/src/future/future/remote_handle.rs"],
     [dict(name="oneshot + keep_running flag", where="futures-util/src/future/future/remote_handle.rs")],
     ["mc", "seq"], ["outputs, panics, wake-ups and drops on both sides"])

prop("C14", "block_on and LocalPool run everything runnable and never sleep through a wake",
     "block_on, block_on_stream, LocalPool::run_until and LocalPool::run return exactly when their future (all futures) completed: a wake-up from any thread, at any moment and by any route, leads to the woken task being polled again. run_until_stalled and try_run_one never block, poll every task that can make progress, and say truthfully whether a task completed or nothing can run; tasks spawned during a run are run as well. Entering an executor from within another one on the same thread is refused by panicking, leaving the outer one intact, and dropping the pool drops its tasks.",
     ["schedules", "histories"],
     "every interleaving of wakes from other threads with the executor's decision to park, and every sequence of spawn/wake/run operations up to a depth",
     "The executor would have to be preempted between its last check and park; in tests the wake comes long after or long before.",
     ["futures-executor/src/local_pool.rs", "futures-executor/src/enter.rs"],
     [dict(name="thread-local ThreadNotify with unparked flag", where="futures-executor/src/local_pool.rs run_executor, ArcWake for ThreadNotify"), dict(name="drain_incoming and FuturesUnordered pool", where="futures-executor/src/local_pool.rs poll_pool, poll_pool_once")],
     ["mc", "seq"], ["return values", "polls of tasks", "a deadlocked executor thread"])

prop("C15", "ThreadPool: every spawned task is driven to completion, one poll at a time",
     "Every future spawned on a ThreadPool is polled until it completes, by at most one worker at a time and with everything earlier polls did visible to later ones; a wake-up at any moment (also during a poll, also several at once, also from within) leads to another poll, so no task is lost. When the last pool handle is dropped, workers finish what is queued and then exit; after_start and before_stop run once per worker, and a spawned task's handle gets its output.",
     ["schedules", "histories"],
     "every interleaving of one or two workers, spawners and wakers, within a preemption bound",
     "Losing a wake-up needs a notify between a worker's poll and its transition to idle; tests rely on luck to hit it.",
     ["futures-executor/src/thread_pool.rs", "futures-executor/src/unpark_mutex.rs"],
     [dict(name="UnparkMutex WAITING/POLLING/REPOLL/COMPLETE", where="futures-executor/src/unpark_mutex.rs"), dict(name="message queue and worker loop", where="futures-executor/src/thread_pool.rs work, PoolState")],
     ["mc"], ["polls, completions and overlaps of tasks", "worker hooks", "deadlocks"])

HIST = "every history of the leaves (ready, pending, self-waking; every value and outcome), of wake-ups and of polls (changing wakers, spurious polls), up to a bound on leaves, items and pendings"

prop("C16", "join family: all outputs, in position; first error wins and stops",
     "join, join_all, join! and maybe_done complete exactly when all their futures have completed, with every output in its future's position; no future is polled after it completed or before its turn matters, and all of them are polled concurrently. try_join, try_join_all and try_join! complete with all values likewise, or with an error as soon as a future they have polled failed, whereupon try_join_all drops the others. This holds for any number of futures, including zero and numbers beyond the internal switch to FuturesOrdered.",
     ["histories"], HIST,
     "Tests use ready or oneshot futures in one completion order; a slot taken twice, an output swapped or an error noticed late depends on the order of completions and polls.",
     ["futures-util/src/future/join.rs", "futures-util/src/future/join_all.rs", "futures-util/src/future/try_join.rs", "futures-util/src/future/try_join_all.rs", "futures-util/src/future/maybe_done.rs", "futures-util/src/future/try_maybe_done.rs", "futures-macro/src/join.rs"],
     [dict(name="MaybeDone/TryMaybeDone slots", where="futures-util/src/future/maybe_done.rs"), dict(name="Small/Big switch at 30", where="futures-util/src/future/join_all.rs, try_join_all.rs")],
     ["mc", "seq"], ["completion, outputs, polls per child"])

prop("C17", "select family: a ready one wins, the others survive untouched",
     "select, select_all, select_ok, try_select and the select!/select_biased! macros complete exactly when one of the futures they poll is ready (for select_ok: the first success, or the last error when all failed), with that future's own output, and hand back or leave alone the others, which have lost no wake-up, output or position and can be polled on. A future is never polled after it completed and a terminated one is skipped; select! with complete runs that arm exactly when all are terminated, default exactly when nothing is ready, and the biased forms prefer textual order while the fair ones start from every branch.",
     ["histories", "inputs"], HIST + "; every rotation of the random starting branch",
     "Which branch wins, and what is left in the loser, depends on the poll at which each becomes ready and on the random start; tests check one or two.",
     ["futures-util/src/future/select.rs", "futures-util/src/future/select_all.rs", "futures-util/src/future/select_ok.rs", "futures-util/src/future/try_select.rs", "futures-macro/src/select.rs", "futures-util/src/async_await/random.rs"],
     [dict(name="generated poll loop", where="futures-macro/src/select.rs"), dict(name="swap_remove and rest", where="futures-util/src/future/select_all.rs")],
     ["seq"], ["winner, outputs, remaining futures"])

prop("C18", "stream combinators are observationally their Iterator counterparts",
     "Whatever the pattern of pendings, the items and the end produced by map, inspect, enumerate, filter, filter_map, then, skip, skip_while, take, take_while, take_until, scan, chunks, ready_chunks, chain, zip, flatten, flat_map, cycle, fuse, peekable, catch_unwind, poll_immediate, the consuming adapters (fold, for_each, all, any, count, concat, collect, unzip, next, into_future, select_next_some) and the constructors are those of the corresponding sequence operation on the source items: nothing lost, duplicated, reordered or invented. Each closure and closure future is run exactly as often as that operation needs, in order; sources are polled only when their next item is needed and not after they ended.",
     ["histories", "inputs"], HIST,
     "An item is lost when a pending falls between taking it and delivering it; tests mostly use always-ready iterators as sources.",
     ["futures-util/src/stream/stream/*.rs", "futures-util/src/stream/*.rs"],
     [dict(name="pending_item/pending_fut slots", where="futures-util/src/stream/stream/{filter,filter_map,skip_while,take_while,then,scan,for_each,fold}.rs")],
     ["seq"], ["items, ends, closure calls, polls of sources"])

prop("C19", "try-stream combinators: values transformed, errors pass in place",
     "Whatever the pattern of pendings and errors, map_ok, map_err, err_into, inspect_ok/err, and_then, or_else, try_filter, try_filter_map, try_skip_while, try_take_while, try_unfold, try_chunks, try_ready_chunks, try_flatten, try_buffered, try_collect, try_concat, try_fold, try_for_each, try_all, try_any, try_next and into_stream yield exactly the values of the corresponding sequence operation, and every error of the source or of a closure appears once, at its place, with no item before it lost (try_chunks hands the collected items back with it) and none after it swallowed. Consuming adapters end with the first error; a stream adapter remains pollable and consistent after one.",
     ["histories", "inputs"], HIST,
     "The state left behind by an error between two pendings is what breaks; tests look at single errors on ready streams.",
     ["futures-util/src/stream/try_stream/*.rs"],
     [dict(name="pending futures and items kept across errors", where="futures-util/src/stream/try_stream/{try_skip_while,try_take_while,try_filter,and_then,or_else,try_chunks}.rs")],
     ["seq"], ["Ok/Err items, closure calls"])

prop("C20", "concurrency-limited combinators respect the limit and lose nothing",
     "buffered, buffer_unordered, try_buffered, try_buffer_unordered, for_each_concurrent, try_for_each_concurrent and flatten_unordered never have more than the given number of futures (or inner streams) in progress, and take on new ones from the source whenever they are below it and the source is ready. Every output appears exactly once, in source order for the ordered ones and as soon as it is there for the unordered ones, and the combinator ends exactly when the source ended and all work is done; the try forms report the first error they meet.",
     ["histories", "inputs"], HIST + "; limits 1, 2 and none",
     "Exceeding the limit or stalling below it depends on completions arriving between polls of the source; tests sample a few orders.",
     ["futures-util/src/stream/stream/buffered.rs", "futures-util/src/stream/stream/buffer_unordered.rs", "futures-util/src/stream/stream/for_each_concurrent.rs", "futures-util/src/stream/stream/flatten_unordered.rs", "futures-util/src/stream/try_stream/try_buffered.rs", "futures-util/src/stream/try_stream/try_buffer_unordered.rs", "futures-util/src/stream/try_stream/try_for_each_concurrent.rs"],
     [dict(name="fill loop before polling the in-progress queue", where="poll_next of each"), dict(name="poll state and wakers of flatten_unordered", where="futures-util/src/stream/stream/flatten_unordered.rs SharedPollState")],
     ["mc", "seq"], ["number of live children at every point, outputs, ends, wake-ups"])

prop("C21", "merging streams: every item once, in each stream's order, no starvation",
     "stream::select, select_with_strategy, select_all, stream_select! and flatten_unordered yield every item of every input exactly once, each input's items in order, and end exactly when all inputs ended; an input that ended is not polled again. They yield whenever some input is ready, choose fairly as documented (alternating in select, by the strategy's answer in select_with_strategy, in turn in select_all), and a wake-up of any input reaches the task.",
     ["histories", "inputs"], HIST,
     "Fairness and end handling depend on which input is ready or ended at each poll; tests check one pattern.",
     ["futures-util/src/stream/select.rs", "futures-util/src/stream/select_with_strategy.rs", "futures-util/src/stream/select_all.rs", "futures-macro/src/stream_select.rs", "futures-util/src/stream/stream/flatten_unordered.rs"],
     [dict(name="InternalState and PollNext", where="futures-util/src/stream/select_with_strategy.rs")],
     ["mc", "seq"], ["items, ends, order in which inputs are asked"])

prop("C22", "Fused contracts: is_terminated is truthful and end is final",
     "For every type implementing FusedFuture or FusedStream, is_terminated never becomes true while an output or item is still to come, is true once the future has returned its output or the stream its end, and polling a terminated fused adapter (fuse, select, peekable, chunks, take...) neither panics nor polls an inner future or stream that has finished (consumers that ended with an error report their source's state). Adapters documented to end early (take, take_while, take_until, scan, fuse, abortable) keep returning the end.",
     ["histories"], HIST + "; is_terminated queried after every poll, and polls continued past the end",
     "The flag can be wrong in one internal state only, reached after a particular pending; tests query it at most once.",
     ["futures-core/src/future.rs", "futures-core/src/stream.rs", "futures-util/src/stream/stream/*.rs", "futures-util/src/stream/try_stream/*.rs", "futures-util/src/future/future/*.rs"],
     [dict(name="is_terminated implementations", where="impl FusedStream/FusedFuture throughout futures-util")],
     ["seq"], ["is_terminated against what is still to come; polls of finished leaves"])

prop("C23", "size_hint always brackets the number of items still to come",
     "At every point of its life, the size_hint of every stream of the library brackets the number of items it can still yield, provided its inputs' hints do: lower bound never too high, upper bound never too low, with no overflow for extreme bounds of the inputs.",
     ["histories", "inputs"], HIST + "; each source reporting exact, loose, unknown or extreme (usize::MAX) bounds; size_hint compared after every poll",
     "A hint is wrong only in certain internal states (an item buffered, a future pending); tests ask at the start.",
     ["futures-util/src/stream/stream/*.rs", "futures-util/src/stream/try_stream/*.rs", "futures-util/src/stream/*.rs", "futures-macro/src/stream_select.rs"],
     [dict(name="size_hint implementations", where="impl Stream throughout futures-util")],
     ["seq"], ["size_hint against items actually still yielded"])

prop("C24", "sinks and sink combinators deliver what they accept, in order, protocol kept",
     "Every item a sink combinator (with, with_flat_map, sink_map_err, sink_err_into, buffer, fanout, unfold, flatten_sink, split, send_all, forward, ...) accepts reaches the underlying sink exactly once, transformed as documented and in order, at the latest when a flush or close completes; flush and close complete only when the underlying sink has flushed or closed everything accepted before. The underlying sink is used as the Sink contract demands: start_send only after poll_ready succeeded, nothing but closing after poll_close has begun, nothing after an error. Errors surface at the operation that met them, and buffers never exceed their capacity.",
     ["histories", "inputs"], HIST + "; every sequence of ready/send/flush/close operations on the combinator; errors at any step of the underlying sink",
     "An item is lost or sent twice only if the inner sink is pending at one particular step; tests use sinks that are always ready.",
     ["futures-util/src/sink/*.rs", "futures-util/src/stream/stream/forward.rs", "futures-util/src/stream/stream/split.rs", "futures-util/src/future/future/flatten.rs", "futures-sink/src/lib.rs"],
     [dict(name="item slots and buffers", where="futures-util/src/sink/{with,with_flat_map,buffer,send_all,feed}.rs"), dict(name="readiness and close bookkeeping", where="futures-util/src/sink/fanout.rs, unfold.rs")],
     ["seq"], ["items, flushes and closes arriving at the underlying sink"])

prop("C25", "readers: every byte once, in order, however the source chunks it",
     "Whatever the chunking, pending polls and errors of the underlying source, reading through any adapter (BufReader, take, chain, split, IntoAsyncRead, Cursor, AllowStdIo, wrappers) with any mix of read, vectored read, fill_buf/consume and seek yields exactly the source's bytes, each once and in order; end of file is reported only at the end, and an error is reported once and loses no byte. The reading futures (read_exact, read_to_end, read_to_string, read_until, read_line, lines, copy) deliver exactly the bytes they document, take nothing beyond them from the source, and on error or cancellation leave the caller's buffer with its previous contents plus at most what was read (a cancelled string read restores the string). Text is delivered only if it is valid UTF-8.",
     ["histories", "inputs"], HIST + "; every way of splitting the data into short reads, an error at any read, every mix of user operations; all texts over a small alphabet with newlines, carriage returns, multi-byte characters and invalid bytes",
     "Losing or duplicating a byte needs a short read, an error or a pending poll at one position relative to the buffer; tests read from in-memory data in one go.",
     ["futures-util/src/io/*.rs", "futures-util/src/stream/try_stream/into_async_read.rs", "futures-util/src/future/either.rs", "futures-io/src/lib.rs"],
     [dict(name="buffer positions", where="futures-util/src/io/buf_reader.rs, take.rs, chain.rs, cursor.rs"), dict(name="partial progress of reading futures", where="futures-util/src/io/read_*.rs, lines.rs, copy_buf.rs")],
     ["seq"], ["bytes delivered, position of the source, caller's buffers"])

prop("C26", "writers: accepted bytes arrive once, in order; flush and close are true",
     "Every byte a writer adapter (BufWriter, LineWriter, split half, into_sink, Cursor, AllowStdIo, wrappers) accepts reaches the underlying writer exactly once and in order, whatever short writes, zero-length writes, pending polls and errors happen; the bytes held back never exceed the capacity and a complete line is not held back by LineWriter. A flush, close or seek completes only when everything accepted has been written (and flushed, closed) underneath; write_all, write_all_vectored, copy and into_sink finish only when everything is written, and report a writer that accepts nothing as WriteZero. Nothing is written after closing has begun.",
     ["histories", "inputs"], HIST + "; every sequence of write, vectored write, flush, seek and close operations; a short write, zero-length write or error at any step",
     "Bytes are lost or duplicated only if a write is short, pending or failing at one particular point while a flush is under way; tests write into a Vec.",
     ["futures-util/src/io/*.rs", "futures-io/src/lib.rs"],
     [dict(name="buf/written bookkeeping", where="futures-util/src/io/buf_writer.rs flush_buf, line_writer.rs"), dict(name="partial progress of writing futures", where="futures-util/src/io/write_all*.rs, copy_buf*.rs, into_sink.rs")],
     ["seq"], ["bytes, flushes and closes arriving at the underlying writer"])

prop("C27", "panics and cancellation anywhere leave memory and ownership intact",
     "If any future, stream, sink, closure or waker the library calls panics, or any combinator is dropped at any point (between any two polls, also while unwinding), everything it owns - items in flight, buffered results, inner futures, wakers, nodes - is dropped exactly once, nothing is leaked or used after being dropped, and the panic reaches the caller. catch_unwind turns it into an error, and the remaining parts of a set or shared structure stay usable where documented.",
     ["histories", "crash_points"], HIST + "; plus one panic of any leaf at any poll and cancellation at any pending",
     "A double drop needs a panic inside one particular call while a slot is half moved; tests panic in one or two places.",
     ["futures-util/src/stream/futures_unordered/mod.rs", "futures-util/src/future/future/*.rs", "futures-util/src/stream/stream/*.rs", "futures-util/src/unfold_state.rs", "futures-task/src/*.rs"],
     [dict(name="Bomb guards, pin-projection replace/take", where="throughout futures-util")],
     ["mc", "seq"], ["drop accounting of values, futures, streams and wakers"])

prop("C28", "task primitives: wakers count exactly, erased futures own exactly",
     "For any sequence of waker, waker_ref, WakerRef, clone, clone_from, wake, wake_by_ref and drop operations, the ArcWake object is woken exactly once per wake, is referenced exactly by its owner and the live wakers, and is dropped exactly once with the last of them; a waker_ref never owns, wake consumes exactly the reference it was given, will_wake is never true between different tasks. A FutureObj or LocalFutureObj built from any pointer polls the future it was given with the caller's waker, returns its result, drops an owned future exactly once and a borrowed one never. Spawning through a reference, box, Rc or Arc, directly or by spawn/spawn_local(_with_handle), reaches the spawner exactly once with exactly that future and returns its verdict; status is the spawner's own.",
     ["histories"], "every sequence of operations up to the depth bound, on every kind of pointer; " + HIST,
     "A reference count off by one in one vtable entry is invisible until a particular combination of clone and wake_by_ref is followed by a drop.",
     ["futures-task/src/*.rs", "futures-util/src/task/*.rs"],
     [dict(name="RawWaker vtable over Arc", where="futures-task/src/waker.rs, waker_ref.rs"), dict(name="erased future with drop function", where="futures-task/src/future_obj.rs"), dict(name="spawner delegation", where="futures-task/src/spawn.rs")],
     ["seq"], ["reference counts, wake counts, drops, calls arriving at the spawner"])

prop("C29", "bridges to futures 0.1 preserve results, wake-ups and bytes",
     "A future, stream, sink, reader or writer seen through Compat, CompatSink, Compat01As03, Compat01As03Sink or any composition of them yields exactly the results, items, errors and bytes of the wrapped object, in order and exactly once, pending exactly when it is pending (WouldBlock for io); sink items are accepted, flushed and closed as if used directly, with at most one item held back and nothing but closing once a close has begun. The task of the latest poll is woken for every wake or notification of the wrapped object, through any clones of wakers and tasks, which may outlive the bridge and are released exactly once. Executors bridged in either direction run exactly the futures they are given and report refusal.",
     ["histories"], HIST + "; every sequence of waker operations up to the depth bound; every sequence of sink, read and write operations with short transfers and errors",
     "A waker that survives its task, a sink item offered to a full 0.1 sink or a close begun while an item is still buffered are single steps of histories the few bridge tests do not visit.",
     ["futures-util/src/compat/*.rs", "futures-util/src/future/try_future/mod.rs", "futures-util/src/sink/mod.rs", "futures-util/src/io/mod.rs"],
     [dict(name="borrowed task as RawWaker", where="futures-util/src/compat/compat03as01.rs Current"), dict(name="boxed waker as NotifyHandle", where="futures-util/src/compat/compat01as03.rs WakerToHandle"), dict(name="one-item buffer of Compat01As03Sink", where="futures-util/src/compat/compat01as03.rs")],
     ["seq"], ["results, items, bytes, wake-ups, references to the task"])

prop("C30", "future combinators compute exactly their documented function",
     "map, map_into, then, flatten, flatten_stream, inspect, fuse, catch_unwind, now_or_never, poll_immediate, into_stream, the try forms (map_ok, map_err, map_ok_or_else, and_then, or_else, unwrap_or_else, err_into, inspect_ok/err, try_flatten, try_flatten_err, into_future), Either, OptionFuture and the constructors (ready, ok, err, pending, lazy, poll_fn, always_ready) resolve exactly when what they wrap has resolved, to the documented function of its output. Each closure runs exactly once, only on its path and only then; the first future is dropped before or when the second starts, and nothing is polled after it completed.",
     ["histories", "inputs"], HIST,
     "Whether a closure runs twice or a stage is skipped shows only when pendings fall between the stages.",
     ["futures-util/src/future/future/*.rs", "futures-util/src/future/try_future/*.rs", "futures-util/src/future/*.rs"],
     [dict(name="project_replace state machines", where="futures-util/src/future/future/{map,flatten}.rs, try_future/try_flatten.rs")],
     ["seq"], ["outputs, closure calls, polls and drops of the stages"])

prop("C31", "pending means a wake-up is coming: no combinator loses a wake-up",
     "Whenever a future, stream or sink of the library returns Pending, the waker of that very poll is registered with every source whose progress it is waiting for, or has already been woken: when any of those becomes ready the task of the latest poll is woken, even if the task moved to another waker or was polled spuriously in between. Driving a combinator only when it is woken therefore always reaches the same result as polling it continuously, and never needs a poll that no one asked for.",
     ["histories", "schedules"], HIST + "; after every Pending the leaf to fire next is chosen freely and the combinator polled only if woken",
     "A combinator that keeps an old waker or returns Pending without polling its source works in tests that poll again anyway.",
     ["futures-util/src/future/**", "futures-util/src/stream/**", "futures-util/src/sink/**"],
     [dict(name="poll implementations passing cx on", where="throughout futures-util")],
     ["mc", "seq"], ["wake-ups of the latest waker"])

prop("C32", "test utilities do exactly what they announce",
     "interleave_pending makes every operation of a future, stream, sink, reader or writer pending exactly once, waking the task at once, before passing it on until it is ready, and pending_once does so for the first poll only; results, items, errors and bytes are those of the wrapped object. track_closed reports closed exactly after a successful close and refuses use after it; limited passes on exactly the first limit bytes of a request; assert_unmoved panics exactly if something that was polled is polled or dropped at another address, and is otherwise transparent. The counting waker counts every wake-up, recording, no-op and panicking spawners and wakers do that and nothing else, and assert_stream_pending/next/done poll once and hold exactly when they should.",
     ["histories"], HIST + "; every sequence of moves, polls, clones, sink and io operations up to the depth bound",
     "These utilities are what other tests rely on; they have next to no tests of their own.",
     ["futures-test/src/*.rs", "futures-test/src/task/*.rs", "futures-test/src/io/*.rs", "futures-test/src/future/*.rs"],
     [dict(name="pended flag", where="futures-test/src/interleave_pending.rs"), dict(name="closed flag", where="futures-test/src/track_closed.rs"), dict(name="recorded address", where="futures-test/src/assert_unmoved.rs")],
     ["seq"], ["polls and operations arriving at the wrapped object", "wake-ups", "panics"])

prop("C33", "nothing pinned is moved before it is dropped",
     "A future, stream or sink that is not Unpin and was handed to any combinator, collection, macro or executor wrapper of the library is polled at one address only and is dropped at that address, from its first poll on: not moved by results being taken out, by growth or reuse of a collection, by the wrapper itself being moved where it is Unpin (FuturesUnordered, FuturesOrdered, JoinAll, Shared, boxed and erased futures), by completion, replacement of a finished stage, clearing, cancellation or unwinding.",
     ["histories", "crash_points"], HIST + "; each adapter that is Unpin is itself moved before every poll",
     "Tests almost only use Unpin leaves, for which a move is invisible.",
     ["futures-util/src/future/**", "futures-util/src/stream/**", "futures-util/src/sink/**", "futures-task/src/future_obj.rs", "futures-util/src/async_await/**"],
     [dict(name="structural pinning and project_replace", where="throughout futures-util"), dict(name="heap nodes of FuturesUnordered, Pin<Box<[_]>> of join_all", where="futures-util/src/stream/futures_unordered/mod.rs, future/join_all.rs")],
     ["seq"], ["addresses of leaf futures, streams and sinks at every poll and at drop"])

prop("C34", "wrappers give access to exactly what they wrap",
     "At any point of its use, a wrapper's get_ref, get_mut, get_pin_mut and into_inner return exactly the object or objects it wraps, each in its own position, and neither they nor by_ref, iter, iter_mut or the Debug form disturb what the wrapper does next. Conversions and constructors (From, FromIterator, Extend, Default, IntoIterator, new, with_capacity, left_future/right_future and their kin, boxed, ptr_eq, ptr_hash, set_limit, set_position) yield exactly what they name; Either, Box, Pin, &mut, AssertUnwindSafe and the other transparent wrappers delegate every operation, the blocking, vectored, seek and close forms included.",
     ["histories"], HIST + "; each accessor after every prefix of polls",
     "There are hundreds of these small forwarding functions; next to none has a test, and one that forwards to the wrong field or method shows only in a program that uses it.",
     ["futures-util/src/stream/**", "futures-util/src/sink/**", "futures-util/src/io/**", "futures-util/src/future/either.rs", "futures-io/src/lib.rs", "futures-sink/src/lib.rs", "futures-core/src/*.rs"],
     [dict(name="delegate_access_inner! and hand-written accessors", where="futures-util/src/lib.rs and each adapter")],
     ["seq"], ["identity of the objects returned", "what the wrapper yields afterwards"])

PROPS = {p["id"]: {"engines": p["engines"]} for p in P}
PROPS["LITMUS"] = {"engines": ["mc"]}
