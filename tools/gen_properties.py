#!/usr/bin/env python3
"""Writes properties.jsonl (kept as code only so that it is easy to edit)."""
import json, os
P = []
def p(id, title, statement, over, qtext, why, files, mech, observe="public API", state=None):
    a = {"files": files, "mechanism": [{"name": m, "where": files[0]} for m in mech], "observe_at": [observe], "hook_needed": None}
    if state: a["state"] = state
    P.append({"id": id, "title": title, "statement": statement,
              "quantifier": {"over": over, "text": qtext}, "why_tests_cant": why, "anchors": a})

CORE = "src/lib.rs"
p("C01", "Queue delivers every element exactly once, in FIFO order",
  "Every element whose push completed is popped at most once, never altered, never invented, and never skipped: pops return completed pushes in the order in which the pushes took their places, whatever number of producers and consumers run concurrently (per-producer order and real-time order are therefore preserved). Once all pushes are complete, popping until empty returns exactly the elements that were pushed and not yet popped.",
  ["schedules", "histories"], "all interleavings of pushes and pops (by value, by reference, by closure) from several threads, all capacities and laps, on both the heap-allocated and the statically allocated queue and on every channel flavour",
  "The tests run a handful of thread schedules on one machine (the loom models, which are not part of the stable tests, cover a few fixed programs); a reordering or duplication needs a particular interleaving of claims and releases, often across a ring wrap-around.",
  [CORE, "src/thingbuf.rs", "src/static_thingbuf.rs", "src/mpsc.rs"],
  ["Core::push_ref / Core::pop_ref claim protocol on head, tail and per-slot state", "Core::next lap arithmetic", "Ref::drop publishing the new slot state"])
p("C02", "A slot reference is exclusive and race-free; contents fully visible",
  "While a reference to an element obtained from a push or pop operation is alive, no other thread can read or write that element, and everything written to the element by its previous holder is visible to the next holder. No execution of the safe API contains a data race, under the language memory model and not merely under strongly ordered hardware.",
  ["schedules", "configurations"], "all interleavings of the safe API, with happens-before derived from the memory orderings the code really requests, with std mutex or with the crate's own spin lock",
  "x86 hardware hides weakened orderings, and tests cannot observe a race that happens to produce the right value.",
  [CORE, "src/wait/cell.rs", "src/wait/queue.rs", "src/util/mutex/spin_impl.rs", "src/mpsc.rs"],
  ["Acquire loads / Release stores of slot state", "WaitCell lock bits guarding the stored waiter", "mutex around the wait list", "sender-count release/fence before close"])
p("C03", "Capacity is never exceeded; full and empty reports are truthful",
  "A queue or channel of capacity N accepts N elements and never has more than N elements or outstanding references at once. A push is refused as full only if at some instant during the call the slot whose turn it is was not free (it still held an element or an outstanding reference); a pop reports empty only if at some instant during the call the oldest element was not available; a refused operation changes nothing and hands the value back. A capacity of zero is refused on construction.",
  ["histories", "schedules", "inputs"], "all histories of push/pop/hold/release operations and all interleavings, all capacities including 1 and non powers of two",
  "Tests fill and drain queues in a fixed pattern; off-by-one errors at wrap-around, with references held across it, or with racing producers are not sampled.",
  [CORE, "src/thingbuf.rs", "src/static_thingbuf.rs", "src/mpsc.rs"],
  ["Core::push_ref full check (head + generation == tail)", "Core::pop_ref empty check", "error value propagation in push/try_send"])
p("C04", "Non-blocking operations finish whatever references others hold",
  "Queue operations, and the try_ operations of the channels while no sender is waiting for capacity, return after a bounded number of their own steps, even if every other thread is suspended indefinitely in the middle of any operation or holds element references; they never spin waiting for somebody else, and never panic.",
  ["schedules", "histories"], "all reachable states, with every other thread suspended at an arbitrary point; all combinations of held references, including those held by the caller itself",
  "A hang shows only in particular combinations of held references and ring position, and a test that hangs is never written.",
  [CORE, "src/util.rs"], ["Core::push_ref and Core::pop_ref retry loops", "Backoff::done_spinning", "Core::len retry loop"])
p("C05", "Each element is created once and dropped exactly once",
  "No element slot is dropped without having been initialised, read or recycled before it was initialised, dropped twice, or leaked: for any use of a queue or channel followed by its destruction (full, partly filled, wrapped around, closed, with messages still queued), every element value ever created is dropped exactly once. Construction creates no elements; elements are created on first use of a slot.",
  ["histories", "schedules", "crash_points"], "all operation histories and all points at which the queue or the last channel handle is dropped, by any thread",
  "Tests drop queues in a couple of states; leaks and double drops depend on how far the ring was filled and on which handle goes last.",
  [CORE, "src/thingbuf.rs", "src/static_thingbuf.rs", "src/mpsc/async_impl.rs", "src/mpsc/blocking.rs"],
  ["Core::drop_slots", "generation-0 initialisation in Core::push_ref", "Drop for ThingBuf/StaticThingBuf/Inner"])
p("C06", "Recycling policy is applied to every reused element",
  "A producer that obtains an element by reference always sees either a freshly created element (first use of that slot) or the previous contents of the slot after exactly one application of the recycling policy, never stale contents of an earlier message; popping by value leaves a newly created element behind. The default policy resets to the default value, and the capacity policy creates collections with at least the minimum capacity and, on recycle, empties them and keeps their capacity up to the maximum.",
  ["histories", "inputs", "schedules"], "all histories of push/pop by value and by reference, all min/max capacity settings and element sizes",
  "Tests look at a few strings in a fixed order of operations.",
  ["src/recycling.rs", CORE, "src/thingbuf.rs", "src/mpsc.rs"], ["Recycle impls for DefaultRecycle and WithCapacity", "recycling::take", "Core::push_ref recycle branch"])
p("C07", "len, capacity, remaining and is_empty report the true occupancy",
  "With no operation in progress, the queue's length equals the number of pushes begun minus the number of pops begun, its remaining space is capacity minus length, and emptiness and capacity agree with them. Called concurrently, the length is never greater than the capacity and is a value the queue really had during the call.",
  ["histories", "schedules"], "all histories across several laps, all capacities; all interleavings of a length query with pushes and pops",
  "Wrap-around combinations of head and tail position, and concurrent moves between the two reads, are not sampled by the tests.",
  [CORE, "src/thingbuf.rs", "src/static_thingbuf.rs"], ["Core::len", "ThingBuf::remaining/is_empty/capacity and the static equivalents"])
p("C08", "Async receiver is always woken for messages and for closing",
  "If an async receive (receive future or poll function) returned pending, then whenever a message afterwards becomes available, or the last sender goes away, the most recently supplied waker is woken; a task that re-polls when woken can never be left waiting while a message is available or the channel is closed.",
  ["schedules", "histories"], "all interleavings of polling (with changing wakers) against completing sends, sender clones and sender drops, for the dynamic and static channel, with and without std",
  "A lost wake-up needs a precise interleaving of waker registration with a notification; the tests rely on the scheduler to hit it.",
  ["src/wait/cell.rs", "src/mpsc.rs", "src/mpsc/async_impl.rs"], ["WaitCell::wait_with / notify / close_tx", "ChannelCore::poll_recv_ref double check", "field drop order in SendRefInner"])
p("C09", "Blocking receiver never sleeps past an available message or close",
  "A blocking receive returns once a message is available or all senders are gone: there is no execution in which the receiver stays parked while the queue holds a completed message or while no sender exists.",
  ["schedules"], "all interleavings of blocking receives against sends and sender drops, spurious wake-ups and stale unpark tokens included, dynamic and static channel",
  "A lost wake-up needs a precise interleaving; in tests it would show as a rare hang.",
  ["src/mpsc/blocking.rs", "src/wait/cell.rs", "src/mpsc.rs"], ["recv_ref park loop", "WaitCell protocol", "Sender::drop close_tx"])
p("C10", "Waiting senders make progress when capacity is freed",
  "If senders are waiting because the channel was full and the receiver keeps receiving, every waiting sender eventually gets to send: there is no reachable state in which a sender stays asleep while the channel is empty and nobody else will act. Waiting senders are woken in first-come order, one per freed slot, and each send that returns success stores exactly one message.",
  ["schedules", "histories"], "all interleavings of two or more waiting senders with a receiver, async and blocking, dynamic and static",
  "Lost sender notifications need specific interleavings of enqueueing, notifying and retrying.",
  ["src/wait/queue.rs", "src/mpsc.rs", "src/mpsc/async_impl.rs", "src/mpsc/blocking.rs"], ["WaitQueue::start_wait/continue_wait/notify", "SendRefFuture::poll", "blocking send_ref loop", "field drop order in RecvRefInner"])
p("C11", "Receiver drains everything sent before reporting disconnection",
  "After the last sender is dropped the receiver still receives every message sent before, in order, and then every receive reports closed, permanently; while any sender (including clones) is alive, receives never report closed.",
  ["schedules", "histories"], "all interleavings of sends, sender clones and drops with every kind of receive operation, in all channel flavours",
  "Premature or missing disconnection depends on the order of count updates, close and in-flight sends.",
  ["src/mpsc.rs", "src/mpsc/async_impl.rs", "src/mpsc/blocking.rs", CORE], ["tx_count updates in Clone/Drop", "Core::close bit in tail", "poll_recv_ref Closed branch", "Core::pop_ref Closed result"])
p("C12", "Dropping the receiver fails sends and releases waiting senders",
  "Once the receiver is dropped, every later send of any kind fails as closed and returns the unsent value, and every sender already waiting for capacity is woken and fails as closed; no sender waits for ever and no send fails as closed before the receiver was dropped.",
  ["schedules"], "all interleavings of the receiver's drop with waiting, arriving and retrying senders, all flavours",
  "Requires the drop to fall between a sender's capacity check and its registration, or to race with wake-ups.",
  ["src/mpsc.rs", "src/wait/queue.rs", "src/mpsc/async_impl.rs", "src/mpsc/blocking.rs"], ["ChannelCore::close_rx", "WaitQueue::close", "closed bit check in Core::push_ref"])
p("C13", "Cancelling a pending send or receive has no side effects on others",
  "Dropping a pending send or receive future at any point leaves the channel usable: nothing is sent or lost, no dangling registration is ever used afterwards, and a wake-up already directed at the cancelled sender is not lost to the other waiting senders.",
  ["schedules", "fault_sequences"], "all points at which a future may be dropped, against all interleavings of notifications, other senders and closing",
  "The window in which a notification is addressed to a future being dropped is a few instructions wide.",
  ["src/mpsc/async_impl.rs", "src/wait/queue.rs"], ["PinnedDrop for SendRefFuture", "Waiter::remove", "WaitQueue::notify_slow"])
p("C14", "Timed sends and receives respect the timeout and clean up",
  "A timed receive or send fails with a timeout only after at least the given time has passed and never waits for longer than the given time; a timed-out operation sends or consumes nothing, returns the unsent value, leaves no dangling registration behind, and does not swallow a wake-up meant for another sender.",
  ["schedules", "inputs", "histories"], "all timeout values, all clock behaviours, all wake-up patterns (early, spurious, late), all interleavings with other senders and the receiver",
  "Tests use one timeout and real clocks; early wake-ups and the timing of registrations are not controlled.",
  ["src/mpsc/blocking.rs", "src/wait/queue.rs"], ["recv_ref_timeout", "send_ref_timeout", "Waiter lifetime on the sender's stack"])
p("C15", "Error values identify their cause and return the unsent message",
  "Every failed send, by whichever method, returns exactly the value the caller passed in; the classification methods of each error type answer true for exactly the variant concerned, and an operation reports closed only when the other side is gone, full only when at capacity, timeout only on expiry.",
  ["inputs", "histories"], "all messages, all channel states, all send and receive methods of all flavours",
  "Tests check one or two variants of the errors; the classification methods are not tested at all.",
  ["src/mpsc/errors.rs", "src/mpsc.rs", "src/mpsc/blocking.rs", "src/mpsc/async_impl.rs", CORE], ["TrySendError/SendTimeoutError/Closed/Full accessors", "with_value conversions"])
p("C16", "A static channel is split at most once",
  "At most one of any number of concurrent or repeated attempts to split a static channel succeeds, the first attempt on a fresh channel always does, and the handles obtained behave like those of a dynamic channel of the same capacity.",
  ["schedules", "histories"], "all interleavings of concurrent split attempts, both static channel flavours",
  "Needs two splits racing on the same static.",
  ["src/mpsc/async_impl.rs", "src/mpsc/blocking.rs"], ["StaticChannel::try_split compare-exchange", "StaticChannel::split"])
p("C17", "is_closed is true exactly when no sender remains",
  "The receiver's is_closed answers true if and only if every sender of the channel, clones included, has been dropped, in all channel flavours.",
  ["histories", "schedules"], "all histories of cloning and dropping senders",
  "No test calls it.",
  ["src/mpsc/async_impl.rs", "src/mpsc/blocking.rs"], ["Receiver::is_closed and StaticReceiver::is_closed", "tx_count"])
p("C18", "Unwinding threads still disconnect and never corrupt the channel",
  "If a thread or task that owns a sender or receiver panics, dropping that handle during unwinding disconnects it like any other drop (the other side is woken and sees it as closed), and a panic in user code running inside an element reference or waker (clone or wake) leaves the channel sound: no hang of the other side, no double drop, no access to uninitialised memory. A panic in the recycling policy or in an element's destructor never makes the queue drop an element twice or touch an uninitialised one.",
  ["fault_sequences", "schedules"], "all points at which user code may panic, combined with all interleavings with the other side",
  "Tests contain no panicking owners.",
  [CORE, "src/util/panic.rs", "src/mpsc.rs", "src/wait/cell.rs", "src/mpsc/blocking.rs"], ["Core::close", "Drop for Sender/Receiver", "WaitCell::wait_with catch_unwind"])
p("C19", "The no_std configuration gives the same guarantees",
  "Built without the standard library, where the crate's own spin lock protects the waiting senders, the async channel and the queues give the same guarantees: the lock is exclusive and always released, no waiting sender or receiver is lost, and no data race exists.",
  ["configurations", "schedules"], "all interleavings of waiting, notified, cancelled and closed senders with the spin lock in place of the std mutex",
  "The stable tests only build the std configuration.",
  ["src/util/mutex/spin_impl.rs", "src/wait/queue.rs", "src/mpsc/async_impl.rs"], ["spin_impl::Mutex::lock / MutexGuard::drop"])
p("C20", "Handles are only Send/Sync when their contents allow it",
  "Queues, channel handles, element references and futures can be moved to or shared with another thread only if the element type permits it.",
  ["programs"], "all element types and all safe client programs",
  "A type-level property over all programs.",
  [CORE, "src/wait/cell.rs", "src/wait/queue.rs"], ["unsafe impl Send/Sync"], "type checker")
p("C21", "No memory is allocated after construction",
  "After a queue or channel has been constructed, its own operations (sending, receiving, waiting, waking, cloning handles, closing) allocate no heap memory; the statically allocated variants never allocate at all, not even on construction.",
  ["schedules", "histories"], "all operations and code paths, including the slow paths that wait",
  "Tests do not count allocations, least of all on contended slow paths.",
  ["src/mpsc.rs", "src/wait/queue.rs", "src/mpsc/async_impl.rs", "src/mpsc/blocking.rs", CORE], ["intrusive Waiter nodes stored in the waiting future or stack frame", "make_boxed_array / make_static_array"])
p("C22", "Wakers may use the channel they are registered with",
  "No internal lock is held while a task's waker is woken or dropped: a waker whose wake or drop cancels or polls a waiting send or receive of the same channel, sends, receives or drops handles neither deadlocks nor corrupts the channel, and every other waiter that is due a wake-up still gets it.",
  ["histories", "schedules"], "all operations a waker may perform, at every point at which the channel wakes or drops one",
  "Tests use the wakers of an executor, which only set a flag.",
  ["src/wait/queue.rs", "src/wait/cell.rs", "src/mpsc.rs"], ["WaitQueue::close / notify_slow / continue_wait_slow", "WaitCell::wait_with / notify2"])
out = os.path.join(os.path.dirname(os.path.abspath(__file__)), "..", "properties.jsonl")
with open(out, "w") as f:
    for x in P: f.write(json.dumps(x) + "\n")
print(len(P))
