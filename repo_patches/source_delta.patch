From 51ea04a1a62595d1ef2d41f6763184cc4d8949a8 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 13:52:43 +0000
Subject: [PATCH 01/18] fix: re-read the wait queue's state under the lock in
 notify_slow

The state passed in was loaded before the lock was taken. If the last
waiter was cancelled in between, the notification was lost (and a debug
assertion failed); a queue closed in between was reopened.
---
 src/wait/queue.rs | 79 +++++++++++++++++++++++++++--------------------
 1 file changed, 45 insertions(+), 34 deletions(-)

diff --git a/src/wait/queue.rs b/src/wait/queue.rs
index f820a70..6b1e5fb 100644
--- a/src/wait/queue.rs
+++ b/src/wait/queue.rs
@@ -388,55 +388,66 @@ impl<T: Notify + Unpin> WaitQueue<T> {
 
         // Slow path: there are waiters in the queue, so we must acquire the
         // lock and wake one of them.
-        self.notify_slow(state)
+        self.notify_slow()
     }
 
     /// Slow path for `notify`: acquire the lock on the linked list, dequeue a
     /// waiter, and notify it.
     #[cold]
     #[inline(never)]
-    fn notify_slow(&self, state: usize) -> bool {
-        test_println!("WaitQueue::notify_slow(state: {})", state);
+    fn notify_slow(&self) -> bool {
+        test_println!("WaitQueue::notify_slow()");
 
         let mut list = self.list.lock();
-        match state {
-            EMPTY | WAKING => {
-                if let Err(actual) = self.state.compare_exchange(state, WAKING, SeqCst, SeqCst) {
-                    debug_assert!(actual == EMPTY || actual == WAKING);
-                    self.state.store(WAKING, SeqCst);
+        // Reload the queue's state, as it may have changed while we were
+        // waiting to lock the linked list: the waiters may have been cancelled
+        // or notified by someone else, or the queue may have been closed.
+        let mut state = self.state.load(Acquire);
+        loop {
+            match test_dbg!(state) {
+                EMPTY | WAKING => {
+                    match test_dbg!(self.state.compare_exchange(state, WAKING, SeqCst, SeqCst)) {
+                        Ok(_) => return false,
+                        Err(actual) => state = actual,
+                    }
                 }
-            }
-            WAITING => {
-                let waiter = list.dequeue(WAKING);
-                debug_assert!(
-                    waiter.is_some(),
-                    "if we were in the `WAITING` state, there must be a waiter in the queue!\nself={:#?}",
-                    self,
-                );
+                WAITING => {
+                    let waiter = list.dequeue(WAKING);
+                    debug_assert!(
+                        waiter.is_some(),
+                        "if we were in the `WAITING` state, there must be a waiter in the queue!",
+                    );
 
-                // If we popped the last node, transition back to the empty
-                // state.
-                if test_dbg!(list.is_empty()) {
-                    self.state.store(EMPTY, SeqCst);
-                }
+                    // If we popped the last node, transition back to the empty
+                    // state (unless the queue has been closed meanwhile).
+                    if test_dbg!(list.is_empty()) {
+                        let _ = test_dbg!(self
+                            .state
+                            .compare_exchange(WAITING, EMPTY, SeqCst, SeqCst));
+                    }
 
-                // drop the lock
-                drop(list);
+                    // drop the lock
+                    drop(list);
 
-                // wake the waiter
-                if let Some(waiter) = waiter {
-                    waiter.notify();
-                    return true;
+                    // wake the waiter
+                    if let Some(waiter) = waiter {
+                        waiter.notify();
+                        return true;
+                    }
+                    return false;
+                }
+                // The queue is closed, and every waiter has been (or is about
+                // to be) woken: there's nobody left to notify.
+                _state => {
+                    debug_assert_eq!(
+                        _state, CLOSED,
+                        "notify_slow: unexpected state value {:?} (expected CLOSED). this is a bug!",
+                        _state,
+                    );
+                    return false;
                 }
-            }
-            _weird => {
-                // huh, if `notify_slow` was called, we *probably* shouldn't be
-                // in the `closed` state...
-                #[cfg(debug_assertions)]
-                unreachable!("notify_slow: unexpected state value {:?}", _weird);
             }
         }
-        false
     }
 
     /// Close the queue, notifying all waiting tasks.
-- 
2.43.0


From 563c1c41a6d9363c6f6083a33cff7029a3e61047 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 13:53:59 +0000
Subject: [PATCH 02/18] fix: pass on the notification of a cancelled send

A send future dropped after it had been notified (or dequeued while it was
waiting for the lock to unlink itself) swallowed the notification, leaving
other senders asleep although capacity was available.
---
 src/mpsc/async_impl.rs |  9 +++++++--
 src/wait/queue.rs      | 13 ++++++++++++-
 2 files changed, 19 insertions(+), 3 deletions(-)

diff --git a/src/mpsc/async_impl.rs b/src/mpsc/async_impl.rs
index 9f3431b..1f1b493 100644
--- a/src/mpsc/async_impl.rs
+++ b/src/mpsc/async_impl.rs
@@ -1495,8 +1495,13 @@ impl<T, R> PinnedDrop for SendRefFuture<'_, T, R> {
     fn drop(self: Pin<&mut Self>) {
         test_println!("SendRefFuture::drop({:p})", self);
         let this = self.project();
-        if test_dbg!(*this.state) == State::Waiting && test_dbg!(this.waiter.is_linked()) {
-            this.waiter.remove(&this.core.tx_wait)
+        if test_dbg!(*this.state) == State::Waiting
+            && test_dbg!(this.waiter.remove(&this.core.tx_wait))
+        {
+            // This future was already notified, but is being dropped without
+            // having used the capacity it was woken for. Notify the next
+            // waiting sender instead.
+            this.core.tx_wait.notify();
         }
     }
 }
diff --git a/src/wait/queue.rs b/src/wait/queue.rs
index 6b1e5fb..a5b44f7 100644
--- a/src/wait/queue.rs
+++ b/src/wait/queue.rs
@@ -479,10 +479,20 @@ impl<T: Notify> Waiter<T> {
         }
     }
 
+    /// Unlinks this waiter from the queue, if it is still linked.
+    ///
+    /// Returns `true` if the waiter had already been dequeued by a
+    /// notification. In that case, the notification has been assigned to this
+    /// waiter, and the caller must either make use of it or pass it on.
     #[inline(never)]
-    pub(crate) fn remove(self: Pin<&mut Self>, q: &WaitQueue<T>) {
+    pub(crate) fn remove(self: Pin<&mut Self>, q: &WaitQueue<T>) -> bool {
         test_println!("Waiter::remove({:p})", self);
         let mut list = q.list.lock();
+        // The waiter may have been dequeued while we were waiting to acquire
+        // the lock.
+        if !self.is_linked() {
+            return test_dbg!(self.state.load(Acquire)) == WAKING;
+        }
         unsafe {
             // Safety: removing a node is unsafe even when the list is locked,
             // because there's no way to guarantee that the node is part of
@@ -494,6 +504,7 @@ impl<T: Notify> Waiter<T> {
         if test_dbg!(list.is_empty()) {
             let _ = test_dbg!(q.state.compare_exchange(WAITING, EMPTY, SeqCst, SeqCst));
         }
+        false
     }
 
     #[inline]
-- 
2.43.0


From 5b9fb93b02cd4f28b167d31a8076a2672a5634dd Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 13:56:50 +0000
Subject: [PATCH 03/18] fix: is_closed of the send errors reports a closed
 channel

---
 src/mpsc/errors.rs | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/src/mpsc/errors.rs b/src/mpsc/errors.rs
index a41df34..b4b127c 100644
--- a/src/mpsc/errors.rs
+++ b/src/mpsc/errors.rs
@@ -141,7 +141,7 @@ impl<T> SendTimeoutError<T> {
     /// [`send`]: super::blocking::Sender::send
     /// [`Receiver`]: super::blocking::Receiver
     pub fn is_closed(&self) -> bool {
-        matches!(self, Self::Timeout(_))
+        matches!(self, Self::Closed(_))
     }
 
     /// Unwraps the inner `T` value held by this error.
@@ -208,7 +208,7 @@ impl<T> TrySendError<T> {
     /// [`send`]: super::Sender::send
     /// [`Receiver`]: super::Receiver
     pub fn is_closed(&self) -> bool {
-        matches!(self, Self::Full(_))
+        matches!(self, Self::Closed(_))
     }
 
     /// Unwraps the inner `T` value held by this error.
-- 
2.43.0


From 05a47e1ed28fa13cd9c2817fdee7590986889351 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 13:56:56 +0000
Subject: [PATCH 04/18] fix: Receiver::is_closed reports true only once every
 sender is gone

---
 src/mpsc/async_impl.rs | 4 ++--
 src/mpsc/blocking.rs   | 4 ++--
 2 files changed, 4 insertions(+), 4 deletions(-)

diff --git a/src/mpsc/async_impl.rs b/src/mpsc/async_impl.rs
index 1f1b493..797d348 100644
--- a/src/mpsc/async_impl.rs
+++ b/src/mpsc/async_impl.rs
@@ -579,7 +579,7 @@ feature! {
         /// If this method returns `true`, no new messages will become available
         /// on this channel. Previously sent messages may still be available.
         pub fn is_closed(&self) -> bool {
-            test_dbg!(self.inner.core.tx_count.load(Ordering::SeqCst)) <= 1
+            test_dbg!(self.inner.core.tx_count.load(Ordering::SeqCst)) == 0
         }
     }
 
@@ -1284,7 +1284,7 @@ feature! {
         /// If this method returns `true`, no new messages will become available
         /// on this channel. Previously sent messages may still be available.
         pub fn is_closed(&self) -> bool {
-            test_dbg!(self.core.tx_count.load(Ordering::SeqCst)) <= 1
+            test_dbg!(self.core.tx_count.load(Ordering::SeqCst)) == 0
         }
     }
 
diff --git a/src/mpsc/blocking.rs b/src/mpsc/blocking.rs
index cb6f037..5e97d80 100644
--- a/src/mpsc/blocking.rs
+++ b/src/mpsc/blocking.rs
@@ -873,7 +873,7 @@ feature! {
         /// If this method returns `true`, no new messages will become available
         /// on this channel. Previously sent messages may still be available.
         pub fn is_closed(&self) -> bool {
-            test_dbg!(self.core.tx_count.load(Ordering::SeqCst)) <= 1
+            test_dbg!(self.core.tx_count.load(Ordering::SeqCst)) == 0
         }
     }
 
@@ -1559,7 +1559,7 @@ impl<T, R> Receiver<T, R> {
     /// If this method returns `true`, no new messages will become available
     /// on this channel. Previously sent messages may still be available.
     pub fn is_closed(&self) -> bool {
-        test_dbg!(self.inner.core.tx_count.load(Ordering::SeqCst)) <= 1
+        test_dbg!(self.inner.core.tx_count.load(Ordering::SeqCst)) == 0
     }
 }
 
-- 
2.43.0


From 563dac4441f9e9c23c28908774aa9f3ba7df5368 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 14:01:44 +0000
Subject: [PATCH 05/18] fix: unlink the waiter when a timed send gives up

---
 src/mpsc/blocking.rs | 10 ++++++++++
 1 file changed, 10 insertions(+)

diff --git a/src/mpsc/blocking.rs b/src/mpsc/blocking.rs
index 5e97d80..2475827 100644
--- a/src/mpsc/blocking.rs
+++ b/src/mpsc/blocking.rs
@@ -1747,6 +1747,16 @@ fn send_ref_timeout<'a, T, R: Recycle<T>>(
                 thread::park_timeout(timeout);
                 let elapsed = beginning_park.elapsed();
                 if elapsed >= timeout {
+                    // The waiter lives in this stack frame, so it must be
+                    // unlinked before returning. If it was already notified,
+                    // pass the notification on to another waiting sender.
+                    let node = unsafe {
+                        // Safety: as above, the waiter has never been moved.
+                        Pin::new_unchecked(&mut waiter)
+                    };
+                    if test_dbg!(node.remove(&core.tx_wait)) {
+                        core.tx_wait.notify();
+                    }
                     return Err(SendTimeoutError::Timeout(()));
                 }
             }
-- 
2.43.0


From e60120de34b485c3038bfa1d3c72898815e44c4c Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 14:02:13 +0000
Subject: [PATCH 06/18] fix: a woken timed wait parks only for the time that is
 left

---
 src/mpsc/blocking.rs | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/src/mpsc/blocking.rs b/src/mpsc/blocking.rs
index 2475827..03c99c0 100644
--- a/src/mpsc/blocking.rs
+++ b/src/mpsc/blocking.rs
@@ -1637,7 +1637,7 @@ fn recv_ref_timeout<'a, T>(
             }
             Poll::Pending => {
                 test_println!("park_timeout ({:?})", thread::current());
-                thread::park_timeout(timeout);
+                thread::park_timeout(timeout.saturating_sub(beginning_park.elapsed()));
                 let elapsed = beginning_park.elapsed();
                 if elapsed >= timeout {
                     return Err(RecvTimeoutError::Timeout);
@@ -1744,7 +1744,7 @@ fn send_ref_timeout<'a, T, R: Recycle<T>>(
             }
             WaitResult::Wait => {
                 unqueued = false;
-                thread::park_timeout(timeout);
+                thread::park_timeout(timeout.saturating_sub(beginning_park.elapsed()));
                 let elapsed = beginning_park.elapsed();
                 if elapsed >= timeout {
                     // The waiter lives in this stack frame, so it must be
-- 
2.43.0


From 8254ea12da767a05f3fd32dee2de57e2220d387c Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 14:04:45 +0000
Subject: [PATCH 07/18] fix: push and pop return while a reference to the slot
 they need is held

---
 src/lib.rs | 72 ++++++++++++++++++++++++++++++++----------------------
 1 file changed, 43 insertions(+), 29 deletions(-)

diff --git a/src/lib.rs b/src/lib.rs
index 228ffe8..d647c15 100644
--- a/src/lib.rs
+++ b/src/lib.rs
@@ -257,17 +257,28 @@ impl Core {
                 }
             }
 
+            // The slot at the tail is still in use: it holds an element of the
+            // previous lap, or a reference to that element is outstanding.
+            //
+            // fake RMW op to placate loom. this should be equivalent to
+            // doing a relaxed load after a SeqCst fence (per Godbolt
+            // https://godbolt.org/z/zb15qfEa9), however, loom understands
+            // this correctly, while it does not understand an explicit
+            // SeqCst fence and a load.
+            // XXX(eliza): this makes me DEEPLY UNCOMFORTABLE but if it's a
+            // load it gets reordered differently in the model checker lmao...
+            let head = test_dbg!(self.head.fetch_or(0, SeqCst));
+            if test_dbg!(head.wrapping_add(self.gen) == tail) {
+                test_println!("channel full");
+                return Err(TrySendError::Full(()));
+            }
+
             if test_dbg!(state.wrapping_add(self.gen) == tail + 1) {
-                // fake RMW op to placate loom. this should be equivalent to
-                // doing a relaxed load after a SeqCst fence (per Godbolt
-                // https://godbolt.org/z/zb15qfEa9), however, loom understands
-                // this correctly, while it does not understand an explicit
-                // SeqCst fence and a load.
-                // XXX(eliza): this makes me DEEPLY UNCOMFORTABLE but if it's a
-                // load it gets reordered differently in the model checker lmao...
-                let head = test_dbg!(self.head.fetch_or(0, SeqCst));
-                if test_dbg!(head.wrapping_add(self.gen) == tail) {
-                    test_println!("channel full");
+                // The element has been popped, but the `Ref` to it has not been
+                // released yet. It may be held for any length of time (even by
+                // this thread), so don't wait for it forever.
+                if test_dbg!(backoff.done_spinning()) {
+                    test_println!("tail slot is still being read");
                     return Err(TrySendError::Full(()));
                 }
 
@@ -334,26 +345,29 @@ impl Core {
                 }
             }
 
-            if test_dbg!(state == head) {
-                // fake RMW op to placate loom. this should be equivalent to
-                // doing a relaxed load after a SeqCst fence (per Godbolt
-                // https://godbolt.org/z/zb15qfEa9), however, loom understands
-                // this correctly, while it does not understand an explicit
-                // SeqCst fence and a load.
-                // XXX(eliza): this makes me DEEPLY UNCOMFORTABLE but if it's a
-                // load it gets reordered differently in the model checker lmao...
-
-                let tail = test_dbg!(self.tail.fetch_or(0, SeqCst));
-
-                if test_dbg!(tail & !self.closed == head) {
-                    return if test_dbg!(tail & self.closed != 0) {
-                        Err(TryRecvError::Closed)
-                    } else {
-                        test_println!("--> channel empty!");
-                        Err(TryRecvError::Empty)
-                    };
-                }
+            // Nothing to pop at the head: either the queue is empty (and perhaps
+            // a `Ref` to the slot's previous element is still outstanding), or
+            // a push into the slot is in progress.
+            //
+            // fake RMW op to placate loom. this should be equivalent to
+            // doing a relaxed load after a SeqCst fence (per Godbolt
+            // https://godbolt.org/z/zb15qfEa9), however, loom understands
+            // this correctly, while it does not understand an explicit
+            // SeqCst fence and a load.
+            // XXX(eliza): this makes me DEEPLY UNCOMFORTABLE but if it's a
+            // load it gets reordered differently in the model checker lmao...
+            let tail = test_dbg!(self.tail.fetch_or(0, SeqCst));
+
+            if test_dbg!(tail & !self.closed == head) {
+                return if test_dbg!(tail & self.closed != 0) {
+                    Err(TryRecvError::Closed)
+                } else {
+                    test_println!("--> channel empty!");
+                    Err(TryRecvError::Empty)
+                };
+            }
 
+            if test_dbg!(state == head) {
                 if test_dbg!(backoff.done_spinning()) {
                     return Err(TryRecvError::Empty);
                 }
-- 
2.43.0


From 1998c229bcedac71d153c2431c8ce89f7ff76dbd Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 14:08:34 +0000
Subject: [PATCH 08/18] fix: handles dropped while unwinding close the channel

---
 src/lib.rs | 4 +++-
 1 file changed, 3 insertions(+), 1 deletion(-)

diff --git a/src/lib.rs b/src/lib.rs
index d647c15..536690c 100644
--- a/src/lib.rs
+++ b/src/lib.rs
@@ -167,7 +167,9 @@ impl Core {
 
     fn close(&self) -> bool {
         test_println!("Core::close");
-        if crate::util::panic::panicking() {
+        // Loom's atomics can't be used while unwinding. Everywhere else, a handle
+        // dropped by a panicking thread must disconnect like any other.
+        if cfg!(all(loom, test)) && crate::util::panic::panicking() {
             return false;
         }
         test_dbg!(self.tail.fetch_or(self.closed, SeqCst) & self.closed == 0)
-- 
2.43.0


From 7d265da41ea36e1def13dd443b694162bb99518c Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 14:20:57 +0000
Subject: [PATCH 09/18] fix: a static queue or channel without capacity is
 refused

The dynamically sized constructors assert a capacity of at least one, the
static ones did not: pushing to a StaticThingBuf<T, 0> indexed its empty slot
array unchecked, undefined behaviour from safe code in release builds.
---
 src/lib.rs | 2 ++
 1 file changed, 2 insertions(+)

diff --git a/src/lib.rs b/src/lib.rs
index 536690c..ba41cbd 100644
--- a/src/lib.rs
+++ b/src/lib.rs
@@ -106,6 +106,7 @@ struct Slot<T> {
 impl Core {
     #[cfg(not(all(loom, test)))]
     const fn new(capacity: usize) -> Self {
+        assert!(capacity > 0);
         let closed = (capacity + 1).next_power_of_two();
         let idx_mask = closed - 1;
         let gen = closed << 1;
@@ -124,6 +125,7 @@ impl Core {
 
     #[cfg(all(loom, test))]
     fn new(capacity: usize) -> Self {
+        assert!(capacity > 0);
         let closed = (capacity + 1).next_power_of_two();
         let idx_mask = closed - 1;
         let gen = closed << 1;
-- 
2.43.0


From 918692499ff7a4231bd96ba7bef800daaf23ddaa Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 14:39:17 +0000
Subject: [PATCH 10/18] fix: hand a dequeued waiter to its owner only after the
 last access to it

A waiting sender that is polled (or unparked) spuriously looks at its node's
state without locking the list, and returns, freeing the node, as soon as it
sees WAKING or CLOSED. List::dequeue published that state before it unlinked
the node and took its waker: a data race, and a use after free.
---
 src/wait/queue.rs | 8 +++++---
 1 file changed, 5 insertions(+), 3 deletions(-)

diff --git a/src/wait/queue.rs b/src/wait/queue.rs
index a5b44f7..1e0f3df 100644
--- a/src/wait/queue.rs
+++ b/src/wait/queue.rs
@@ -600,14 +600,16 @@ impl<T> List<T> {
         test_println!("List::dequeue({:?}) -> {:p}", new_state, last);
 
         let last = unsafe { last.as_mut() };
-        let _prev_state = test_dbg!(last.state.swap(new_state, Release));
-        debug_assert_eq!(_prev_state, WAITING);
-
         let (prev, waiter) = last.with_node(self, |node| {
             node.next = None;
             (node.prev.take(), node.waiter.take())
         });
 
+        // This must be the last access to the node: once its owner sees the new
+        // state, it may free the node without locking the list.
+        let _prev_state = test_dbg!(last.state.swap(new_state, Release));
+        debug_assert_eq!(_prev_state, WAITING);
+
         match prev {
             Some(mut prev) => unsafe {
                 let _ = prev.as_mut().take_next();
-- 
2.43.0


From 01385aa733f2194ee228777e41f5a7c4f1bafbb6 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 17:09:42 +0000
Subject: [PATCH 11/18] fix: a panicking waker clone does not trip an assertion
 in the wait cell

If a waker registered earlier is still in the cell when cloning a new one
panics while a notification arrives, that earlier waker is notified.
---
 src/wait/cell.rs | 1 -
 1 file changed, 1 deletion(-)

diff --git a/src/wait/cell.rs b/src/wait/cell.rs
index 19a1134..beb0dba 100644
--- a/src/wait/cell.rs
+++ b/src/wait/cell.rs
@@ -130,7 +130,6 @@ impl<T: Notify> WaitCell<T> {
                 }
 
                 if let Some(waiter) = waiter {
-                    debug_assert!(panicked.is_none());
                     waiter.notify();
                 }
 
-- 
2.43.0


From 8fcaa79461dddddcb94737b9815a8ada0b472792 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 17:09:42 +0000
Subject: [PATCH 12/18] fix: clone the waiter before the wait queue is marked
 as waiting

A panicking clone left the queue in the WAITING state with an empty list: the
next notification was lost, or failed a debug assertion.
---
 src/wait/queue.rs | 6 +++++-
 1 file changed, 5 insertions(+), 1 deletion(-)

diff --git a/src/wait/queue.rs b/src/wait/queue.rs
index 1e0f3df..51a7153 100644
--- a/src/wait/queue.rs
+++ b/src/wait/queue.rs
@@ -211,6 +211,10 @@ impl<T: Notify + Unpin> WaitQueue<T> {
         // still open. Therefore, it's time to actually push the waiter to
         // the queue...finally lol :)
 
+        // Cloning the waiter runs user code, which may panic. Do this before
+        // the state of the queue is changed.
+        let waiter = waiter.clone();
+
         // Grab the lock...
         let mut list = self.list.lock();
         // Reload the queue's state, as it may have changed while we were
@@ -270,7 +274,7 @@ impl<T: Notify + Unpin> WaitQueue<T> {
         // to Waiting, and add it to the queue.
 
         node.with_node(&mut *list, |node| {
-            let _prev = node.waiter.replace(waiter.clone());
+            let _prev = node.waiter.replace(waiter);
             debug_assert!(
                 _prev.is_none(),
                 "start_wait_slow: called with a node that already had a waiter!"
-- 
2.43.0


From 46932d6c98af35e8f70709e9ca2a865c05aad479 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 17:09:42 +0000
Subject: [PATCH 13/18] fix: closing the wait queue notifies every waiter, even
 if a waker panics

---
 src/wait/queue.rs | 5 +++--
 1 file changed, 3 insertions(+), 2 deletions(-)

diff --git a/src/wait/queue.rs b/src/wait/queue.rs
index 51a7153..5d4fb03 100644
--- a/src/wait/queue.rs
+++ b/src/wait/queue.rs
@@ -3,7 +3,7 @@ use crate::{
         atomic::{AtomicUsize, Ordering::*},
         cell::UnsafeCell,
     },
-    util::{mutex::Mutex, CachePadded},
+    util::{mutex::Mutex, panic, CachePadded},
     wait::{Notify, WaitResult},
 };
 
@@ -462,7 +462,8 @@ impl<T: Notify + Unpin> WaitQueue<T> {
         let mut list = self.list.lock();
         while !list.is_empty() {
             if let Some(waiter) = list.dequeue(CLOSED) {
-                waiter.notify();
+                // If a waker panics, the other waiters must still be notified.
+                let _ = panic::catch_unwind(panic::AssertUnwindSafe(move || waiter.notify()));
             }
         }
     }
-- 
2.43.0


From 9ecb8dfc544f372609220b228af5dc81b8e50070 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 17:09:42 +0000
Subject: [PATCH 14/18] fix: wakers are not woken or dropped with the wait
 queue locked

A waker may own the task it wakes: waking or dropping it can drop a future that
is waiting in the same queue, which locks the queue to unlink itself.
---
 src/wait/queue.rs | 26 ++++++++++++++++----------
 1 file changed, 16 insertions(+), 10 deletions(-)

diff --git a/src/wait/queue.rs b/src/wait/queue.rs
index 5d4fb03..baa8995 100644
--- a/src/wait/queue.rs
+++ b/src/wait/queue.rs
@@ -351,17 +351,17 @@ impl<T: Notify + Unpin> WaitQueue<T> {
         // Okay, we were not woken and need to continue waiting. It may be
         // necessary to update the waiter with a new waiter (in practice, this
         // is only necessary in async).
-        node.with_node(&mut *list, |node| {
-            if let Some(ref mut waiter) = node.waiter {
-                if !waiter.same(my_waiter) {
-                    *waiter = my_waiter.clone();
-                }
-            } else {
-                // XXX(eliza): This branch should _probably_ never occur...
-                node.waiter = Some(my_waiter.clone());
-            }
+        let _prev = node.with_node(&mut *list, |node| match node.waiter {
+            Some(ref waiter) if waiter.same(my_waiter) => None,
+            // XXX(eliza): if there's no waiter, this should _probably_ never
+            // occur...
+            _ => node.waiter.replace(my_waiter.clone()),
         });
 
+        // Drop the lock before dropping the previous waiter: dropping a waker
+        // may drop a future that is waiting in this queue.
+        drop(list);
+
         WaitResult::Wait
     }
 
@@ -461,10 +461,16 @@ impl<T: Notify + Unpin> WaitQueue<T> {
         test_dbg!(self.state.swap(CLOSED, SeqCst));
         let mut list = self.list.lock();
         while !list.is_empty() {
-            if let Some(waiter) = list.dequeue(CLOSED) {
+            let waiter = list.dequeue(CLOSED);
+
+            // Drop the lock while notifying the waiter: the waker may use this
+            // queue, e.g. by dropping a future that is waiting in it.
+            drop(list);
+            if let Some(waiter) = waiter {
                 // If a waker panics, the other waiters must still be notified.
                 let _ = panic::catch_unwind(panic::AssertUnwindSafe(move || waiter.notify()));
             }
+            list = self.list.lock();
         }
     }
 }
-- 
2.43.0


From 080946757709776282bc821068b3414535594d55 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 17:09:42 +0000
Subject: [PATCH 15/18] fix: an element that panics in its destructor does not
 abort the process

If dropping an element panicked, dropping the queue core during unwinding
failed its assertion.
---
 src/lib.rs | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/src/lib.rs b/src/lib.rs
index ba41cbd..9335fdb 100644
--- a/src/lib.rs
+++ b/src/lib.rs
@@ -416,14 +416,14 @@ impl Core {
         let tail = self.tail.load(SeqCst);
         let (idx, gen) = self.idx_gen(tail);
         let num_initialized = if gen > 0 { self.capacity() } else { idx };
+        // Don't drop the slots again if dropping an element panics.
+        self.has_dropped_slots = true;
         for slot in &mut slots[..num_initialized] {
             unsafe {
                 slot.value
                     .with_mut(|value| ptr::drop_in_place((*value).as_mut_ptr()));
             }
         }
-
-        self.has_dropped_slots = true;
     }
 }
 
-- 
2.43.0


From 78978ba81ecf4fef630825a2a8e18ffeff433ca5 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 17:09:42 +0000
Subject: [PATCH 16/18] fix: do not drop slots which were never initialized

If Recycle::new_element panics, the slot has been claimed but holds no element.
---
 src/lib.rs | 8 +++++++-
 1 file changed, 7 insertions(+), 1 deletion(-)

diff --git a/src/lib.rs b/src/lib.rs
index 9335fdb..1e54651 100644
--- a/src/lib.rs
+++ b/src/lib.rs
@@ -418,7 +418,13 @@ impl Core {
         let num_initialized = if gen > 0 { self.capacity() } else { idx };
         // Don't drop the slots again if dropping an element panics.
         self.has_dropped_slots = true;
-        for slot in &mut slots[..num_initialized] {
+        for (idx, slot) in slots[..num_initialized].iter_mut().enumerate() {
+            // If the slot was claimed, but has never been released, then it is
+            // not known to be initialized (creating the element may have
+            // panicked).
+            if test_dbg!(slot.state.load(Acquire)) == idx {
+                continue;
+            }
             unsafe {
                 slot.value
                     .with_mut(|value| ptr::drop_in_place((*value).as_mut_ptr()));
-- 
2.43.0


From 329f302787aac341ef13bc1ba3ccb9a5b3507616 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 17:09:42 +0000
Subject: [PATCH 17/18] fix: a woken sender whose capacity was taken waits
 again

Its waiter is no longer in the queue. It was polled in a busy loop instead, in
which a timed send never timed out.
---
 src/mpsc/blocking.rs | 8 ++++++--
 1 file changed, 6 insertions(+), 2 deletions(-)

diff --git a/src/mpsc/blocking.rs b/src/mpsc/blocking.rs
index 03c99c0..2fec0dd 100644
--- a/src/mpsc/blocking.rs
+++ b/src/mpsc/blocking.rs
@@ -1686,7 +1686,9 @@ fn send_ref<'a, T, R: Recycle<T>>(
                 match core.try_send_ref(slots.as_ref(), recycle) {
                     Ok(slot) => return Ok(SendRef(slot)),
                     Err(TrySendError::Closed(_)) => return Err(Closed(())),
-                    _ => {}
+                    // Another sender took the capacity we were notified of. Our
+                    // waiter is no longer in the queue, so wait again.
+                    _ => unqueued = true,
                 }
             }
             WaitResult::Wait => {
@@ -1739,7 +1741,9 @@ fn send_ref_timeout<'a, T, R: Recycle<T>>(
                 match core.try_send_ref(slots.as_ref(), recycle) {
                     Ok(slot) => return Ok(SendRef(slot)),
                     Err(TrySendError::Closed(_)) => return Err(SendTimeoutError::Closed(())),
-                    _ => {}
+                    // Another sender took the capacity we were notified of. Our
+                    // waiter is no longer in the queue, so wait again.
+                    _ => unqueued = true,
                 }
             }
             WaitResult::Wait => {
-- 
2.43.0


From 1f5a6f388827ea41ad8265099f52a2361fe76046 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 19:03:08 +0000
Subject: [PATCH 18/18] fix: element references and slots are shared between
 threads only if the element allows it

A reference to an element gave out &T on any thread although T was only
required to be Send, and a queue could be shared (and its elements moved
to another thread) although T was only required to be Sync.
---
 src/lib.rs | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/src/lib.rs b/src/lib.rs
index 1e54651..4c97d79 100644
--- a/src/lib.rs
+++ b/src/lib.rs
@@ -534,7 +534,7 @@ impl<T: fmt::Write> fmt::Write for Ref<'_, T> {
 }
 
 unsafe impl<T: Send> Send for Ref<'_, T> {}
-unsafe impl<T: Send> Sync for Ref<'_, T> {}
+unsafe impl<T: Send + Sync> Sync for Ref<'_, T> {}
 
 // === impl Slot ===
 
@@ -578,7 +578,7 @@ impl<T> Slot<T> {
     }
 }
 
-unsafe impl<T: Sync> Sync for Slot<T> {}
+unsafe impl<T: Send + Sync> Sync for Slot<T> {}
 
 // === impl Full ===
 
-- 
2.43.0

