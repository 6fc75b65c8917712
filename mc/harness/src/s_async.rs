//! Async channels: waiting, waking, cancelling; starting from states in which
//! tasks already wait.
use crate::rt::*;
use crate::s_queue::{popped, pushed};
use core::future::Future;
use core::task::Poll;
use thingbuf::mpsc::errors::*;

macro_rules! futs { () => {
    pub static FA: Fut = Fut::new(); pub static FB: Fut = Fut::new(); pub static FR: Fut = Fut::new();
    pub fn fa() -> impl Future<Output = Result<(), Closed<u64>>> { TX.get().send(0x11) }
    pub fn fb() -> impl Future<Output = Result<(), Closed<u64>>> { TX2.get().send(0x21) }
    pub fn fr() -> impl Future<Output = Option<u64>> { RX.get().recv() }
    /// full channel, A then B waiting for capacity
    pub fn waiting2() {
        mk2();
        assert(TX.get().try_send(0x01).is_ok(), 101); pushed(0x01);
        FA.put(fa); FB.put(fb);
        assert(FA.poll(fa, 0).is_pending(), 102);
        assert(FB.poll(fb, 1).is_pending(), 103);
    }
} }

// ---- cancelling one waiting sender never strands the other (cap 1)
chans! { async cancel_a u64, 1; { futs!{} }
    setup { waiting2(); }
    t0 { FA.drop_(fa); }
    t1 { assert(FB.finish(fb, 1).is_ok(), 1); pushed(0x21) }
    t2 { let rx = RX.get(); assert(recv(rx, 2) == Some(0x01), 2); assert(recv(rx, 2) == Some(0x21), 3); }
    fin { assert(RX.get().try_recv().is_err(), 4); FB.drop_(fb); assert(wrefs(0) == 0, 5); assert(wrefs(1) == 0, 6) }
}
chans! { async cancel_b u64, 1; { futs!{} }
    setup { waiting2(); }
    t0 { FB.drop_(fb); }
    t1 { assert(FA.finish(fa, 0).is_ok(), 1); }
    t2 { let rx = RX.get(); assert(recv(rx, 2) == Some(0x01), 2); assert(recv(rx, 2) == Some(0x11), 3); }
    fin { assert(RX.get().try_recv().is_err(), 4); FA.drop_(fa); assert(wrefs(0) == 0, 5); assert(wrefs(1) == 0, 6) }
}
// a cancelled sender, a late sender and the receiver
chans! { async cancel_c u64, 1; { futs!{} }
    setup { mk2(); assert(TX.get().try_send(0x01).is_ok(), 101); FA.put(fa); assert(FA.poll(fa, 0).is_pending(), 102); }
    t0 { FA.drop_(fa); }
    t1 { assert(send(TX2.get(), 0x21, 1).is_ok(), 1); }
    t2 { let rx = RX.get(); assert(recv(rx, 2) == Some(0x01), 2); assert(recv(rx, 2) == Some(0x21), 3); }
    fin { assert(RX.get().try_recv().is_err(), 4); }
}
// both cancelled while the receiver receives: the channel stays usable
chans! { async cancel_d u64, 1; { futs!{} }
    setup { waiting2(); }
    t0 { FA.drop_(fa); }
    t1 { FB.drop_(fb); }
    t2 { let rx = RX.get(); assert(recv(rx, 2) == Some(0x01), 2); }
    fin { let rx = RX.get(); assert(rx.try_recv().is_err(), 4);
        assert(TX.get().try_send(9).is_ok(), 7); assert(rx.try_recv() == Ok(9), 8);
        assert(wrefs(0) == 0, 5); assert(wrefs(1) == 0, 6) }
}
// cancelled while the receiver is being dropped
chans! { async cancel_e u64, 1; { futs!{} }
    setup { waiting2(); }
    t0 { FA.drop_(fa); }
    t1 { match FB.finish(fb, 1) { Ok(()) => assert(false, 1), Err(e) => assert(e.into_inner() == 0x21, 2) } }
    t2 { drop(RX.take()); }
    fin { FB.drop_(fb); assert(wrefs(0) == 0, 5); assert(wrefs(1) == 0, 6) }
}
// the only waiter is cancelled while the receiver is being dropped and another sender arrives
chans! { async cancel_f u64, 1; { futs!{} }
    setup { mk2(); assert(TX.get().try_send(0x01).is_ok(), 101); FA.put(fa); assert(FA.poll(fa, 0).is_pending(), 102); }
    t0 { FA.drop_(fa); }
    t1 { match send(TX2.get(), 0x21, 1) { Ok(()) => assert(false, 1), Err(e) => assert(e.into_inner() == 0x21, 2) } }
    t2 { drop(RX.take()); }
    fin { assert(wrefs(0) == 0, 5); assert(wrefs(1) == 0, 6) }
}
// polled by the task while being notified and re-polled with another waker
chans! { async migrate u64, 1; { futs!{} }
    setup { mk1(); assert(TX.get().try_send(0x01).is_ok(), 101); FA.put(fa); assert(FA.poll(fa, 0).is_pending(), 102); }
    t0 { // moves to task 3
        if FA.poll(fa, 3).is_pending() { assert(FA.finish(fa, 3).is_ok(), 1) }
    }
    t1 { let rx = RX.get(); assert(recv(rx, 2) == Some(0x01), 2); assert(recv(rx, 2) == Some(0x11), 3); }
    fin { FA.drop_(fa); assert(wrefs(0) == 0, 5); assert(wrefs(3) == 0, 6) }
}
// the receiver waits (already registered) and moves to another task
chans! { async rmigrate u64, 2; { futs!{} }
    setup { mk2(); FR.put(fr); assert(FR.poll(fr, 2).is_pending(), 102); }
    t0 { assert(TX.get().try_send(0x11).is_ok(), 1); }
    t1 { let r = match FR.poll(fr, 3) { Poll::Ready(x) => x, Poll::Pending => FR.finish(fr, 3) };
         assert(r == Some(0x11), 2); }
    fin { FR.drop_(fr); }
}
// the receiver waits: a message or a close wakes it
chans! { async rwait u64, 2; { futs!{} }
    setup { mk2(); FR.put(fr); assert(FR.poll(fr, 2).is_pending(), 102); }
    t0 { let tx = TX.take(); ginc(5); drop(tx); }
    t1 { let tx = TX2.take(); if flip() { assert(tx.try_send(0x21).is_ok(), 1); gset(8, 1) } ginc(5); drop(tx); }
    t2 { let r = FR.finish(fr, 2);
         if gget(8) == 1 { assert(r == Some(0x21), 2) } else { assert(r.is_none(), 3); assert(gget(5) == 2, 4) } }
    fin { FR.drop_(fr); }
}
// a receive future is dropped while pending; the next one is woken
chans! { async rcancel u64, 2; { futs!{} }
    setup { mk1(); FR.put(fr); assert(FR.poll(fr, 2).is_pending(), 102); }
    t0 { assert(TX.get().try_send(0x11).is_ok(), 1); }
    t1 { FR.drop_(fr); assert(recv(RX.get(), 3) == Some(0x11), 2); }
    fin {}
}
// the receiver is dropped while two senders wait
chans! { async shutw u64, 1; { futs!{} }
    setup { waiting2(); }
    t0 { match FA.finish(fa, 0) { Ok(()) => assert(false, 1), Err(e) => { assert(gget(6) == 1, 2); assert(e.into_inner() == 0x11, 3) } } }
    t1 { match FB.finish(fb, 1) { Ok(()) => assert(false, 4), Err(e) => { assert(gget(6) == 1, 5); assert(e.into_inner() == 0x21, 6) } } }
    t2 { let rx = RX.take(); gset(6, 1); drop(rx); }
}
// two senders wait, the receiver takes everything
chans! { async fullw u64, 1; { futs!{} }
    setup { waiting2(); }
    t0 { assert(FA.finish(fa, 0).is_ok(), 1); pushed(0x11) }
    t1 { assert(FB.finish(fb, 1).is_ok(), 2); pushed(0x21) }
    t2 { let rx = RX.get();
        assert(recv(rx, 2) == Some(0x01), 3);
        match recv(rx, 2) { Some(x) => popped(x), None => assert(false, 4) }
        match recv(rx, 2) { Some(x) => popped(x), None => assert(false, 5) }
    }
    fin { settle!(0x11 0x21); }
}

// ---- any sequential history of a channel with two sending tasks against a model
// ops: receive, poll A, poll B, cancel A, cancel B, try_send
macro_rules! shist { ($s:ident, $n:tt, $w:expr, $($k:tt)*) => { chans! { async $s u64, $n; { futs!{} }
    setup {
        mk2(); FA.put(fa); FB.put(fb);
        let mut len = 0u64;
        // 0 not polled, 1 pending, 2 finished
        let (mut a, mut b) = (0, 0);
        if $w {
            // full, A and then B already waiting
            assert(TX.get().try_send(7).is_ok(), 101); len += 1;
            if CAP == 2 { assert(TX.get().try_send(7).is_ok(), 101); len += 1 }
            assert(FA.poll(fa, 0).is_pending(), 102); assert(FB.poll(fb, 1).is_pending(), 103);
            a = 1; b = 1;
        }
        $( let _ = $k;
        match any(5) {
            0 => match RX.get().try_recv() {
                Ok(_) => { assert(len > 0, 1); len -= 1 }
                Err(TryRecvError::Empty) => assert(len == 0, 2),
                Err(_) => assert(false, 3),
            },
            1 if a < 2 => { let w = woken(0); if w { wait(0) }
                match FA.poll(fa, 0) {
                    Poll::Ready(r) => { assert(r.is_ok(), 4); assert(len < CAP, 5); len += 1; a = 2; FA.drop_(fa); }
                    // pending with room only while that room is promised to the other task
                    Poll::Pending => { assert(len == CAP || (a == 1 && !w && b == 1 && woken(1)), 6); a = 1 }
                } },
            2 if b < 2 => { let w = woken(1); if w { wait(1) }
                match FB.poll(fb, 1) {
                    Poll::Ready(r) => { assert(r.is_ok(), 7); assert(len < CAP, 8); len += 1; b = 2; FB.drop_(fb); }
                    Poll::Pending => { assert(len == CAP || (b == 1 && !w && a == 1 && woken(0)), 9); b = 1 }
                } },
            3 if a < 2 => { FA.drop_(fa); a = 2 },
            4 if b < 2 => { FB.drop_(fb); b = 2 },
            5 => match TX.get().try_send(7) {
                Ok(()) => { assert(len < CAP, 10); len += 1 }
                Err(TrySendError::Full(7)) => assert(len == CAP, 11),
                Err(_) => assert(false, 12),
            },
            _ => {}
        }
        // capacity is free and somebody waits: somebody who waits has been woken
        if len < CAP && (a == 1 || b == 1) { assert((a == 1 && woken(0)) || (b == 1 && woken(1)), 13) }
        )*
        if a < 2 { FA.drop_(fa) }
        if b < 2 { FB.drop_(fb) }
        assert(wrefs(0) == 0, 14); assert(wrefs(1) == 0, 15);
    }
} } }
shist! { shist0, 1, false, 1 2 3 }
shist! { shist1, 1, true, 1 2 3 }
shist! { shist1x, 1, true, 1 2 3 4 }
shist! { shist2, 2, true, 1 2 3 }
shist! { shist2x, 2, true, 1 2 3 4 }

// first come, first woken; one per freed slot
chans! { async order u64, 1; { futs!{} pub static FC: Fut = Fut::new(); pub fn fc() -> impl Future<Output = Result<(), Closed<u64>>> { TX.get().send(0x22) } }
    setup {
        waiting2(); FC.put(fc); assert(FC.poll(fc, 3).is_pending(), 104);
        // spurious polls do not change the order
        if flip() { assert(FA.poll(fa, 0).is_pending(), 1) }
        if flip() { assert(FB.poll(fb, 1).is_pending(), 1) }
        let drop_b = flip();
        if drop_b { FB.drop_(fb) }
        assert(!woken(0) && !woken(1) && !woken(3), 2);
        let rx = RX.get();
        assert(rx.try_recv() == Ok(0x01), 3);
        assert(woken(0) && !woken(1) && !woken(3), 4);
        match FA.poll(fa, 0) { Poll::Ready(r) => assert(r.is_ok(), 5), _ => assert(false, 6) }
        assert(!woken(1) && !woken(3), 7);
        assert(rx.try_recv() == Ok(0x11), 8);
        if !drop_b {
            assert(woken(1) && !woken(3), 9);
            match FB.poll(fb, 1) { Poll::Ready(r) => assert(r.is_ok(), 10), _ => assert(false, 11) }
            assert(rx.try_recv() == Ok(0x21), 12);
        }
        assert(woken(3), 13);
        match FC.poll(fc, 3) { Poll::Ready(r) => assert(r.is_ok(), 14), _ => assert(false, 15) }
        assert(rx.try_recv() == Ok(0x22), 16);
        assert(rx.try_recv().is_err(), 17);
    }
}

// ---- the poll functions of the receiver
macro_rules! prx { () => {
    /// one poll as task `id`, by value or by reference
    pub fn p1(rx: &Rx, by_ref: bool, id: u64) -> Poll<Option<u64>> {
        let w = waker(id); let mut cx = core::task::Context::from_waker(&w);
        if by_ref { match rx.poll_recv_ref(&mut cx) { Poll::Ready(Some(r)) => Poll::Ready(Some(*r)), Poll::Ready(None) => Poll::Ready(None), Poll::Pending => Poll::Pending } }
        else { rx.poll_recv(&mut cx) }
    }
    pub fn pall(rx: &Rx, by_ref: bool, id: u64) -> Option<u64> {
        loop { if let Poll::Ready(x) = p1(rx, by_ref, id) { return x } wait(id); }
    }
} }
chans! { async pwait u64, 2; { prx!{} }
    setup { mk2(); }
    t0 { let tx = TX.take(); ginc(5); drop(tx); }
    t1 { let tx = TX2.take(); assert(tx.try_send(0x21).is_ok(), 1); ginc(5); drop(tx); }
    t2 { let rx = RX.take(); let r = flip();
         assert(pall(&rx, r, 2) == Some(0x21), 2);
         assert(pall(&rx, !r, 2).is_none(), 3); assert(gget(5) == 2, 4); drop(rx); }
}
// the task that polls changes; the last one is the one that is woken
chans! { async pmigrate u64, 1; { prx!{} }
    setup { mk1(); if flip() { assert(p1(RX.get(), flip(), 2).is_pending(), 102) } }
    t0 { let tx = TX.take(); if flip() { gset(8, 1); assert(tx.try_send(0x11).is_ok(), 1) } gset(5, 1); drop(tx); }
    t1 { let rx = RX.take(); let r = flip();
         let x = match p1(&rx, r, 3) { Poll::Ready(x) => x, Poll::Pending => { wait(3); pall(&rx, r, 3) } };
         if gget(8) == 1 { assert(x == Some(0x11), 2); assert(pall(&rx, r, 4).is_none(), 3) } else { assert(x.is_none(), 4) }
         assert(gget(5) == 1, 5);
         drop(rx); }
}
