//! Wakers that use the channel themselves, from inside `wake` and `drop`.
use crate::rt::*;
use core::future::Future;
use core::task::Poll;
use thingbuf::mpsc::errors::*;

macro_rules! futs { () => {
    pub static FA: Fut = Fut::new(); pub static FB: Fut = Fut::new(); pub static FR: Fut = Fut::new();
    pub fn fa() -> impl Future<Output = Result<(), Closed<u64>>> { TX.get().send(0x11) }
    pub fn fb() -> impl Future<Output = Result<(), Closed<u64>>> { TX2.get().send(0x21) }
    pub fn fr() -> impl Future<Output = Option<u64>> { RX.get().recv() }
} }

// Two senders wait, A's waker does something with the channel (once) when it is woken; then the receiver
// is dropped ($close) or takes the message.
// ghost: 4 has the waker run, 7 what became of B (1 sent, 2 closed, 3 cancelled), 8 what became of A, 9 value sent by the waker
macro_rules! rewake { ($s:ident, $close:expr, $act:block) => { chans! { async $s u64, 1; { futs!{}
        hooked! { _id wake { if gget(4) == 0 { gset(4, 1); $act } } last { } }
    }
    setup { mk2(); assert(TX.get().try_send(1).is_ok(), 101);
        FA.put(fa); FB.put(fb);
        let w = hwaker(0);
        let b = flip();
        if b { assert(FB.poll(fb, 1).is_pending(), 103); gset(5, 1) }
        assert(FA.poll_with(fa, &w).is_pending(), 102);
        if !b { assert(FB.poll(fb, 1).is_pending(), 103) }
        core::mem::forget(w); wcount(0, false);
    }
    t0 { if $close { drop(RX.take()) } else { assert(RX.get().try_recv() == Ok(1), 1) } }
    fin {
        // closed: both have been released; otherwise somebody was woken
        if $close { assert(gget(4) == 1, 2); assert(woken(1) || gget(7) != 0, 3) }
        else { assert(woken(0) || woken(1), 4); if gget(5) == 0 { assert(gget(4) == 1, 5) } }
        if gget(7) == 0 { FB.drop_(fb) }
        if gget(8) == 0 { FA.drop_(fa) }
        assert(wrefs(0) == 0, 6); assert(wrefs(1) == 0, 7);
        if !$close {
            let rx = RX.get();
            if gget(9) == 1 { assert(rx.try_recv() == Ok(0x31), 8) }
            if gget(7) == 1 { assert(rx.try_recv() == Ok(0x21), 9) }
            assert(rx.try_recv() == Err(TryRecvError::Empty), 10);
            assert(TX.get().try_send(2).is_ok(), 11); assert(rx.try_recv() == Ok(2), 12);
        }
    }
} } }
macro_rules! rewakes { ($($c:ident $r:ident $act:block)*) => { $( rewake! { $c, true, $act } rewake! { $r, false, $act } )* } }
rewakes! {
    rewk_c0 rewk_r0 { FB.drop_(fb); gset(7, 3) }
    rewk_c1 rewk_r1 { FA.drop_(fa); gset(8, 3) }
    rewk_c3 rewk_r3 { match TX2.get().try_send(0x31) { Ok(()) => gset(9, 1), Err(e) => assert(e.into_inner() == 0x31, 30) } }
}
// polling the other one from inside the waker
rewake! { rewk_c2, true, { match FB.poll(fb, 1) { Poll::Ready(Ok(())) => assert(false, 31),
    Poll::Ready(Err(e)) => { assert(e.into_inner() == 0x21, 32); gset(7, 2); FB.drop_(fb) } Poll::Pending => {} } } }

// A waits and is polled again with another waker: the old waker is dropped, and that cancels B (or B's sender sends)
chans! { async redrop u64, 1; { futs!{}
        hooked! { _id wake { } last { if gget(4) == 0 { gset(4, 1); if gget(3) == 1 { FB.drop_(fb) } else { assert(TX2.get().try_send(0x31).is_err(), 30) } } } }
    }
    setup { mk2(); assert(TX.get().try_send(1).is_ok(), 101); gset(3, any(1));
        FA.put(fa); FB.put(fb);
        { let w = hwaker(0); assert(FA.poll_with(fa, &w).is_pending(), 102); }
        assert(FB.poll(fb, 1).is_pending(), 103);
    }
    t0 { assert(FA.poll(fa, 3).is_pending(), 1); assert(gget(4) == 1, 2); assert(wrefs(0) == 0, 3);
        assert(RX.get().try_recv() == Ok(1), 4); assert(woken(3), 5); }
    fin { FA.drop_(fa); if gget(3) == 0 { FB.drop_(fb) } assert(wrefs(1) == 0, 6); assert(wrefs(3) == 0, 7) }
}
// the receiver waits; waking it (by a message or by the last sender leaving) receives, cancels, sends, or polls again
macro_rules! rerecv { ($($s:ident $act:block)*) => { $( chans! { async $s u64, 2; { futs!{}
        hooked! { _id wake { if gget(4) == 0 { gset(4, 1); $act } } last { } }
    }
    setup { mk1(); FR.put(fr); let w = hwaker(2); assert(FR.poll_with(fr, &w).is_pending(), 102); core::mem::forget(w); wcount(2, false);
        gset(6, any(1)); }
    t0 { let tx = TX.take(); if gget(6) == 1 { gset(8, 1); assert(tx.try_send(0x11).is_ok(), 1) } TX2.put(tx.clone()); drop(tx); drop(TX2.take()); assert(gget(4) == 1, 2); }
    fin { let rx = RX.get();
        if gget(7) < 2 { FR.drop_(fr) }
        if gget(8) == 1 && gget(7) != 1 { assert(rx.try_recv() == Ok(0x11), 3) }
        if gget(9) == 1 { assert(rx.try_recv() == Ok(0x31), 4) }
        assert(rx.try_recv() == Err(TryRecvError::Closed), 5);
        assert(wrefs(2) == 0, 6); assert(wrefs(3) == 0, 7);
    }
} )* } }
rerecv! {
    rercv0 { match RX.get().try_recv() { Ok(v) => { assert(v == 0x11, 30); gset(7, 1) } Err(_) => assert(gget(8) == 0, 31) } }
    rercv1 { FR.drop_(fr); gset(7, 2) }
    rercv2 { match FR.poll(fr, 3) { Poll::Ready(Some(v)) => { assert(v == 0x11, 32); gset(7, 1) } Poll::Ready(None) => assert(gget(8) == 0, 33), Poll::Pending => assert(false, 34) } }
}
