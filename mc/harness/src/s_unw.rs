//! Handles and references dropped by a thread that is unwinding from a panic.
use crate::rt::*;
use crate::s_queue::{popped, pushed};
use thingbuf::mpsc::errors::*;
use thingbuf::{StaticThingBuf, ThingBuf};

fn unw<R>(f: impl FnOnce() -> R) -> R { unwinding(true); let r = f(); unwinding(false); r }

// the last sender is dropped by a panicking thread while the receiver waits
chans! { unwtx u64, 1; {}
    setup { mk1(); }
    t0 { let tx = TX.take();
        if flip() { assert(tx.try_send(1).is_ok(), 1); gset(0, 1); }
        gset(5, 1); unw(|| drop(tx)); }
    t1 { let rx = RX.take();
        if let Some(x) = recv(&rx, 1) { assert(x == 1, 2); assert(recv(&rx, 1).is_none(), 3); } else { assert(gget(0) == 0, 4); }
        assert(gget(5) == 1, 5);
        assert(rx.is_closed(), 6);
        drop(rx); }
}
// one of two senders panics: the channel stays open
chans! { unwtx2 u64, 2; {}
    setup { mk2(); }
    t0 { let tx = TX.take(); ginc(5); unw(|| drop(tx)); }
    t1 { let tx = TX2.take(); assert(tx.try_send(2).is_ok(), 1); ginc(5); drop(tx); }
    t2 { let rx = RX.take();
        assert(recv(&rx, 2) == Some(2), 2);
        assert(recv(&rx, 2).is_none(), 3); assert(gget(5) == 2, 4);
        drop(rx); }
}
// the receiver is dropped by a panicking thread while senders wait
chans! { unwrx u64, 1; {}
    setup { mk2(); assert(TX.get().try_send(1).is_ok(), 1); }
    t0 { match send(TX.get(), 0x11, 0) { Ok(()) => assert(false, 2), Err(e) => { assert(gget(6) == 1, 3); assert(e.into_inner() == 0x11, 4) } } }
    t1 { match send(TX2.get(), 0x21, 1) { Ok(()) => assert(false, 5), Err(e) => { assert(gget(6) == 1, 6); assert(e.into_inner() == 0x21, 7) } } }
    t2 { let rx = RX.take(); gset(6, 1); unw(|| drop(rx)); }
    fin { match TX.get().try_send(5) { Err(TrySendError::Closed(5)) => {} _ => assert(false, 8) } }
}
// a reference into the channel is dropped by a panicking thread
chans! { unwref u64, 1; {}
    setup { mk1(); if flip() { assert(TX.get().try_send(9).is_ok(), 1); assert(RX.get().try_recv() == Ok(9), 1) } }
    t0 { let tx = TX.get();
        match tx.try_send_ref() { Ok(mut r) => { *r = 1; unw(|| drop(r)) } Err(_) => assert(false, 2) }
        assert(send(tx, 2, 0).is_ok(), 3);
    }
    t1 { let rx = RX.get();
        match recv_r(rx, 1, |x| { let v = *x; unwinding(true); v }) { Some(v) => { unwinding(false); assert(v == 1, 4) } None => assert(false, 5) }
        assert(recv(rx, 1) == Some(2), 6);
    }
}
// queue operations whose user code panics
macro_rules! unwq { ($d:ident $s:ident, $n:tt) => { both! { $d $s u64, $n;
    setup { mk(); let q = q();
        if flip() { assert(q.push(9).is_ok(), 1); assert(q.pop() == Some(9), 2); }
        match q.push_ref() { Ok(mut r) => { *r = 1; unw(|| drop(r)) } Err(_) => assert(false, 3) }
        assert(q.len() == 1, 4);
        match q.pop_ref() { Some(r) => { assert(*r == 1, 5); unw(|| drop(r)) } None => assert(false, 6) }
        assert(q.len() == 0, 7);
        assert(q.push(3).is_ok(), 8); assert(q.pop() == Some(3), 9);
        unw(end);
    }
} } }
unwq! { unwq1_d unwq1_s, 1 }
unwq! { unwq2_d unwq2_s, 2 }
