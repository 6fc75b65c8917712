//! Timed operations of the blocking channels (model time, in half seconds).
use crate::rt::*;
use crate::s_queue::{popped, pushed};
use core::time::Duration;
use thingbuf::mpsc::errors::*;

const T: u64 = 3;
const D: Duration = Duration::from_millis(500 * T);

// a timed receive against a sender that sends, leaves, or does nothing
chans! { blocking trecv u64, 1; {}
    setup { mk1(); }
    t0 { let tx = TX.take();
        if flip() { assert(tx.try_send(1).is_ok(), 1); gset(0, 1); }
        if flip() { gset(5, 1); drop(tx); } else { TX.put(tx); }
    }
    t1 { let rx = RX.take();
        let s = now();
        match rx.recv_timeout(D) {
            Ok(v) => { assert(v == 1, 2); gset(1, 1); }
            Err(RecvTimeoutError::Timeout) => assert(now() - s >= T, 3),
            Err(RecvTimeoutError::Closed) => { assert(gget(5) == 1, 4); assert(gget(0) == 0, 5) }
            _ => assert(false, 6),
        }
        assert(now() - s <= T, 7);
        RX.put(rx);
    }
    fin { // nothing is lost by a timeout
        let rx = RX.take();
        match rx.try_recv() { Ok(v) => { assert(v == 1, 8); assert(gget(0) == 1 && gget(1) == 0, 9) } Err(_) => assert(gget(0) == gget(1), 10) }
    }
}
// the same by reference, twice in a row
chans! { blocking trecv2 u64, 1; {}
    setup { mk1(); }
    t0 { assert(TX.get().try_send(1).is_ok(), 1); }
    t1 { let rx = RX.get();
        let s = now();
        let a = match rx.recv_ref_timeout(D) { Ok(v) => { assert(*v == 1, 2); 1 }
            Err(RecvTimeoutError::Timeout) => { assert(now() - s >= T, 3); 0 } Err(_) => { assert(false, 4); 0 } };
        let s = now();
        match rx.recv_ref_timeout(D) { Ok(v) => { assert(*v == 1, 5); assert(a == 0, 6) }
            Err(RecvTimeoutError::Timeout) => { assert(now() - s >= T, 7) } Err(_) => assert(false, 8) };
        assert(now() - s <= T, 9);
    }
}
// a timed send into a full channel; the receiver takes one message, or leaves
chans! { blocking tsend u64, 1; {}
    setup { mk1(); assert(TX.get().try_send(1).is_ok(), 1); }
    t0 { let s = now();
        match TX.get().send_timeout(2, D) {
            Ok(()) => { assert(gget(1) == 1, 2); gset(0, 1) }
            Err(SendTimeoutError::Timeout(v)) => { assert(v == 2, 3); assert(now() - s >= T, 4) }
            Err(SendTimeoutError::Closed(v)) => { assert(v == 2, 5); assert(gget(6) == 1, 6) }
            _ => assert(false, 7),
        }
        assert(now() - s <= T, 8);
    }
    t1 { let rx = RX.take();
        if flip() { gset(1, 1); assert(rx.try_recv() == Ok(1), 9); }
        if flip() { gset(6, 1); drop(rx); } else { RX.put(rx); gset(2, 1); }
    }
    fin { if gget(2) == 1 { let rx = RX.take();
        if gget(1) == 0 { assert(rx.try_recv() == Ok(1), 10); }
        if gget(0) == 1 { assert(rx.try_recv() == Ok(2), 11); }
        assert(rx.try_recv() == Err(TryRecvError::Empty), 12);
    } }
}
// a timed and an untimed sender wait; the receiver makes room for both, or for one
chans! { blocking tsend2 u64, 1; {}
    setup { mk2(); assert(TX.get().try_send(1).is_ok(), 1); }
    t0 { match TX.get().send_timeout(0x11, D) {
            Ok(()) => pushed(0x11),
            Err(SendTimeoutError::Timeout(v)) => { assert(v == 0x11, 2); gset(0, 1) }
            _ => assert(false, 3),
        }
    }
    t1 { assert(TX2.get().send(0x21).is_ok(), 4); pushed(0x21); }
    t2 { let rx = RX.get();
        assert(rx.recv() == Some(1), 5);
        match rx.recv() { Some(x) => popped(x), None => assert(false, 6) }
        // the other one goes into the channel
    }
}
// what a timed operation reports, with nobody else acting; any timeout from zero up
fn dur(k: u64) -> Duration { if k == 3 { Duration::MAX } else { Duration::from_millis(500 * k) } }
chans! { blocking terrs u64, 1; {}
    setup { mk1(); gset(3, any(2)); gset(4, any(1)); gset(5, any(1)); }
    t0 {
        let d = gget(3); let by_ref = gget(4) == 1; let (tx, rx) = (TX.take(), RX.take());
        // nothing to receive
        let s = now();
        let e = if by_ref { rx.recv_ref_timeout(dur(d)).map(|_| 0) } else { rx.recv_timeout(dur(d)) };
        match e { Err(e) => { assert(matches!(e, RecvTimeoutError::Timeout), 2) } Ok(_) => assert(false, 3) }
        assert(now() - s == d, 4);
        // room for one message: no wait
        let s = now();
        if by_ref { match tx.send_ref_timeout(dur(3)) { Ok(mut r) => *r = 7, Err(_) => assert(false, 5) } }
        else { assert(tx.send_timeout(7, dur(3)).is_ok(), 6) }
        assert(now() == s, 7);
        // full
        let s = now();
        if by_ref { match tx.send_ref_timeout(dur(d)) { Ok(_) => assert(false, 8), Err(e) => { assert(e.is_timeout() && !e.is_closed(), 9); assert(e == SendTimeoutError::Timeout(()), 10) } } }
        else { match tx.send_timeout(9, dur(d)) { Ok(_) => assert(false, 8), Err(e) => { assert(e.is_timeout() && !e.is_closed(), 9); assert(e.into_inner() == 9, 10) } } }
        assert(now() - s == d, 11);
        let s = now();
        if gget(5) == 1 {
            // the sender leaves: first the message, then closed, without waiting
            drop(tx);
            let a = if by_ref { rx.recv_ref_timeout(dur(d)).map(|r| *r) } else { rx.recv_timeout(dur(d)) };
            assert(a == Ok(7), 12);
            match if by_ref { rx.recv_ref_timeout(dur(3)).map(|r| *r) } else { rx.recv_timeout(dur(3)) } {
                Err(e) => { assert(matches!(e, RecvTimeoutError::Closed), 14) } Ok(_) => assert(false, 15) }
        } else {
            // the receiver leaves
            drop(rx);
            if by_ref { match tx.send_ref_timeout(dur(3)) { Ok(_) => assert(false, 16), Err(e) => { assert(e.is_closed() && !e.is_timeout(), 17); assert(e == SendTimeoutError::Closed(()), 18) } } }
            else { match tx.send_timeout(8, dur(3)) { Ok(_) => assert(false, 16), Err(e) => { assert(e.is_closed() && !e.is_timeout(), 17); assert(e.into_inner() == 8, 18) } } }
        }
        assert(now() == s, 19);
    }
}
// a timed send by reference; the receiver takes one message by reference, or leaves
chans! { blocking tsendr u64, 1; {}
    setup { mk1(); assert(TX.get().try_send(1).is_ok(), 1); }
    t0 { let s = now();
        match TX.get().send_ref_timeout(D) {
            Ok(mut r) => { assert(gget(1) == 1, 2); *r = 2; gset(0, 1) }
            Err(SendTimeoutError::Timeout(())) => { assert(now() - s >= T, 4) }
            Err(SendTimeoutError::Closed(())) => { assert(gget(6) == 1, 6) }
            _ => assert(false, 7),
        }
        assert(now() - s <= T, 8);
    }
    t1 { let rx = RX.take();
        if flip() { gset(1, 1); match rx.try_recv_ref() { Ok(r) => assert(*r == 1, 9), Err(_) => assert(false, 13) } }
        if flip() { gset(6, 1); drop(rx); } else { RX.put(rx); gset(2, 1); }
    }
    fin { if gget(2) == 1 { let rx = RX.take();
        if gget(1) == 0 { assert(rx.try_recv() == Ok(1), 10); }
        if gget(0) == 1 { assert(rx.try_recv() == Ok(2), 11); }
        assert(rx.try_recv() == Err(TryRecvError::Empty), 12);
    } }
}
// a timed receive that is woken for nothing (spurious unparks are enabled), and a message in between
chans! { blocking trecv3 u64, 1; {}
    setup { mk1(); }
    t0 { if flip() { assert(TX.get().try_send(1).is_ok(), 1); gset(0, 1); } }
    t1 { let rx = RX.get();
        let s = now();
        match rx.recv_timeout(D) {
            Ok(v) => { assert(v == 1, 2); gset(1, 1); }
            Err(RecvTimeoutError::Timeout) => assert(now() - s >= T, 3),
            Err(_) => assert(false, 4),
        }
        assert(now() - s <= T, 7);
    }
    fin { match RX.get().try_recv() { Ok(v) => { assert(v == 1, 8); assert(gget(0) == 1 && gget(1) == 0, 9) } Err(_) => assert(gget(0) == gget(1), 10) } }
}
// a timed send that is woken, but somebody else takes the room first: it still gives up in time
chans! { blocking tsteal u64, 1; {}
    setup { mk2(); assert(TX.get().try_send(1).is_ok(), 1); }
    t0 { let s = now();
        match TX.get().send_timeout(2, D) {
            Ok(()) => gset(0, 1),
            Err(SendTimeoutError::Timeout(v)) => { assert(v == 2, 2); assert(now() - s >= T, 3) }
            _ => assert(false, 4),
        }
        assert(now() - s <= T, 5);
    }
    t1 {
        assert(RX.get().try_recv() == Ok(1), 6);
        match TX2.get().try_send(3) { Ok(()) => gset(1, 1), Err(e) => assert(e.is_full() && e.into_inner() == 3, 7) }
    }
    fin { assert(gget(0) + gget(1) == 1, 8); }
}
// wake-ups reach timed waits: with threads that run at once when woken, a wait runs out only if nothing happened before
// its deadline
chans! { blocking tpr u64, 1; {}
    setup { mk1(); }
    t0 { let tx = TX.take();
        if flip() { assert(tx.try_send(1).is_ok(), 1); gset(7, now()); gset(0, 1); TX.put(tx); }
        else { drop(tx); gset(7, now()); gset(5, 1); }
    }
    t1 { let rx = RX.get();
        let s = now();
        let r = if flip() { rx.recv_timeout(D) } else { rx.recv_ref_timeout(D).map(|r| *r) };
        match r {
            Ok(v) => assert(v == 1, 2),
            Err(RecvTimeoutError::Timeout) => { assert(now() - s >= T, 3); assert(gget(0) + gget(5) == 0 || gget(7) >= s + T, 4) }
            Err(_) => {}
        }
    }
}
chans! { blocking tps u64, 1; {}
    setup { mk1(); assert(TX.get().try_send(1).is_ok(), 1); }
    t0 { let s = now(); let tx = TX.get();
        let r = if flip() { tx.send_timeout(2, D).map_err(|e| e.is_timeout()) } else { tx.send_ref_timeout(D).map(|_| ()).map_err(|e| e.is_timeout()) };
        match r {
            Ok(()) => assert(gget(6) < 2, 2),
            Err(true) => { assert(now() - s >= T, 3); assert(gget(6) == 0 || gget(7) >= s + T, 4) }
            Err(false) => {}
        }
    }
    t1 { let rx = RX.take();
        if flip() { assert(rx.try_recv() == Ok(1), 5); gset(7, now()); gset(6, 1); RX.put(rx); }
        else { drop(rx); gset(7, now()); gset(6, 1); }
    }
}
// two senders with different deadlines wait, one message is taken: one of the senders gets the room
chans! { blocking tpp u64, 1; {}
    setup { mk2(); assert(TX.get().try_send(1).is_ok(), 1); }
    t0 { match TX.get().send_timeout(2, Duration::from_millis(500)) { Ok(()) => gset(0, 1), Err(e) => assert(e.is_timeout(), 2) } gset(8, now()); }
    t1 { match TX2.get().send_timeout(3, D) { Ok(()) => gset(1, 1), Err(e) => assert(e.is_timeout(), 3) } }
    t2 { assert(RX.get().try_recv() == Ok(1), 4); gset(7, now()); }
    fin {
        assert(gget(0) + gget(1) <= 1, 5);
        // the room was there, and the first sender had left (and passed the wake-up on), before the other's deadline
        if gget(7) < T && gget(8) < T { assert(gget(0) + gget(1) == 1, 6) }
    }
}
// the longest timeout there is: it waits, and does not run out
chans! { blocking tmaxr u64, 1; {}
    setup { mk1(); }
    t0 { assert(TX.get().try_send(1).is_ok(), 1); }
    t1 { let rx = RX.get();
        let r = if flip() { rx.recv_timeout(Duration::MAX) } else { rx.recv_ref_timeout(Duration::MAX).map(|r| *r) };
        assert(matches!(r, Ok(1)), 2);
    }
}
chans! { blocking tmaxs u64, 1; {}
    setup { mk1(); assert(TX.get().try_send(1).is_ok(), 1); }
    t0 { let tx = TX.get();
        if flip() { assert(tx.send_timeout(2, Duration::MAX).is_ok(), 2) }
        else { match tx.send_ref_timeout(Duration::MAX) { Ok(mut r) => *r = 2, Err(_) => assert(false, 3) } }
    }
    t1 { assert(RX.get().try_recv() == Ok(1), 4); }
    fin { assert(RX.get().try_recv() == Ok(2), 5); }
}
