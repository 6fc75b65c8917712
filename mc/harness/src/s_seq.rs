//! Sequential behaviour of the channels: errors, closing, splitting.
use crate::rt::*;
use thingbuf::mpsc::errors::*;

// every failed send returns the value; the error names its cause
macro_rules! errs { ($s:ident, $n:tt) => { chans! { $s u64, $n; {}
    setup {
        let (v, w) = (any(255), any(255));
        mk1(); let tx = TX.take(); let rx = RX.take();
        assert(rx.try_recv() == Err(TryRecvError::Empty), 1);
        assert(tx.try_send(v).is_ok(), 2);
        if CAP == 2 { assert(tx.try_send(v).is_ok(), 2) }
        match tx.try_send(w) {
            Ok(()) => assert(false, 3),
            Err(e) => {
                assert(e.is_full(), 4); assert(!e.is_closed(), 5);
                match &e { TrySendError::Full(x) => assert(*x == w, 6), _ => assert(false, 7) }
                assert(e.into_inner() == w, 8);
            }
        }
        match tx.try_send_ref() { Err(e) => { assert(e.is_full(), 9); assert(!e.is_closed(), 10) } Ok(_) => assert(false, 11) }
        if flip() {
            // the receiver leaves, possibly with room in the channel
            if flip() { assert(rx.try_recv() == Ok(v), 12) }
            drop(rx);
            match tx.try_send(w) {
                Ok(()) => assert(false, 13),
                Err(e) => {
                    assert(e.is_closed(), 14); assert(!e.is_full(), 15);
                    match &e { TrySendError::Closed(x) => assert(*x == w, 16), _ => assert(false, 17) }
                    assert(e.into_inner() == w, 18);
                }
            }
            match tx.try_send_ref() { Err(e) => { assert(e.is_closed(), 19); assert(!e.is_full(), 20) } Ok(_) => assert(false, 21) }
            match send(&tx, w, 0) { Ok(()) => assert(false, 22), Err(e) => assert(e.into_inner() == w, 23) }
            assert(send_r(&tx, 0, |x| *x = w).is_none(), 24);
            let t2 = tx.clone(); drop(tx);
            match t2.try_send(w) { Err(TrySendError::Closed(x)) => assert(x == w, 25), _ => assert(false, 26) }
            drop(t2);
        } else {
            // the senders leave
            let t2 = tx.clone(); drop(tx);
            if CAP == 2 { assert(rx.try_recv() == Ok(v), 27) }
            drop(t2);
            assert(rx.try_recv() == Ok(v), 28);
            assert(rx.try_recv() == Err(TryRecvError::Closed), 29);
            match rx.try_recv_ref() { Err(TryRecvError::Closed) => {}, _ => assert(false, 30) }
            assert(recv(&rx, 0).is_none(), 31);
            assert(recv_r(&rx, 0, |x| *x).is_none(), 32);
            assert(rx.try_recv() == Err(TryRecvError::Closed), 33);
            drop(rx);
        }
    }
} } }
errs! { errs1, 1 }
errs! { errs2, 2 }

// classification methods, for every value
scen! { errcls {}
    setup {
        let v = any(255);
        let e: TrySendError<u64> = if flip() { TrySendError::Full(v) } else { TrySendError::Closed(v) };
        assert(e.is_full() == matches!(e, TrySendError::Full(_)), 1);
        assert(e.is_closed() == matches!(e, TrySendError::Closed(_)), 2);
        assert(e.into_inner() == v, 3);
        #[cfg(feature = "std")] {
            let e: SendTimeoutError<u64> = if flip() { SendTimeoutError::Timeout(v) } else { SendTimeoutError::Closed(v) };
            assert(e.is_timeout() == matches!(e, SendTimeoutError::Timeout(_)), 4);
            assert(e.is_closed() == matches!(e, SendTimeoutError::Closed(_)), 5);
            assert(e.into_inner() == v, 6);
        }
    }
}
// a rejected push hands its value back
scen! { errq {}
    setup {
        let (v, w) = (any(255), any(255));
        let q: thingbuf::ThingBuf<u64> = thingbuf::ThingBuf::new(1);
        assert(q.push(v).is_ok(), 1);
        match q.push(w) { Ok(()) => assert(false, 2), Err(e) => assert(e.into_inner() == w, 3) }
        let mut called = false;
        assert(q.push_with(|_| called = true).is_err(), 4); assert(!called, 5);
        assert(q.pop() == Some(v), 6);
        assert(q.pop_with(|_| called = true).is_none(), 7); assert(!called, 8);
    }
}

// is_closed tells whether a sender is left, with any number of clones
chans! { closed_s u64, 1; {}
    setup {
        mk1(); let rx = RX.take(); let tx = TX.take();
        assert(!rx.is_closed(), 1);
        if flip() { assert(tx.try_send(5).is_ok(), 2) }
        assert(!rx.is_closed(), 3);
        let a = tx.clone();
        assert(!rx.is_closed(), 4);
        let b = a.clone();
        assert(!rx.is_closed(), 5);
        if flip() { drop(tx); assert(!rx.is_closed(), 6); drop(b); assert(!rx.is_closed(), 7); drop(a) }
        else { drop(b); assert(!rx.is_closed(), 8); drop(a); assert(!rx.is_closed(), 9); drop(tx) }
        assert(rx.is_closed(), 10);
        let _ = rx.try_recv();
        assert(rx.is_closed(), 11);
        drop(rx);
    }
}
// concurrently with leaving senders
chans! { closed_c u64, 1; {}
    setup { mk2(); }
    t0 { let tx = TX.take(); ginc(5); drop(tx); ginc(8) }
    t1 { let tx = TX2.take(); let c = tx.clone(); drop(tx); ginc(5); drop(c); ginc(8) }
    t2 { let rx = RX.get();
        let left = gget(8);                 // senders certainly gone before the call
        if rx.is_closed() { assert(gget(5) == 2, 1) } else { assert(left < 2, 2) }
    }
    fin { assert(RX.get().is_closed(), 3); }
}

// ---- static channels are split at most once
macro_rules! splits { ($s:ident, $($p:ident)::*) => {
    scen! { $s { static CH: $($p)::*::StaticChannel<u64, 2> = $($p)::*::StaticChannel::new();
                 static H: G<($($p)::*::StaticSender<u64>, $($p)::*::StaticReceiver<u64>)> = G::new(); }
        t0 { if let Some(h) = CH.try_split() { ginc(0); assert(gget(0) == 1, 1); H.put(h) } }
        t1 { if let Some(h) = CH.try_split() { ginc(0); assert(gget(0) == 1, 2); H.put(h) } }
        t2 { if let Some(h) = CH.try_split() { ginc(0); assert(gget(0) == 1, 3); H.put(h) } }
        fin {
            assert(gget(0) == 1, 4);
            assert(CH.try_split().is_none(), 5);
            let (tx, rx) = H.take();
            assert(tx.try_send(1).is_ok(), 6); assert(tx.try_send(2).is_ok(), 7); assert(tx.try_send(3).is_err(), 8);
            let t2 = tx.clone(); drop(tx);
            assert(rx.try_recv() == Ok(1), 9);
            assert(t2.try_send(3).is_ok(), 10);
            drop(t2);
            assert(rx.try_recv() == Ok(2), 11); assert(rx.try_recv() == Ok(3), 12);
            assert(rx.try_recv() == Err(TryRecvError::Closed), 13);
            drop(rx);
            // closed for good: the handles are gone, it cannot be split again
            assert(CH.try_split().is_none(), 14);
        }
    }
} }
splits! { split_as, thingbuf::mpsc }
#[cfg(feature = "std")]
splits! { split_bs, thingbuf::mpsc::blocking }

// a channel driven sequentially by any history of operations (all flavours)
macro_rules! chist { ($s:ident, $n:tt, $($k:tt)*) => { chans! { $s u64, $n; {}
    setup {
        mk1(); let tx = TX.get(); let rx = RX.get();
        let (mut n, mut e) = (1u64, 1u64);
        let mut open = true;
        $( let _ = $k;
        let len = n - e;
        match any(4) {
            0 if open => match tx.try_send(n) {
                Ok(()) => { assert(len < CAP, 1); n += 1 }
                Err(TrySendError::Full(x)) => { assert(len == CAP, 2); assert(x == n, 3) }
                Err(_) => assert(false, 4),
            },
            1 if open => match tx.try_send_ref() {
                Ok(mut r) => { assert(len < CAP, 1); *r = n; n += 1 }
                Err(TrySendError::Full(())) => assert(len == CAP, 2),
                Err(_) => assert(false, 4),
            },
            2 => match rx.try_recv() {
                Ok(x) => { assert(len > 0, 5); assert(x == e, 6); e += 1 }
                Err(TryRecvError::Empty) => assert(len == 0 && open, 7),
                Err(_) => assert(len == 0 && !open, 8),
            },
            3 => match rx.try_recv_ref() {
                Ok(x) => { assert(len > 0, 5); assert(*x == e, 6); e += 1 }
                Err(TryRecvError::Empty) => assert(len == 0 && open, 7),
                Err(_) => assert(len == 0 && !open, 8),
            },
            4 if open => { drop(TX.take()); open = false }
            _ => {}
        }
        assert(rx.is_closed() == !open, 9);
        )*
        // the receiver drains what is left
        let len = n - e;
        if len > 0 { assert(recv(rx, 0) == Some(e), 10); e += 1 }
        if len > 1 { assert(recv(rx, 0) == Some(e), 11); }
        if !open { assert(recv(rx, 0).is_none(), 12); }
        if open { drop(TX.take()) }
        drop(RX.take());
    }
} } }
chist! { chist1, 1, 1 2 3 4 5 }
chist! { chist2, 2, 1 2 3 4 5 6 }
