//! Capacity, truth of full/empty reports, lengths seen concurrently, and the
//! channels' non-blocking operations with everybody else suspended.
use crate::rt::*;
use thingbuf::mpsc::errors::*;
use thingbuf::{StaticThingBuf, ThingBuf};

// ghost 0: 10 + elements and references in existence (never over-counted)
pub fn enter(cap: u64) { ginc(0); assert(gget(0) <= 10 + cap, 1) }
pub fn leave() { gdec(0) }

// no more than N elements or references, whoever holds them
macro_rules! caps { ($d:ident $s:ident, $n:tt) => { both! { $d $s u64, $n;
    setup { mk(); gset(0, 10); let q = q();
        if flip() { assert(q.push(7).is_ok(), 2); assert(q.pop() == Some(7), 3) }
        if flip() { assert(q.push(7).is_ok(), 2); ginc(0) }
    }
    t0 { if let Ok(mut r) = q().push_ref() { enter(CAP); *r = 1; yield_(); drop(r) }
         if let Ok(mut r) = q().push_ref() { enter(CAP); *r = 1; drop(r) } }
    t1 { if let Ok(mut r) = q().push_ref() { enter(CAP); *r = 2; yield_(); drop(r) } }
    t2 { if let Some(r) = q().pop_ref() { yield_(); leave(); drop(r) }
         if let Some(r) = q().pop_ref() { leave(); drop(r) } }
} } }
caps! { cap1_d cap1_s, 1 }
caps! { cap2_d cap2_s, 2 }
// the same, two consumers
macro_rules! capc { ($d:ident $s:ident, $n:tt) => { both! { $d $s u64, $n;
    setup { mk(); gset(0, 10); let q = q();
        if flip() { assert(q.push(7).is_ok(), 2); assert(q.pop() == Some(7), 3) }
        assert(q.push(7).is_ok(), 2); ginc(0);
        if CAP > 1 && flip() { assert(q.push(7).is_ok(), 2); ginc(0) }
    }
    t0 { if let Ok(mut r) = q().push_ref() { enter(CAP); *r = 1; yield_(); drop(r) }
         if let Ok(mut r) = q().push_ref() { enter(CAP); *r = 1; drop(r) } }
    t1 { if let Some(r) = q().pop_ref() { yield_(); leave(); drop(r) } }
    t2 { if let Some(r) = q().pop_ref() { yield_(); leave(); drop(r) } }
} } }
capc! { capc1_d capc1_s, 1 }
capc! { capc2_d capc2_s, 2 }

// one producer, one consumer: exact conditions for full and empty
// ghost 1: pushes completed, 2: pops completed (reference released), 3: pushes begun, 4: pops begun
macro_rules! truth { ($d:ident $s:ident, $n:tt) => { both! { $d $s u64, $n;
    setup { mk(); let q = q();
        if flip() { assert(q.push(7).is_ok(), 2); assert(q.pop() == Some(7), 3) }
        if flip() { assert(q.push(7).is_ok(), 2); gset(1, 1); gset(3, 1) }
        if CAP > 1 && flip() { assert(q.push(7).is_ok(), 2); ginc(1); ginc(3) }
    }
    t0 { full_truth!(); full_truth!(); }
    t1 { empty_truth!(); empty_truth!(); }
} } }
macro_rules! full_truth { () => {
    let (n, c) = (gget(1), gget(2)); ginc(3);
    if flip() {
        if q().push(5).is_ok() { ginc(1) } else { gdec(3); assert(n - c >= CAP, 4) }
    } else {
        match q().push_ref() { Ok(r) => { drop(r); ginc(1) } Err(_) => { gdec(3); assert(n - c >= CAP, 5) } }
    }
} }
macro_rules! empty_truth { () => {
    let (n, c) = (gget(1), gget(2));
    if flip() {
        if q().pop().is_some() { ginc(2) } else { assert(n <= c, 6) }
    } else {
        match q().pop_ref() { Some(r) => { drop(r); ginc(2) } None => assert(n <= c, 7) }
    }
} }
truth! { truth1_d truth1_s, 1 }
truth! { truth2_d truth2_s, 2 }
truth! { truth3_d truth3_s, 3 }

// two producers: a consumer that starts after both finished cannot find the queue empty,
// and a producer that starts when no pop is in progress is not refused while there is room
macro_rules! truthm { ($d:ident $s:ident, $n:tt) => { both! { $d $s u64, $n;
    setup { mk(); let q = q(); if flip() { assert(q.push(7).is_ok(), 2); assert(q.pop() == Some(7), 3) } }
    t0 { pushm!(); }
    t1 { pushm!(); }
    t2 {
        let (d, c) = (gget(1), gget(2)); ginc(4);
        if q().pop().is_some() { ginc(2) } else {
            if gget(3) == d { assert(d <= c, 6) }
            gdec(4);
        }
    }
} } }
macro_rules! pushm { () => {
    let c = gget(2); ginc(3);
    if q().push(5).is_ok() { ginc(1) } else {
        // begun by others (each began at most one), minus what had been popped for good
        gdec(3);
        if gget(4) == c { assert(gget(3) - c >= CAP, 8) }
    }
} }
truthm! { truthm1_d truthm1_s, 1 }
truthm! { truthm2_d truthm2_s, 2 }

// lengths read while others work
macro_rules! lens { ($d:ident $s:ident, $n:tt) => { both! { $d $s u64, $n;
    setup { mk(); let q = q();
        if flip() { assert(q.push(7).is_ok(), 2); assert(q.pop() == Some(7), 3) }
        if flip() { assert(q.push(7).is_ok(), 2); gset(1, 1); gset(3, 1) }
        if CAP > 1 && flip() { assert(q.push(7).is_ok(), 2); ginc(1); ginc(3) }
    }
    t0 { ginc(3); if q().push(1).is_ok() { ginc(1) } else { gdec(3) }
         ginc(3); if q().push(1).is_ok() { ginc(1) } else { gdec(3) } }
    t1 { ginc(4); if q().pop().is_some() { ginc(2) } else { gdec(4) }
         ginc(4); if q().pop().is_some() { ginc(2) } else { gdec(4) } }
    t2 { let q = q();
        let (p, c) = (gget(1), gget(2));
        match any(3) {
            0 => { let n = q.len() as u64;
                assert(n <= CAP, 4);
                // at least: completed before the call, minus pops begun by its end
                assert(n + gget(4) >= p, 5);
                // at most: begun by its end, minus popped before the call
                assert(n + c <= gget(3), 6) }
            1 => { let n = q.remaining() as u64;
                assert(n <= CAP, 7);
                let n = CAP - n;
                assert(n + gget(4) >= p, 8); assert(n + c <= gget(3), 9) }
            2 => { if q.is_empty() { assert(gget(4) >= p, 10) } else { assert(gget(3) > c, 11) } }
            _ => assert(q.capacity() as u64 == CAP, 12),
        }
    }
} } }
lens! { len1_d len1_s, 1 }
lens! { len2_d len2_s, 2 }
lens! { len3_d len3_s, 3 }

// ------------------------------------------------------------------ channels
macro_rules! ctruth { ($s:ident, $n:tt) => { chans! { $s u64, $n; {}
    setup { mk1(); gset(0, 10); let (tx, rx) = (TX.get(), RX.get());
        if flip() { assert(tx.try_send(7).is_ok(), 2); assert(rx.try_recv() == Ok(7), 3) }
        if flip() { assert(tx.try_send(7).is_ok(), 2); gset(1, 1); gset(0, 11) }
    }
    t0 { let tx = TX.get();
        csend!(tx); csend!(tx);
    }
    t1 { let rx = RX.get();
        crecv!(rx); crecv!(rx);
    }
} } }
macro_rules! csend { ($tx:ident) => {
    let (n, c) = (gget(1), gget(2));
    match $tx.try_send_ref() {
        Ok(mut r) => { enter(CAP); *r = 1; yield_(); drop(r); ginc(1) }
        Err(TrySendError::Full(())) => assert(n - c >= CAP, 4),
        Err(_) => assert(false, 5),
    }
} }
macro_rules! crecv { ($rx:ident) => {
    let (n, c) = (gget(1), gget(2));
    match $rx.try_recv_ref() {
        Ok(r) => { yield_(); leave(); drop(r); ginc(2) }
        Err(TryRecvError::Empty) => assert(n <= c, 6),
        Err(_) => assert(false, 7),
    }
} }
ctruth! { ctruth1, 1 }
ctruth! { ctruth2, 2 }

// try_ operations with the other threads stopped anywhere, references held
macro_rules! cprog { ($s:ident, $n:tt) => { chans! { $s u64, $n; {}
    setup { mk2(); if flip() { assert(TX.get().try_send(7).is_ok(), 2); assert(RX.get().try_recv() == Ok(7), 3) } }
    t0 { let tx = TX.get();
        match tx.try_send_ref() { Ok(mut r) => { *r = 1; yield_(); drop(r) } Err(_) => {} }
        if flip() { let _ = tx.try_send(2).is_ok(); } }
    t1 { let rx = RX.get(); match rx.try_recv_ref() { Ok(r) => { yield_(); drop(r) } Err(_) => {} } }
    probe { let (tx, rx) = (TX2.get(), RX.get());
        match any(3) {
            0 => { let _ = tx.try_send(7).is_ok(); }
            1 => { let _ = rx.try_recv().is_ok(); }
            2 => { let _ = tx.try_send_ref().map(|mut r| *r = 7).is_ok(); }
            _ => { let _ = rx.try_recv_ref().map(|r| *r).is_ok(); }
        }
        assert(!rx.is_closed(), 4);
        if flip() { let _ = rx.try_recv().is_ok(); } else { let _ = tx.try_send(8).is_ok(); }
    }
} } }
cprog! { cprog1, 1 }
cprog! { cprog2, 2 }
// the same while the other handles are dropped
chans! { cprogx u64, 1; {}
    setup { mk2(); if flip() { assert(TX.get().try_send(7).is_ok(), 2); assert(RX.get().try_recv() == Ok(7), 3) } }
    t0 { let tx = TX.get(); if flip() { let _ = tx.try_send(1).is_ok(); } else { let _ = tx.try_send_ref().map(|mut r| *r = 7).is_ok(); } }
    t1 { let rx = RX.take(); let _ = rx.try_recv().is_ok(); if flip() { drop(rx) } else { let _ = rx.try_recv_ref().map(|r| *r).is_ok(); } }
    t2 { let tx = TX2.take(); let _ = tx.try_send(2).is_ok(); drop(tx); }
}
// the same while the receiver waits for a message (it is suspended anywhere in its receive)
chans! { cprogw u64, 1; {}
    setup { mk2(); if flip() { assert(TX.get().try_send(7).is_ok(), 2); assert(RX.get().try_recv() == Ok(7), 3) } }
    t0 { let _ = TX.get().try_send(2).is_ok(); }
    t1 { let _ = recv(RX.get(), 1); }
    probe { let tx = TX2.get();
        if flip() { let _ = tx.try_send(7).is_ok(); } else { let _ = tx.try_send_ref().map(|mut r| *r = 7).is_ok(); }
        assert(!RX.get().is_closed(), 4);
        let _ = tx.try_send(8).is_ok();
    }
}

// a queue or channel without capacity
scen! { zero_s { static Q: G<StaticThingBuf<u64, 0>> = G::new(); }
    t0 { Q.put(StaticThingBuf::new()); let q = Q.get();
        assert(q.push(1).is_err(), 1); assert(q.pop().is_none(), 2); }
}
scen! { zero_d { }
    t0 { let q: ThingBuf<u64> = ThingBuf::new(0); assert(q.push(1).is_err(), 1); assert(q.pop().is_none(), 2); }
}
macro_rules! zeroch { ($d:ident $s:ident $m:path) => {
scen! { $d { use $m as m; }
    t0 { let (tx, rx) = m::channel::<u64>(0); assert(tx.try_send(1).is_err(), 1); assert(rx.try_recv().is_err(), 2); }
}
scen! { $s { use $m as m; static C: G<m::StaticChannel<u64, 0>> = G::new(); }
    t0 { C.put(m::StaticChannel::new()); let (tx, rx) = C.get().split(); assert(tx.try_send(1).is_err(), 1); assert(rx.try_recv().is_err(), 2); }
}
} }
zeroch! { zero_ad zero_as thingbuf::mpsc }
#[cfg(feature = "std")]
zeroch! { zero_bd zero_bs thingbuf::mpsc::blocking }

// ------------------------------------------------- exclusive references (values)
macro_rules! excl { ($d:ident $s:ident, $n:tt) => { both! { $d $s u64, $n;
    setup { mk(); if flip() { assert(q().push(7).is_ok(), 1) } }
    t0 { if let Ok(mut r) = q().push_ref() { *r = 5; yield_(); assert(*r == 5, 2); *r = 6 } }
    t1 { if let Ok(mut r) = q().push_ref() { *r = 8; yield_(); assert(*r == 8, 3); *r = 6 } }
    t2 { if let Some(mut r) = q().pop_ref() { assert(*r == 6 || *r == 7, 4); *r = 9; yield_(); assert(*r == 9, 5) } }
} } }
excl! { excl1_d excl1_s, 1 }
excl! { excl2_d excl2_s, 2 }

// --------------------------------------------- static variants allocate nothing
scen! { na_q { static Q: StaticThingBuf<u64, 2> = StaticThingBuf::new(); }
    t0 { let q = &Q;
        assert(q.push(1).is_ok(), 1);
        match q.push_ref() { Ok(mut r) => *r = 2, Err(_) => assert(false, 2) }
        assert(q.push(3).is_err(), 3); assert(q.len() == 2, 4);
        assert(q.pop() == Some(1), 5);
        match q.pop_ref() { Some(r) => assert(*r == 2, 6), None => assert(false, 7) }
        assert(q.pop().is_none(), 8);
    }
}
chans! { na_ch u64, 1; {}
    t0 { let (tx, rx) = ch();
        let t2 = tx.clone();
        assert(tx.try_send(1).is_ok(), 1); assert(t2.try_send(2).is_err(), 2);
        assert(recv(&rx, 0) == Some(1), 3);
        assert(send(&t2, 3, 0).is_ok(), 4); assert(rx.try_recv() == Ok(3), 5);
        drop(tx); drop(t2);
        assert(recv(&rx, 0).is_none(), 6);
        drop(rx);
    }
}
