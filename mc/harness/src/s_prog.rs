//! Non-blocking operations finish whatever the other threads are in the middle of:
//! the threads stop for ever wherever the schedule leaves them, then `probe` runs.
use crate::rt::*;
use thingbuf::mpsc::errors::*;
use thingbuf::{StaticThingBuf, ThingBuf};

macro_rules! qprobe { ($q:expr) => { {
    let q = $q;
    match any(4) {
        0 => { let _ = q.push(7).is_ok(); }
        1 => { let _ = q.pop(); }
        2 => { let _ = q.push_ref().map(|mut r| *r = 7).is_ok(); }
        3 => { let _ = q.pop_ref().map(|r| *r); }
        _ => {}
    }
    assert(q.len() <= CAP as usize, 1);
    let _ = q.is_empty();
    assert(q.remaining() <= CAP as usize, 2);
    if flip() { let _ = q.pop(); } else { let _ = q.push(8).is_ok(); }
} } }
macro_rules! qprogs { ($d:ident $s:ident, $n:tt) => {
    both! { $d $s u64, $n;
        setup { mk(); }
        t0 { if flip() { let _ = q().push(1).is_ok(); } let _ = q().push(2).is_ok(); }
        t1 { let _ = q().pop(); if flip() { let _ = q().pop(); } }
        probe { qprobe!(q()); }
    }
} }
qprogs! { prog1_d prog1_s, 1 }
qprogs! { prog2_d prog2_s, 2 }
// references held for ever
macro_rules! qholds { ($d:ident $s:ident, $n:tt) => {
    both! { $d $s u64, $n;
        setup { mk(); }
        t0 { match q().push_ref() { Ok(mut r) => { *r = 1; yield_(); if flip() { core::mem::forget(r) } } Err(_) => {} } 
             if flip() { let _ = q().push(2).is_ok(); } }
        t1 { match q().pop_ref() { Some(r) => { yield_(); if flip() { core::mem::forget(r) } } None => {} } }
        probe { qprobe!(q()); }
    }
} }
qholds! { hold1_d hold1_s, 1 }
qholds! { hold2_d hold2_s, 2 }

// a single thread: references held while operating on the same queue
macro_rules! selfs { ($d:ident $s:ident, $n:tt) => {
    both! { $d $s u64, $n;
        setup { mk(); let q = q();
            if flip() { assert(q.push(1).is_ok(), 1); assert(q.pop() == Some(1), 2); }
            assert(q.push(1).is_ok(), 3);
            if CAP > 1 && flip() { assert(q.push(2).is_ok(), 4); }
            if flip() {
                let r = q.pop_ref();
                assert(r.is_some(), 5);
                qprobe!(q);
                drop(r);
            } else if let Ok(r) = q.push_ref() {
                qprobe!(q);
                drop(r);
            }
            qprobe!(q);
            end();
        }
    }
} }
selfs! { self1_d self1_s, 1 }
selfs! { self2_d self2_s, 2 }
