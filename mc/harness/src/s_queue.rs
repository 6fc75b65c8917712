//! Queues (ThingBuf, StaticThingBuf).
use crate::rt::*;
use thingbuf::{StaticThingBuf, ThingBuf};

/// `q()`, `mk()`, `end()` for a heap queue / a static queue
macro_rules! qdyn { ($T:ty, $n:expr) => {
    static Q: G<ThingBuf<$T>> = G::new();
    fn q() -> &'static ThingBuf<$T> { Q.get() }
    fn mk() { Q.put(ThingBuf::new($n)) }
    fn end() { drop(Q.take()) }
    const CAP: u64 = $n;
} }
macro_rules! qst { ($T:ty, $n:expr) => {
    static Q: G<StaticThingBuf<$T, $n>> = G::new();
    fn q() -> &'static StaticThingBuf<$T, $n> { Q.get() }
    fn mk() { Q.put(StaticThingBuf::new()) }
    fn end() { drop(Q.take()) }
    const CAP: u64 = $n;
} }
macro_rules! both { ($d:ident $s:ident $T:ty, $n:tt; $($r:tt)*) => {
    scen! { $d { qdyn!{$T, $n} } $($r)* }
    scen! { $s { qst!{$T, $n} } $($r)* }
} }

/// pops what is left (at most $n elements), then the queue must be empty
#[macro_export]
macro_rules! drain {
    (1, $pop:expr, $x:ident, $b:block) => { if let Some($x) = $pop { $b; assert($pop.is_none(), 99); } };
    (2, $pop:expr, $x:ident, $b:block) => { if let Some($x) = $pop { $b; $crate::drain!(1, $pop, $x, $b) } };
    (3, $pop:expr, $x:ident, $b:block) => { if let Some($x) = $pop { $b; $crate::drain!(2, $pop, $x, $b) } };
}

// ---------------------------------------------------------------- C01 FIFO
macro_rules! spsc { ($d:ident $s:ident, $n:tt) => { both! { $d $s u64, $n;
    setup { mk(); }
    t0 {
        let q = q(); let mut n = 1;
        if q.push(n).is_ok() { n += 1 }
        if q.push(n).is_ok() { n += 1 }
        if q.push(n).is_ok() { n += 1 }
        gset(0, n);
    }
    t1 {
        let q = q(); let mut e = 1;
        if let Some(x) = q.pop() { assert(x == e, 1); e += 1 }
        if let Some(x) = q.pop() { assert(x == e, 1); e += 1 }
        if let Some(x) = q.pop() { assert(x == e, 1); e += 1 }
        gset(1, e);
    }
    fin {
        let q = q(); let mut e = gget(1);
        drain!($n, q.pop(), x, { assert(x == e, 2); e += 1 });
        assert(e == gget(0), 3);
        end();
    }
} } }
spsc! { c01_spsc1_d c01_spsc1_s, 1 }
spsc! { c01_spsc2_d c01_spsc2_s, 2 }
spsc! { c01_spsc3_d c01_spsc3_s, 3 }

// start from any position of the ring (laps), then run concurrently, by reference
macro_rules! lap { ($q:ident) => { if flip() { assert($q.push(90).is_ok(), 1); assert($q.pop() == Some(90), 2) } } }
macro_rules! pre { ($q:ident, $n:ident, $max:expr) => { if $n <= $max && flip() { assert($q.push($n).is_ok(), 3); $n += 1 } } }
macro_rules! wrap { ($d:ident $s:ident, $n:tt, $($l:tt)*) => { both! { $d $s u64, $n;
    setup {
        mk(); let q = q();
        $( lap!(q); let _ = $l; )*
        let mut n = 1;
        pre!(q, n, CAP); pre!(q, n, CAP); pre!(q, n, CAP);
        gset(0, n);
    }
    t0 {
        let q = q(); let mut n = gget(0);
        if let Ok(mut r) = q.push_ref() { *r = n; n += 1 }
        if q.push_with(|x| *x = n).is_ok() { n += 1 }
        gset(0, n);
    }
    t1 {
        let q = q(); let mut e = 1;
        if let Some(r) = q.pop_ref() { assert(*r == e, 4); e += 1 }
        if let Some(x) = q.pop_with(|x| *x) { assert(x == e, 5); e += 1 }
        gset(1, e);
    }
    fin {
        let q = q(); let mut e = gget(1);
        drain!($n, q.pop(), x, { assert(x == e, 6); e += 1 });
        assert(e == gget(0), 7);
        end();
    }
} } }
wrap! { c01_wrap1_d c01_wrap1_s, 1, 1 2 }
wrap! { c01_wrap2_d c01_wrap2_s, 2, 1 2 3 }
wrap! { c01_wrap3_d c01_wrap3_s, 3, 1 2 3 4 }

// values are (producer << 4) | k with k = 1, 2, ..; ghost 10+v: pops of v, 60+v: pushes of v
pub fn pushed(v: u64) { ginc(60 + v) }
pub fn popped(v: u64) {
    let ok = v == 0x11 || v == 0x12 || v == 0x21 || v == 0x22 || v == 0x01;
    assert(ok, 20);
    if ok { ginc(10 + v); assert(gget(10 + v) == 1, 21); }
}
#[macro_export]
macro_rules! settle { ($($v:expr)*) => {
    $( assert(gget(10 + $v) == gget(60 + $v), 22); )*
} }

// two producers, one consumer; a push that completed before another began comes out first
macro_rules! mpsc { ($d:ident $s:ident, $n:tt) => { both! { $d $s u64, $n;
    setup { mk(); }
    t0 { let q = q();
        if q.push(0x11).is_ok() { pushed(0x11); gset(1, 1) }
        if q.push(0x12).is_ok() { pushed(0x12) }
    }
    t1 { let q = q();
        if gget(1) == 1 { gset(2, 1) }
        if q.push(0x21).is_ok() { pushed(0x21) } else { gset(2, 0) }
    }
    t2 { let q = q(); let (mut a, mut b) = (0, 0);
        if let Some(x) = q.pop() { popped(x); a = x }
        if let Some(x) = q.pop() { popped(x); b = x }
        // per-producer order
        if a == 0x12 || b == 0x12 { assert(a == 0x11 || b == 0x12, 30); assert(b != 0x11, 31) }
        gset(3, a); gset(4, b);
    }
    fin { let q = q(); let (a, b) = (gget(3), gget(4));
        let (mut s11, mut s12) = (a == 0x11 || b == 0x11, a == 0x12 || b == 0x12);
        // 0x11 was pushed before the push of 0x21 began: it must come out first
        if gget(2) == 1 { assert(a != 0x21, 32); if b == 0x21 { assert(a == 0x11, 33) } }
        drain!($n, q.pop(), x, {
            popped(x);
            if x == 0x11 { assert(!s12, 34); s11 = true }
            if x == 0x12 { assert(s11 || gget(1) == 0, 35); s12 = true }
            if x == 0x21 && gget(2) == 1 { assert(s11, 36) }
        });
        settle!(0x11 0x12 0x21);
        end();
    }
} } }
mpsc! { c01_mpsc1_d c01_mpsc1_s, 1 }
mpsc! { c01_mpsc2_d c01_mpsc2_s, 2 }

// two producers, two consumers, queue possibly partly filled
macro_rules! mpmc { ($d:ident $s:ident, $n:tt) => { both! { $d $s u64, $n;
    setup { mk(); let q = q();
        if flip() { assert(q.push(7).is_ok(), 1); assert(q.pop() == Some(7), 2) }
        if flip() { assert(q.push(0x01).is_ok(), 3); pushed(0x01) }
    }
    t0 { let q = q(); if q.push(0x11).is_ok() { pushed(0x11) } }
    t1 { let q = q(); if q.push(0x21).is_ok() { pushed(0x21) } }
    t2 { let q = q(); if let Some(x) = q.pop() { popped(x) } }
    t3 { let q = q(); if let Some(x) = q.pop() { popped(x) } }
    fin { let q = q();
        drain!($n, q.pop(), x, { popped(x) });
        settle!(0x01 0x11 0x21);
        end();
    }
} } }
mpmc! { c01_mpmc1_d c01_mpmc1_s, 1 }
mpmc! { c01_mpmc2_d c01_mpmc2_s, 2 }

// two consumers racing for two elements
macro_rules! spmc { ($d:ident $s:ident, $n:tt) => { both! { $d $s u64, $n;
    setup { mk(); let q = q(); if flip() { assert(q.push(7).is_ok(), 1); assert(q.pop() == Some(7), 2) } }
    t0 { let q = q();
        if q.push(0x11).is_ok() { pushed(0x11) }
        if q.push(0x12).is_ok() { pushed(0x12) }
    }
    t1 { let q = q(); let (mut a, mut b) = (0, 0);
        if let Some(x) = q.pop() { popped(x); a = x }
        if let Some(x) = q.pop() { popped(x); b = x }
        if a != 0 && b != 0 { assert(a < b, 30) }
    }
    t2 { let q = q(); if let Some(x) = q.pop() { popped(x) } }
    fin { let q = q(); let mut a = 0;
        drain!($n, q.pop(), x, { popped(x); assert(a < x, 31); a = x });
        settle!(0x11 0x12);
        end();
    }
} } }
spmc! { c01_spmc1_d c01_spmc1_s, 1 }
spmc! { c01_spmc2_d c01_spmc2_s, 2 }

// ------------------------------------------------ C01/C03/C07 any short history
macro_rules! hist { ($d:ident $s:ident, $n:tt, $($k:tt)*) => { both! { $d $s u64, $n;
    setup {
        mk(); let q = q();
        // FIFO model: values are consecutive numbers
        let (mut n, mut e) = (1u64, 1u64);
        $(
            let _ = $k;
            let len = n - e;
            match any(3) {
                0 => match q.push(n) {
                    Ok(()) => { assert(len < CAP, 1); n += 1 }
                    Err(x) => { assert(len == CAP, 2); assert(x.into_inner() == n, 3) }
                },
                1 => match q.push_ref() {
                    Ok(mut r) => { assert(len < CAP, 1); *r = n; n += 1 }
                    Err(_) => assert(len == CAP, 2),
                },
                2 => match q.pop() {
                    Some(x) => { assert(x == e, 4); e += 1 }
                    None => assert(len == 0, 5),
                },
                _ => match q.pop_ref() {
                    Some(x) => { assert(*x == e, 4); e += 1 }
                    None => assert(len == 0, 5),
                },
            }
            let len = n - e;
            assert(q.len() as u64 == len, 6);
            assert(q.is_empty() == (len == 0), 7);
            assert(q.capacity() as u64 == CAP, 8);
            assert(q.remaining() as u64 == CAP - len, 9);
        )*
        end();
    }
} } }
hist! { hist1_d hist1_s, 1, 1 2 3 4 }
hist! { hist2_d hist2_s, 2, 1 2 3 4 5 }
hist! { hist3_d hist3_s, 3, 1 2 3 4 5 6 }

// larger rings: any starting position, any fill, any drain, any refill
macro_rules! ring { ($d:ident $s:ident, $n:tt, [$($lap:tt)*] [$($f:tt)*]) => { both! { $d $s u64, $n;
    setup {
        mk(); let q = q();
        let (laps, fill, drain, refill) = (any(2 * CAP), any(CAP + 1), any(CAP), any(CAP + 1));
        let mut k = 0u64;
        $( let _ = $lap; if k < laps { assert(q.push(k).is_ok(), 1); assert(q.pop() == Some(k), 2); k += 1 } )*
        let (mut n, mut e) = (1u64, 1u64);
        macro_rules! check { () => {
            let len = n - e;
            assert(q.len() as u64 == len, 3);
            assert(q.is_empty() == (len == 0), 4);
            assert(q.remaining() as u64 == CAP - len, 5);
        } }
        macro_rules! put { () => {
            let len = n - e;
            match q.push(n) {
                Ok(()) => { assert(len < CAP, 6); n += 1 }
                Err(x) => { assert(len == CAP, 7); assert(x.into_inner() == n, 8) }
            }
        } }
        macro_rules! get { () => {
            let len = n - e;
            match q.pop() {
                Some(x) => { assert(x == e, 9); e += 1 }
                None => assert(len == 0, 10),
            }
        } }
        assert(q.capacity() as u64 == CAP, 11);
        check!();
        let mut k = 0u64; $( let _ = $f; if k < fill { put!(); k += 1 } )* check!();
        let mut k = 0u64; $( let _ = $f; if k < drain { get!(); k += 1 } )* check!();
        let mut k = 0u64; $( let _ = $f; if k < refill { put!(); k += 1 } )* check!();
        $( let _ = $f; get!(); )*
        assert(e == n, 12); check!();
        end();
    }
} } }
ring! { ring4_d ring4_s, 4, [1 2 3 4 5 6 7 8] [1 2 3 4 5] }
ring! { ring5_d ring5_s, 5, [1 2 3 4 5 6 7 8 9 10] [1 2 3 4 5 6] }
ring! { ring7_d ring7_s, 7, [1 2 3 4 5 6 7 8 9 10 11 12 13 14] [1 2 3 4 5 6 7 8] }
ring! { ring8_d ring8_s, 8, [1 2 3 4 5 6 7 8 9 10 11 12 13 14 15 16] [1 2 3 4 5 6 7 8 9] }

// ------------------------------------------- after any number of laps around the ring
macro_rules! lapsq { ($s:ident, $n:tt) => { scen! { $s { qst!{u64, $n} fn once() { assert(q().push(90).is_ok(), 1); assert(q().pop() == Some(90), 2) } }
    setup {
        mk(); let q = q();
        laps(q, || { once(); if CAP > 1 { once() } if CAP > 2 { once() } });
        assert(q.is_empty() && q.len() == 0 && q.remaining() == CAP as usize, 3);
        let mut n = 1;
        pre!(q, n, CAP); pre!(q, n, CAP); pre!(q, n, CAP);
        assert(q.len() as u64 == n - 1, 4);
        gset(0, n);
    }
    t0 {
        let q = q(); let mut n = gget(0);
        if let Ok(mut r) = q.push_ref() { assert(*r == 0, 5); *r = n; n += 1 }
        if q.push(n).is_ok() { n += 1 }
        gset(0, n);
    }
    t1 {
        let q = q(); let mut e = 1;
        assert(q.len() as u64 <= CAP, 6);
        if let Some(r) = q.pop_ref() { assert(*r == e, 7); e += 1 }
        if let Some(x) = q.pop() { assert(x == e, 8); e += 1 }
        gset(1, e);
    }
    fin {
        let q = q(); let mut e = gget(1);
        assert(q.len() as u64 == gget(0) - e, 9);
        assert(q.remaining() as u64 + q.len() as u64 == CAP, 10);
        drain!($n, q.pop(), x, { assert(x == e, 11); e += 1 });
        assert(e == gget(0), 12);
        end();
    }
} } }
lapsq! { laps1_s, 1 }
lapsq! { laps2_s, 2 }
lapsq! { laps3_s, 3 }
