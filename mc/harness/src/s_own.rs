//! Elements: created once, dropped once, recycled before every reuse.
use crate::rt::*;
use alloc::collections::VecDeque;
use alloc::string::String;
use alloc::vec::Vec;
use core::future::Future;
use thingbuf::mpsc::errors::*;
use thingbuf::recycling::{Recycle, WithCapacity};
use thingbuf::{StaticThingBuf, ThingBuf};

// ghost 30: elements created so far, 31: 1000 + alive, 32: 10000 + sum of the ids alive
const LIVE: u64 = 0x5aa5;
pub struct E { id: u64, magic: u64 }
impl E {
    #[inline(never)]
    pub fn mk() -> E {
        ginc(30); ginc(31); let id = gget(30);
        gset(32, gget(32) + id);
        E { id, magic: LIVE }
    }
    pub fn ok(&self) { assert(unsafe { core::ptr::read_volatile(&self.magic) } == LIVE, 200) }
}
impl Default for E { fn default() -> E { E::mk() } }
impl Clone for E { fn clone(&self) -> E { self.ok(); E::mk() } }
impl Drop for E {
    fn drop(&mut self) {
        self.ok();
        unsafe { core::ptr::write_volatile(&mut self.magic, 0xdead) }
        gdec(31);
        gset(32, gget(32) - self.id);
    }
}
fn start() { gset(31, 1000); gset(32, 10000); }
/// every element created has been dropped
fn none_left() { assert(gget(31) == 1000, 201); assert(gget(32) == 10000, 202); }
/// no more than `n` elements alive (those kept in the slots)
fn at_most(n: u64) { assert(gget(31) <= 1000 + n, 203); assert(gget(31) >= 1000, 204); }

macro_rules! own { ($d:ident $s:ident, $n:tt, $($k:tt)*) => { both! { $d $s E, $n;
    setup {
        start(); mk(); assert(gget(30) == 0, 1);
        let q = q();
        let mut len = 0;
        $( let _ = $k;
        match any(3) {
            0 => match q.push(E::mk()) { Ok(()) => len += 1, Err(e) => e.into_inner().ok() },
            1 => if let Ok(r) = q.push_ref() { r.ok(); len += 1 },
            2 => if let Some(x) = q.pop() { x.ok(); len -= 1 },
            _ => if let Some(r) = q.pop_ref() { r.ok(); len -= 1 },
        }
        at_most(CAP); let _ = len;
        )*
        end();
        none_left();
    }
} } }
own! { own1_d own1_s, 1, 1 2 3 4 }
own! { own2_d own2_s, 2, 1 2 3 4 5 }
own! { own3_d own3_s, 3, 1 2 3 4 5 }

// concurrently
macro_rules! ownc { ($d:ident $s:ident, $n:tt) => { both! { $d $s E, $n;
    setup { start(); mk(); if flip() { assert(q().push(E::mk()).is_ok(), 1); } }
    t0 { if q().push(E::mk()).is_err() {} if let Ok(r) = q().push_ref() { r.ok() } }
    t1 { if let Some(x) = q().pop() { x.ok() } if let Some(r) = q().pop_ref() { r.ok() } }
    fin { at_most(CAP); end(); none_left(); }
} } }
ownc! { ownc1_d ownc1_s, 1 }
ownc! { ownc2_d ownc2_s, 2 }

// channels: destroyed with messages inside, in any order
macro_rules! cown { ($s:ident, $n:tt) => { chans! { $s E, $n; {}
    setup {
        start(); mk1(); assert(gget(30) == 0, 1);
        let tx = TX.take(); let rx = RX.take();
        if flip() { assert(tx.try_send(E::mk()).is_ok(), 2);
            if flip() { match rx.try_recv() { Ok(x) => x.ok(), Err(_) => assert(false, 3) } } }
        if flip() { if let Ok(r) = tx.try_send_ref() { r.ok() } }
        if flip() { if tx.try_send(E::mk()).is_err() {} }
        if flip() {
            drop(rx);
            match tx.try_send(E::mk()) { Ok(()) => assert(false, 4), Err(e) => e.into_inner().ok() }
            drop(tx);
        } else {
            drop(tx);
            if flip() { if let Some(r) = recv(&rx, 0) { r.ok() } }
            if flip() { if let Ok(r) = rx.try_recv_ref() { r.ok() } }
            drop(rx);
        }
        if STATIC { at_most(CAP) } else { none_left() }
    }
} } }
cown! { cown1, 1 }
cown! { cown2, 2 }
// handles dropped concurrently: the last one frees the channel, exactly once
macro_rules! cownc { ($s:ident, $n:tt) => { chans! { $s E, $n; {}
    setup { start(); mk2(); }
    t0 { let tx = TX.take(); if tx.try_send(E::mk()).is_err() {} drop(tx) }
    t1 { let tx = TX2.take(); if let Ok(r) = tx.try_send_ref() { r.ok() } drop(tx) }
    t2 { let rx = RX.take(); if let Ok(x) = rx.try_recv() { x.ok() } drop(rx) }
    fin { if STATIC { at_most(CAP) } else { none_left() } }
} } }
cownc! { cownc1, 1 }
// one sender, one receiver
macro_rules! cowns { ($s:ident, $n:tt) => { chans! { $s E, $n; {}
    setup { start(); mk1(); }
    t0 { let tx = TX.take(); if tx.try_send(E::mk()).is_err() {} if let Ok(r) = tx.try_send_ref() { r.ok() } drop(tx) }
    t1 { let rx = RX.take(); if let Ok(x) = rx.try_recv() { x.ok() } if let Ok(x) = rx.try_recv_ref() { x.ok() } drop(rx) }
    fin { if STATIC { at_most(CAP) } else { none_left() } }
} } }
cowns! { cowns1, 1 }
cowns! { cowns2, 2 }
// the value inside a pending send: cancelled, completed or refused
chans! { async cownf E, 1; {
        pub static FA: Fut = Fut::new();
        pub fn fa() -> impl Future<Output = Result<(), Closed<E>>> { TX.get().send(E::mk()) } }
    setup { start(); mk1(); assert(TX.get().try_send(E::mk()).is_ok(), 1);
        FA.put(fa);
        if flip() { assert(FA.poll(fa, 0).is_pending(), 2); }
        match any(3) {
            0 => {}
            1 => { match RX.get().try_recv() { Ok(x) => x.ok(), Err(_) => assert(false, 3) }
                   assert(FA.poll(fa, 0).is_ready(), 4) }
            2 => { match RX.get().try_recv() { Ok(x) => x.ok(), Err(_) => assert(false, 3) } }
            _ => { drop(RX.take()); gset(0, 1);
                   match FA.poll(fa, 0) { core::task::Poll::Ready(Err(e)) => e.into_inner().ok(), _ => assert(false, 5) } }
        }
        FA.drop_(fa);
        drop(TX.take());
        if gget(0) == 0 { drop(RX.take()) }
        if STATIC { at_most(CAP) } else { none_left() }
        assert(wrefs(0) == 0, 6);
    }
}

// ------------------------------------------------------------- C06 recycling
/// contents and how often the policy was applied to them
#[derive(PartialEq)]
pub struct V { v: u64, r: u64 }
pub struct P;
const FRESH: u64 = 0xf0;
impl Recycle<V> for P {
    fn new_element(&self) -> V { V { v: FRESH, r: 0 } }
    fn recycle(&self, e: &mut V) { e.r += 1 }
}
macro_rules! rdyn { ($n:tt) => {
    static Q: G<ThingBuf<V, P>> = G::new();
    fn q() -> &'static ThingBuf<V, P> { Q.get() }
    fn mk() { Q.put(ThingBuf::with_recycle($n, P)) }
    const CAP: usize = $n;
} }
macro_rules! rst { ($n:tt) => {
    static Q: G<StaticThingBuf<V, $n, P>> = G::new();
    fn q() -> &'static StaticThingBuf<V, $n, P> { Q.get() }
    fn mk() { Q.put(StaticThingBuf::with_recycle(P)) }
    const CAP: usize = $n;
} }
// any history against what each slot must contain
macro_rules! rec { (@ $s:ident $m:ident, $n:tt, $($k:tt)*) => { scen! { $s { $m!{$n} }
    setup {
        mk(); let q = q();
        // contents of each slot; used?
        let mut sv = [0u64; CAP]; let mut sr = [0u64; CAP]; let mut used = [false; CAP];
        let (mut t, mut h, mut len) = (0usize, 0usize, 0usize);
        $(
        let k = $k;
        match any(4) {
            0 => match q.push_ref() {
                Ok(mut x) => {
                    assert(len < CAP, 1);
                    if used[t] { assert(x.v == sv[t], 2); assert(x.r == sr[t] + 1, 3) }
                    else { assert(x.v == FRESH, 4); assert(x.r == 0, 5) }
                    if flip() { x.v = k }
                    sv[t] = x.v; sr[t] = x.r; used[t] = true;
                    t = (t + 1) % CAP; len += 1;
                }
                Err(_) => assert(len == CAP, 6),
            },
            1 => match q.push(V { v: k, r: 0 }) {
                Ok(()) => { assert(len < CAP, 7); sv[t] = k; sr[t] = 0; used[t] = true; t = (t + 1) % CAP; len += 1 }
                Err(e) => { assert(len == CAP, 8); assert(e.into_inner().v == k, 9) }
            },
            2 => match q.pop() {
                Some(x) => {
                    assert(x.v == sv[h] && x.r == sr[h], 10);
                    sv[h] = FRESH; sr[h] = 0; h = (h + 1) % CAP; len -= 1;
                }
                None => assert(len == 0, 11),
            },
            3 => match q.pop_ref() {
                Some(mut x) => {
                    assert(x.v == sv[h] && x.r == sr[h], 12);
                    if flip() { x.v = k + 0x40; sv[h] = k + 0x40 }
                    h = (h + 1) % CAP; len -= 1;
                }
                None => assert(len == 0, 13),
            },
            _ => match q.push_with(|x| { let o = (x.v, x.r); x.v = k + 0x80; o }) {
                Ok((v, r)) => {
                    assert(len < CAP, 14);
                    if used[t] { assert(v == sv[t], 15); assert(r == sr[t] + 1, 16) } else { assert(v == FRESH && r == 0, 17) }
                    sv[t] = k + 0x80; sr[t] = r; used[t] = true; t = (t + 1) % CAP; len += 1;
                }
                Err(_) => assert(len == CAP, 18),
            },
        }
        )*
    }
} };
($d:ident $s:ident, $n:tt, $($k:tt)*) => { rec! { @ $d rdyn, $n, $($k)* } rec! { @ $s rst, $n, $($k)* } } }
rec! { rec1_d rec1_s, 1, 1 2 3 4 5 }
rec! { rec2_d rec2_s, 2, 1 2 3 4 5 }
// concurrently: what a producer sees is fresh or recycled since its last use
macro_rules! recc { (@ $s:ident $m:ident, $n:tt) => { scen! { $s { $m!{$n} }
    setup { mk(); }
    t0 { rput!(1); rput!(2); }
    t1 { rput!(3); }
    t2 { rget!(); rget!(); }
} };
($d:ident $s:ident, $n:tt) => { recc! { @ $d rdyn, $n } recc! { @ $s rst, $n } } }
// a message is sent with r == 0; whoever sees r == 0 with old contents got a stale element
macro_rules! rput { ($v:expr) => {
    if let Ok(mut x) = q().push_ref() {
        assert(if x.v == FRESH { x.r <= 1 } else { x.r == 1 }, 1);
        x.v = $v; x.r = 0;
    }
} }
macro_rules! rget { () => {
    if flip() { if let Some(x) = q().pop_ref() { assert(x.r == 0 && x.v >= 1 && x.v <= 3, 2) } }
    else { if let Some(x) = q().pop() { assert(x.r == 0 && x.v >= 1 && x.v <= 3, 3) } }
} }
recc! { recc1_d recc1_s, 1 }
recc! { recc2_d recc2_s, 2 }
// the default policy: references obtained for sending start out as the default value
macro_rules! recch { ($s:ident, $n:tt) => { chans! { $s u64, $n; {}
    setup { mk1(); let (tx, rx) = (TX.get(), RX.get());
        if flip() { assert(tx.try_send(7).is_ok(), 1); if flip() { assert(rx.try_recv() == Ok(7), 2) } else { assert(rx.try_recv_ref().is_ok(), 3) } } }
    t0 { let tx = TX.get();
        match tx.try_send_ref() { Ok(mut r) => { assert(*r == 0, 4); *r = 5 } Err(_) => assert(false, 5) }
        match send_r(tx, 0, |x| { let o = *x; *x = 6; o }) { Some(o) => assert(o == 0, 6), None => assert(false, 7) }
    }
    t1 { let rx = RX.get();
        match recv_r(rx, 1, |x| { let o = *x; *x = 9; o }) { Some(x) => assert(x == 5, 8), None => assert(false, 9) }
        assert(recv(rx, 1) == Some(6), 10);
    }
    fin { match TX.get().try_send_ref() { Ok(r) => assert(*r == 0, 11), Err(_) => assert(false, 12) } }
} } }
recch! { recch1, 1 }
recch! { recch2, 2 }
// channels with a policy of their own
macro_rules! recp { ($s:ident, $m:path) => { scen! { $s { use $m as m; }
    setup {
        let (tx, rx) = m::with_recycle::<V, P>(1, P);
        match any(2) { 0 => {}
            1 => { assert(tx.try_send(V { v: 1, r: 0 }).is_ok(), 1); assert(rx.try_recv().is_ok(), 2); gset(0, 1) }
            _ => { assert(tx.try_send(V { v: 1, r: 0 }).is_ok(), 3); assert(rx.try_recv_ref().is_ok(), 4); gset(0, 2) } }
        let mut v = match tx.try_send_ref() { Ok(x) => x, Err(_) => { assert(false, 5); return } };
        match gget(0) { 0 => assert(v.v == FRESH && v.r == 0, 6), 1 => assert(v.v == FRESH && v.r == 1, 7), _ => assert(v.v == 1 && v.r == 1, 8) }
        v.v = 3; v.r = 0; drop(v);
        match rx.try_recv_ref() { Ok(x) => assert(x.v == 3 && x.r == 0, 9), Err(_) => assert(false, 10) };
    }
} } }
recp! { recp_ad, thingbuf::mpsc }
#[cfg(feature = "std")]
recp! { recp_bd, thingbuf::mpsc::blocking }

// a shared policy behaves as the policy
scen! { rec_arc { use alloc::sync::Arc; }
    setup {
        let p = Arc::new(P);
        let q: ThingBuf<V, Arc<P>> = ThingBuf::with_recycle(1, p.clone());
        let k = any(2);
        match k { 0 => {}
            1 => { assert(q.push(V { v: 1, r: 0 }).is_ok(), 1); assert(q.pop().is_some(), 2) }
            _ => { assert(q.push(V { v: 1, r: 0 }).is_ok(), 3); assert(q.pop_ref().is_some(), 4) } }
        match q.push_ref() { Err(_) => assert(false, 5), Ok(v) => match k {
            0 => assert(v.v == FRESH && v.r == 0, 6), 1 => assert(v.v == FRESH && v.r == 1, 7), _ => assert(v.v == 1 && v.r == 1, 8) } }
        let w = Arc::new(WithCapacity::new().with_min_capacity(2).with_max_capacity(3));
        let mut v: Vec<u8> = Recycle::<Vec<u8>>::new_element(&w);
        assert(v.is_empty() && v.capacity() >= 2, 9);
        v.reserve_exact(5);
        Recycle::<Vec<u8>>::recycle(&w, &mut v);
        assert(v.is_empty() && v.capacity() == 3, 10);
    }
}
// the default policy: a default element, the allocation kept when the element is recycled in place
scen! { rec_def { use thingbuf::recycling::DefaultRecycle; }
    setup {
        let p = DefaultRecycle::new();
        let x: u64 = p.new_element(); assert(x == 0, 1);
        let mut y = any(3); p.recycle(&mut y); assert(y == 0, 2);
        let mut v: Vec<u8> = p.new_element(); assert(v.is_empty() && v.capacity() == 0, 3);
        let n = any(3) as usize; v.reserve_exact(n);
        if n > 0 { unsafe { v.as_mut_ptr().write(7); v.set_len(1) } }
        let had = v.capacity();
        p.recycle(&mut v);
        assert(v.is_empty(), 4); assert(v.capacity() == had, 5);
    }
}
// the capacity policy
scen! { wcap_vec {}
    setup {
        let (min, max) = (any(3) as usize, any(3) as usize);
        let p = WithCapacity::new().with_min_capacity(min).with_max_capacity(max);
        assert(p.min_capacity() == min && p.max_capacity() == max, 1);
        let mut v: Vec<u8> = p.new_element();
        assert(v.is_empty(), 2); assert(v.capacity() >= min, 3);
        let grow = any(2) as usize * 3;
        v.reserve_exact(grow);
        if grow > 0 { unsafe { v.as_mut_ptr().write(1); v.set_len(1) } }
        let had = v.capacity();
        p.recycle(&mut v);
        assert(v.is_empty(), 4);
        assert(v.capacity() >= if had < max { had } else { max }, 5);
        assert(v.capacity() <= if had > max { max } else { had }, 6);
        let q = WithCapacity::new();
        assert(q.min_capacity() == 0 && q.max_capacity() == usize::MAX, 7);
        let mut w: Vec<u8> = q.new_element();
        w.reserve_exact(grow); let had = w.capacity();
        q.recycle(&mut w); assert(w.capacity() == had && w.is_empty(), 8);
    }
}
scen! { wcap_str {}
    setup {
        let (min, max) = (any(2) as usize, any(2) as usize);
        let p = WithCapacity::new().with_min_capacity(min).with_max_capacity(max);
        let mut v: String = p.new_element();
        assert(v.is_empty(), 2); assert(v.capacity() >= min, 3);
        if flip() { v.reserve_exact(3); v.push('x'); }
        let had = v.capacity();
        p.recycle(&mut v);
        assert(v.is_empty(), 4);
        assert(v.capacity() >= if had < max { had } else { max }, 5);
        assert(v.capacity() <= if had > max { max } else { had }, 6);
    }
}
scen! { wcap_deq {}
    setup {
        let (min, max) = (any(2) as usize, any(2) as usize);
        let p = WithCapacity::new().with_min_capacity(min).with_max_capacity(max);
        let mut v: VecDeque<u8> = p.new_element();
        assert(v.is_empty(), 2); assert(v.capacity() >= min, 3);
        if flip() { v.reserve_exact(3); v.push_back(1); }
        let had = v.capacity();
        p.recycle(&mut v);
        assert(v.is_empty(), 4);
        assert(v.capacity() >= if had < max { had } else { max }, 5);
        assert(v.capacity() <= if had > max { max } else { had }, 6);
    }
}
scen! { wcap_heap { use alloc::collections::BinaryHeap; }
    setup {
        let (min, max) = (any(2) as usize, any(2) as usize);
        let p = WithCapacity::new().with_min_capacity(min).with_max_capacity(max);
        let mut v: BinaryHeap<u8> = p.new_element();
        assert(v.is_empty(), 2); assert(v.capacity() >= min, 3);
        if flip() { v.reserve_exact(3); v.push(1); }
        let had = v.capacity();
        p.recycle(&mut v);
        assert(v.is_empty(), 4);
        assert(v.capacity() >= if had < max { had } else { max }, 5);
        assert(v.capacity() <= if had > max { max } else { had }, 6);
    }
}
// through a queue: the element left behind keeps its buffer
scen! { wcap_q {}
    setup {
        let q: ThingBuf<Vec<u8>, WithCapacity> = ThingBuf::with_recycle(1, WithCapacity::new().with_min_capacity(2).with_max_capacity(3));
        let byval = flip(); let grow = flip();
        match q.push_ref() { Ok(mut v) => { assert(v.is_empty() && v.capacity() >= 2, 1); v.push(1); if grow { v.reserve_exact(4) } } Err(_) => assert(false, 2) }
        if byval { match q.pop() { Some(v) => assert(v.len() == 1 && v[0] == 1, 3), None => assert(false, 4) } }
        else { match q.pop_ref() { Some(v) => assert(v.len() == 1 && v[0] == 1, 5), None => assert(false, 6) } }
        match q.push_ref() { Ok(v) => { assert(v.is_empty(), 7); assert(v.capacity() >= 2, 8); assert(v.capacity() <= 3, 9) } Err(_) => assert(false, 10) };
    }
}
// hash tables (the hasher is the caller's)
#[cfg(feature = "std")]
mod hash {
    #[derive(Default)] pub struct H(u64);
    impl core::hash::Hasher for H { fn finish(&self) -> u64 { self.0 } fn write(&mut self, _: &[u8]) {} fn write_u8(&mut self, x: u8) { self.0 = x as u64 } }
    pub type B = core::hash::BuildHasherDefault<H>;
}
#[cfg(feature = "std")]
scen! { wcap_map { use std::collections::HashMap; }
    setup {
        let (min, max) = (any(2) as usize, any(2) as usize);
        let p = WithCapacity::new().with_min_capacity(min).with_max_capacity(max);
        let mut v: HashMap<u64, u64, hash::B> = p.new_element();
        assert(v.is_empty(), 2); assert(v.capacity() >= min, 3);
        if flip() { v.reserve(5); v.insert(1, 2); }
        let had = v.capacity();
        p.recycle(&mut v);
        assert(v.is_empty(), 4);
        assert(v.capacity() >= if had < max { had } else { max }, 5);
        assert(v.capacity() <= had, 6);
        if had > 3 { assert(v.capacity() < had, 7) }
    }
}
#[cfg(feature = "std")]
scen! { wcap_set { use std::collections::HashSet; }
    setup {
        let (min, max) = (any(2) as usize, any(2) as usize);
        let p = WithCapacity::new().with_min_capacity(min).with_max_capacity(max);
        let mut v: HashSet<u64, hash::B> = p.new_element();
        assert(v.is_empty(), 2); assert(v.capacity() >= min, 3);
        if flip() { v.reserve(5); v.insert(1); }
        let had = v.capacity();
        p.recycle(&mut v);
        assert(v.is_empty(), 4);
        assert(v.capacity() >= if had < max { had } else { max }, 5);
        assert(v.capacity() <= had, 6);
        if had > 3 { assert(v.capacity() < had, 7) }
    }
}

// ------------------------------------------- elements after any number of laps around the ring
/// ghost 33: 1000 + alive
pub struct L { magic: u64 }
impl L {
    pub fn mk() -> L { ginc(33); L { magic: LIVE } }
    pub fn ok(&self) { assert(unsafe { core::ptr::read_volatile(&self.magic) } == LIVE, 210) }
}
impl Default for L { fn default() -> L { L::mk() } }
impl Clone for L { fn clone(&self) -> L { self.ok(); L::mk() } fn clone_from(&mut self, o: &L) { self.ok(); o.ok() } }
impl Drop for L { fn drop(&mut self) { self.ok(); unsafe { core::ptr::write_volatile(&mut self.magic, 0xdead) } gdec(33); } }
macro_rules! lapso { ($s:ident, $n:tt, $($k:tt)*) => { scen! { $s { qst!{L, $n} fn once() { assert(q().push_ref().is_ok(), 1); assert(q().pop_ref().is_some(), 2) } }
    setup {
        gset(33, 1000); mk(); let q = q();
        laps(q, || { once(); if CAP > 1 { once() } if CAP > 2 { once() } });
        assert(gget(33) == 1000 + CAP, 3);
        $( let _ = $k;
        match any(3) {
            0 => match q.push(L::mk()) { Ok(()) => {} Err(e) => e.into_inner().ok() },
            1 => if let Ok(r) = q.push_ref() { r.ok() },
            2 => if let Some(x) = q.pop() { x.ok() },
            _ => if let Some(r) = q.pop_ref() { r.ok() },
        }
        assert(gget(33) == 1000 + CAP, 4);
        )*
        end();
        assert(gget(33) == 1000, 5);
    }
} } }
lapso! { lapso1_s, 1, 1 2 3 }
lapso! { lapso2_s, 2, 1 2 3 4 }
lapso! { lapso3_s, 3, 1 2 3 4 }
