//! User code that panics: wakers, closures, elements. (Panics unwind in this configuration.)
use crate::rt::*;
use crate::s_queue::{popped, pushed};
use core::future::Future;
use core::task::Poll;
use thingbuf::mpsc::errors::*;
use thingbuf::recycling::Recycle;
use thingbuf::{StaticThingBuf, ThingBuf};

// a waker that panics when cloned is handed to the receiver; afterwards a proper one
chans! { async pclr u64, 1; { pub fn fr() -> impl Future<Output = Option<u64>> { RX.get().recv() } pub static FR: Fut = Fut::new(); }
    setup { mk1(); if flip() { FR.put(fr); assert(FR.poll(fr, 2).is_pending(), 102); FR.drop_(fr) } }
    t0 { let tx = TX.take(); if flip() { gset(8, 1); assert(tx.try_send(1).is_ok(), 1) } gset(5, 1); drop(tx) }
    t1 { FR.put(fr);
        let r = match catch(|| FR.poll(fr, BAD_CLONE)) {
            Some(Poll::Ready(x)) => x,
            _ => { FR.drop_(fr); FR.put(fr); recv(RX.get(), 2) }
        };
        if gget(8) == 1 { assert(r == Some(1), 2) } else { assert(r.is_none(), 3); assert(gget(5) == 1, 4) }
        FR.drop_(fr); drop(RX.take()) }
    fin { }
}
// the same for a sender that has to wait
chans! { async pcls u64, 1; { pub fn fa() -> impl Future<Output = Result<(), Closed<u64>>> { TX.get().send(0x11) } pub static FA: Fut = Fut::new(); }
    setup { mk2(); assert(TX.get().try_send(0x01).is_ok(), 101); }
    t0 { FA.put(fa);
        match catch(|| FA.poll(fa, BAD_CLONE)) { Some(Poll::Ready(x)) => { assert(x.is_ok(), 1); gset(8, 1) }
            Some(Poll::Pending) => gset(9, 1), None => {} }
        FA.drop_(fa); }
    t1 { assert(send(TX2.get(), 0x21, 1).is_ok(), 2); }
    t2 { let rx = RX.get(); assert(recv(rx, 2) == Some(0x01), 3);
        match recv(rx, 2) { Some(0x21) => {} Some(0x11) => assert(recv(rx, 2) == Some(0x21), 4), _ => assert(false, 5) } }
    fin { assert(gget(9) == 0, 6) }
}
// sequentially: a (waiting) sender is polled with a waker that panics when cloned, and is gone; another one waits
chans! { async pclc u64, 1; {
        pub fn fa() -> impl Future<Output = Result<(), Closed<u64>>> { TX.get().send(0x11) } pub static FA: Fut = Fut::new();
        pub fn fb() -> impl Future<Output = Result<(), Closed<u64>>> { TX2.get().send(0x21) } pub static FB: Fut = Fut::new(); }
    setup { mk2(); assert(TX.get().try_send(0x01).is_ok(), 101); FA.put(fa); FB.put(fb);
        let first = flip();
        if first { assert(FB.poll(fb, 1).is_pending(), 1) }
        if flip() { assert(FA.poll(fa, 0).is_pending(), 2) }
        assert(catch(|| FA.poll(fa, BAD_CLONE)).is_none(), 3);
        assert(wrefs(0) == 0, 4);
        if !first { assert(FB.poll(fb, 1).is_pending(), 5) }
        if flip() { FA.drop_(fa) }
        assert(!woken(1), 6);
        let again = flip();
        if again { assert(RX.get().try_recv() == Ok(0x01), 7) } else { drop(RX.take()) }
        assert(woken(1), 8);
        match FB.poll(fb, 1) { Poll::Ready(r) => assert(r.is_ok() == again, 9), Poll::Pending => assert(false, 10) }
        FB.drop_(fb); assert(wrefs(1) == 0, 11);
        if again { assert(RX.get().try_recv() == Ok(0x21), 12) }
    }
}
// the waker of the waiting receiver panics when it is woken
chans! { async pwkr u64, 2; { pub fn fr() -> impl Future<Output = Option<u64>> { RX.get().recv() } pub static FR: Fut = Fut::new(); }
    setup { mk2(); FR.put(fr); assert(FR.poll(fr, BAD_WAKE).is_pending(), 102); FR.drop_(fr) }
    t0 { let tx = TX.take(); if let Some(r) = catch(|| tx.try_send(0x11)) { assert(r.is_ok(), 1) } ginc(5); let _ = catch(move || drop(tx)); }
    t1 { let tx = TX2.take(); ginc(5); let _ = catch(move || drop(tx)); }
    t2 { let rx = RX.take(); assert(recv(&rx, 2) == Some(0x11), 2); assert(recv(&rx, 2).is_none(), 3); assert(gget(5) == 2, 4); drop(rx); }
}
// the waker of the first of two waiting senders panics when it is woken
chans! { async pwks u64, 1; {
        pub fn fa() -> impl Future<Output = Result<(), Closed<u64>>> { TX.get().send(0x11) } pub static FA: Fut = Fut::new();
        pub fn fb() -> impl Future<Output = Result<(), Closed<u64>>> { TX2.get().send(0x21) } pub static FB: Fut = Fut::new(); }
    setup { mk2(); assert(TX.get().try_send(0x01).is_ok(), 101);
        FA.put(fa); FB.put(fb); assert(FA.poll(fa, BAD_WAKE).is_pending(), 102); assert(FB.poll(fb, 1).is_pending(), 103); }
    t0 { let _ = catch(|| FA.drop_(fa)); }
    t1 { let r = FB.finish(fb, 1); if gget(6) == 0 { assert(r.is_ok(), 1) } }
    t2 { if flip() { let rx = RX.get();
            if let Some(x) = catch(|| rx.try_recv()) { assert(x == Ok(0x01), 2) }
            assert(recv(rx, 2) == Some(0x21), 3);
        } else { gset(6, 1); let _ = catch(|| drop(RX.take())); } }
    fin { FB.drop_(fb); }
}
// closures that panic inside a reference
macro_rules! pwith { ($d:ident $s:ident, $n:tt) => { both! { $d $s u64, $n;
    setup { mk(); let q = q();
        if flip() { assert(q.push(9).is_ok(), 1); assert(q.pop() == Some(9), 2); }
        let mut len = 0;
        if CAP > 1 && flip() { assert(q.push(8).is_ok(), 3); len += 1; }
        assert(catch(|| q.push_with(|x| { *x = 1; throw() })).is_none(), 4);
        len += 1;
        assert(q.len() == len, 5);
        if len == 2 { assert(q.pop() == Some(8), 6) }
        if flip() { assert(catch(|| q.pop_with(|x| { assert(*x == 1, 7); throw() })).is_none(), 8); }
        else { assert(catch(|| { let r = q.pop_ref(); if let Some(r) = &r { assert(**r == 1, 7) } throw() }).is_none(), 8); }
        assert(q.len() == 0, 9);
        assert(q.push(3).is_ok(), 10); assert(q.pop() == Some(3), 11); assert(q.pop().is_none(), 12);
        end();
    }
} } }
pwith! { pwith1_d pwith1_s, 1 }
pwith! { pwith2_d pwith2_s, 2 }
// a thread dies in the middle of using references; the other side goes on
chans! { pdie u64, 1; {}
    setup { mk2(); }
    t0 { let tx = TX.take(); ginc(5); send_r(&tx, 0, |x| { *x = 1; throw() }); }
    t1 { let tx = TX2.take(); if flip() { gset(8, 1); assert(send(&tx, 2, 1).is_ok(), 1) } ginc(5); drop(tx) }
    t2 { let rx = RX.take(); let mut n = 0;
        if let Some(x) = recv(&rx, 2) { n += x } else { assert(false, 2) }
        if gget(8) == 1 || gget(5) < 2 { if let Some(x) = recv(&rx, 2) { n += x; assert(recv(&rx, 2).is_none(), 3) } } else { assert(recv(&rx, 2).is_none(), 3) }
        assert(gget(5) == 2, 4);
        assert(n == 1 + 2 * gget(8), 5); drop(rx) }
}
chans! { pdier u64, 1; {}
    setup { mk1(); assert(TX.get().try_send(1).is_ok(), 101); }
    t0 { let tx = TX.take(); let a = send(&tx, 2, 0); if a.is_err() { assert(gget(6) == 1, 1) }
        match send(&tx, 3, 0) { Ok(()) => {} Err(e) => { assert(gget(6) == 1, 2); assert(e.into_inner() == 3, 3) } } 
        match send(&tx, 4, 0) { Ok(()) => assert(false, 4), Err(e) => { assert(gget(6) == 1, 2); assert(e.into_inner() == 4, 3) } } drop(tx) }
    t1 { let rx = RX.take(); gset(6, 1); recv_r(&rx, 1, |x| { assert(*x == 1, 5); throw() }); }
}

// elements whose constructor, recycling or destructor panics
const LIVE: u64 = 0x5aa5;
pub struct E { magic: u64, bad: bool }
impl E { fn mk() -> E { ginc(31); E { magic: LIVE, bad: false } } fn ok(&self) { assert(unsafe { core::ptr::read_volatile(&self.magic) } == LIVE, 200) } }
impl Drop for E { fn drop(&mut self) { self.ok(); unsafe { core::ptr::write_volatile(&mut self.magic, 0xdead) } gdec(31); if self.bad { throw() } } }
pub struct P;
impl Recycle<E> for P {
    fn new_element(&self) -> E { if gget(9) == 1 { throw() } E::mk() }
    fn recycle(&self, e: &mut E) { e.ok(); if gget(9) == 2 { throw() } e.bad = false }
}
macro_rules! pel { ($s:ident { $($i:tt)* } $n:tt) => { scen! { $s { pub const CAP: usize = $n; $($i)* }
    setup { gset(31, 1000); mk(); let q = q();
        if flip() { assert(q.push(E::mk()).is_ok(), 1); if flip() { match q.pop() { Some(x) => x.ok(), None => assert(false, 2) } } }
        gset(9, any(2));
        let r = catch(|| { if let Ok(r) = q.push_ref() { r.ok() } });
        if r.is_none() { assert(gget(9) != 0, 3) }
        gset(9, 0);
        if flip() { if let Some(r) = q.pop_ref() { r.ok() } }
        if let Ok(r) = q.push_ref() { r.ok() }
        end();
        assert(gget(31) >= 1000, 4); assert(gget(31) <= 1000 + 1, 5);
    }
} } }
macro_rules! qp_d { () => { pub static QQ: G<ThingBuf<E, P>> = G::new(); pub fn mk() { QQ.put(ThingBuf::with_recycle(CAP, P)) }
    pub fn q() -> &'static ThingBuf<E, P> { QQ.get() } pub fn end() { drop(QQ.take()) } } }
macro_rules! qp_s { () => { pub static QQ: G<StaticThingBuf<E, CAP, P>> = G::new(); pub fn mk() { QQ.put(StaticThingBuf::with_recycle(P)) }
    pub fn q() -> &'static StaticThingBuf<E, CAP, P> { QQ.get() } pub fn end() { unsafe { core::ptr::drop_in_place(QQ.mut_()) } } } }
pel! { pel1_d { qp_d!{} } 1 }
pel! { pel1_s { qp_s!{} } 1 }
pel! { pel2_d { qp_d!{} } 2 }
pel! { pel2_s { qp_s!{} } 2 }
// the destructor of an element panics: while it is overwritten, popped or when the queue goes away
macro_rules! pdr { ($s:ident { $($i:tt)* } $n:tt) => { scen! { $s { pub const CAP: usize = $n; $($i)* }
    setup { gset(31, 1000); mk(); let q = q();
        if flip() { assert(q.push(E::mk()).is_ok(), 1); if flip() { match q.pop() { Some(x) => x.ok(), None => assert(false, 2) } } }
        if let Ok(mut r) = q.push_ref() { r.ok(); r.bad = true }
        match any(3) {
            0 => { let _ = catch(|| if let Ok(mut r) = q.push_ref() { r.bad = true; *r = E::mk() }); }
            1 => { let _ = catch(|| { let _ = q.pop(); }); }
            2 => { let _ = catch(|| { if let Some(mut r) = q.pop_ref() { r.bad = true; *r = E::mk() } }); }
            _ => {}
        }
        if flip() { if let Some(r) = q.pop_ref() { r.ok() } }
        assert(q.len() <= CAP, 3);
        let _ = catch(end);
        assert(gget(31) >= 1000, 4);
    }
} } }
pdr! { pdr1_d { qp_d!{} } 1 }
pdr! { pdr1_s { qp_s!{} } 1 }
pdr! { pdr2_d { qp_d!{} } 2 }
pdr! { pdr2_s { qp_s!{} } 2 }
