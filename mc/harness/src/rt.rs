//! Primitives the engine interprets. Everything here is a declaration: the
//! symbolic engine and the native replay runtime each provide the semantics.
use core::cell::UnsafeCell;
use core::future::Future;
use core::mem::MaybeUninit;
use core::pin::Pin;
use core::task::{Context, Poll, RawWaker, RawWakerVTable, Waker};

extern "C" {
    /// Property assertion `id` must hold here.
    fn vp_assert(cond: bool, id: u32);
    /// Restrict attention to executions where `cond` holds.
    fn vp_assume(cond: bool);
    /// Arbitrary value in `0..=max`.
    fn vp_any(max: u64) -> u64;
    /// Ghost registers: never part of the program, never scheduling points.
    fn vp_gset(i: u64, v: u64);
    fn vp_gget(i: u64) -> u64;
    /// Sleep until task `id` has been woken; consumes the wake-up.
    fn vp_wait(id: u64);
    /// A scheduling point of the harness itself.
    fn vp_yield();
    fn vp_wclone(id: u64);
    fn vp_wake(id: u64);
    fn vp_wdrop(id: u64);
    fn vp_wrefs(id: u64) -> u64;
    fn vp_woken(id: u64) -> u64;
    fn vp_now() -> u64;
    fn vp_unwinding(on: bool);
    fn vp_laps(p: *mut u64, n: u64, k: u64);
}

#[cfg(feature = "unwind")]
extern "C-unwind" { fn vp_throw() -> !; }
/// user code panics here
#[cfg(feature = "unwind")]
#[inline(always)] pub fn throw() -> ! { unsafe { vp_throw() } }
/// runs `f`; None if it panicked
#[cfg(feature = "unwind")]
#[inline(always)] pub fn catch<R>(f: impl FnOnce() -> R) -> Option<R> {
    let mut r = None;
    let _ = std::panic::catch_unwind(std::panic::AssertUnwindSafe(|| r = Some(f())));
    r
}

#[inline(always)] pub fn assert(c: bool, id: u32) { unsafe { vp_assert(c, id) } }
#[inline(always)] pub fn assume(c: bool) { unsafe { vp_assume(c) } }
#[inline(always)] pub fn any(max: u64) -> u64 { unsafe { vp_any(max) } }
#[inline(always)] pub fn flip() -> bool { any(1) == 1 }
#[inline(always)] pub fn gset(i: u64, v: u64) { unsafe { vp_gset(i, v) } }
#[inline(always)] pub fn gget(i: u64) -> u64 { unsafe { vp_gget(i) } }
#[inline(always)] pub fn ginc(i: u64) { gset(i, gget(i) + 1) }
#[inline(always)] pub fn gdec(i: u64) { gset(i, gget(i) - 1) }
#[inline(always)] pub fn yield_() { unsafe { vp_yield() } }
#[inline(always)] pub fn wait(id: u64) { unsafe { vp_wait(id) } }
/// wakers of task `id` currently alive
#[inline(always)] pub fn wrefs(id: u64) -> u64 { unsafe { vp_wrefs(id) } }
/// has task `id` been woken (and the wake-up not consumed by `wait`)?
#[inline(always)] pub fn woken(id: u64) -> bool { unsafe { vp_woken(id) == 1 } }
/// model time, in half seconds
#[inline(always)] pub fn now() -> u64 { unsafe { vp_now() } }
/// makes the queue (stored at `q`, without indirection) look as if it had been through any number of laps: `lap` takes it
/// around once
pub fn laps<T>(q: &T, mut lap: impl FnMut()) {
    let (p, n, k) = (q as *const T as *mut u64, core::mem::size_of::<T>() as u64, any((1 << 48) - 1));
    lap(); unsafe { vp_laps(p, n, 0) }
    lap(); unsafe { vp_laps(p, n, 0) }
    lap(); unsafe { vp_laps(p, n, k) }
}
/// from here on the calling thread is (or is no longer) unwinding from a panic
#[inline(always)] pub fn unwinding(on: bool) { unsafe { vp_unwinding(on) } }

/// A global handed from `setup` to exactly one thread (or to `fin`).
pub struct G<T>(UnsafeCell<MaybeUninit<T>>);
unsafe impl<T> Sync for G<T> {}
impl<T> G<T> {
    pub const fn new() -> Self { G(UnsafeCell::new(MaybeUninit::uninit())) }
    pub fn put(&self, t: T) { unsafe { (*self.0.get()).write(t); } }
    pub fn take(&self) -> T { unsafe { (*self.0.get()).assume_init_read() } }
    pub fn get(&self) -> &'static T { unsafe { &*(*self.0.get()).as_ptr() } }
    #[allow(clippy::mut_from_ref)]
    pub fn mut_(&self) -> &'static mut T { unsafe { &mut *(*self.0.get()).as_mut_ptr() } }
}

// --- wakers: one per task id, wake-ups counted by the engine
unsafe fn w_clone(p: *const ()) -> RawWaker {
    #[cfg(feature = "unwind")] if p as u64 == BAD_CLONE { throw() }
    vp_wclone(p as u64); RawWaker::new(p, &VT) }
unsafe fn w_wake(p: *const ()) { vp_wake(p as u64); vp_wdrop(p as u64);
    #[cfg(feature = "unwind")] if p as u64 == BAD_WAKE { throw() } }
unsafe fn w_wake_by_ref(p: *const ()) { vp_wake(p as u64) }
unsafe fn w_drop(p: *const ()) { vp_wdrop(p as u64) }
/// tasks whose waker panics when it is cloned (6) or woken (7)
pub const BAD_CLONE: u64 = 6;
pub const BAD_WAKE: u64 = 7;
static VT: RawWakerVTable = RawWakerVTable::new(w_clone, w_wake, w_wake_by_ref, w_drop);
pub fn waker(id: u64) -> Waker {
    unsafe { vp_wclone(id); Waker::from_raw(RawWaker::new(id as *const (), &VT)) }
}

/// a waker of task `id` with its own vtable; `$wake` runs after it has been woken, `$last` after the last
/// waker of the task has been dropped without a wake-up (user code inside the waker)
#[macro_export]
macro_rules! hooked {
    ($id:ident wake $wake:block last $last:block) => {
        unsafe fn h_clone(p: *const ()) -> core::task::RawWaker { wcount(p as u64, true); core::task::RawWaker::new(p, &HVT) }
        unsafe fn h_wake(p: *const ()) { let $id = p as u64; wake_(p as u64); wcount(p as u64, false); $wake }
        unsafe fn h_wake_by_ref(p: *const ()) { wake_(p as u64) }
        unsafe fn h_drop(p: *const ()) { let $id = p as u64; wcount(p as u64, false); if wrefs(p as u64) == 0 { $last } }
        static HVT: core::task::RawWakerVTable = core::task::RawWakerVTable::new(h_clone, h_wake, h_wake_by_ref, h_drop);
        pub fn hwaker(id: u64) -> core::task::Waker {
            wcount(id, true);
            unsafe { core::task::Waker::from_raw(core::task::RawWaker::new(id as *const (), &HVT)) }
        }
    };
}
pub fn wcount(id: u64, up: bool) { unsafe { if up { vp_wclone(id) } else { vp_wdrop(id) } } }
pub fn wake_(id: u64) { unsafe { vp_wake(id) } }

/// one poll of `f` on behalf of task `id`
#[inline(always)]
pub fn poll<F: Future>(f: &mut F, id: u64) -> Poll<F::Output> {
    let w = waker(id);
    let mut cx = Context::from_waker(&w);
    unsafe { Pin::new_unchecked(f) }.poll(&mut cx)
}
/// runs `f` to completion as task `id`, re-polling only when woken
#[inline(always)]
pub fn block_on<F: Future>(mut f: F, id: u64) -> F::Output {
    loop {
        if let Poll::Ready(x) = poll(&mut f, id) { return x }
        wait(id);
    }
}

/// Storage for a future of unnameable type; `_like` only names the type.
#[repr(align(128))]
pub struct Fut(UnsafeCell<MaybeUninit<[u64; 96]>>);
unsafe impl Sync for Fut {}
impl Fut {
    pub const fn new() -> Self { Fut(UnsafeCell::new(MaybeUninit::uninit())) }
    #[inline(always)]
    fn ptr<F>(&self) -> *mut F {
        const { core::assert!(core::mem::size_of::<F>() <= 768 && core::mem::align_of::<F>() <= 128) }
        self.0.get() as *mut F
    }
    #[inline(always)]
    pub fn put<F: Future>(&self, mk: impl Fn() -> F) { unsafe { self.ptr::<F>().write(mk()) } }
    #[inline(always)]
    pub fn poll<F: Future>(&self, _like: impl Fn() -> F, id: u64) -> Poll<F::Output> { unsafe { poll(&mut *self.ptr::<F>(), id) } }
    #[inline(always)]
    pub fn poll_with<F: Future>(&self, _like: impl Fn() -> F, w: &Waker) -> Poll<F::Output> {
        unsafe { Pin::new_unchecked(&mut *self.ptr::<F>()) }.poll(&mut Context::from_waker(w))
    }
    /// re-polled only when woken
    #[inline(always)]
    pub fn finish<F: Future>(&self, _like: impl Fn() -> F, id: u64) -> F::Output {
        loop { wait(id); if let Poll::Ready(x) = unsafe { poll(&mut *self.ptr::<F>(), id) } { return x } }
    }
    #[inline(always)]
    pub fn drop_<F: Future>(&self, _like: impl Fn() -> F) { unsafe { core::ptr::drop_in_place(self.ptr::<F>()) } }
}

#[macro_export]
macro_rules! exports {
    (@ [$($p:ident)*] $f:ident $body:block) => {
        #[export_name = concat!($(stringify!($p),)* "__", stringify!($f))]
        pub extern "C-unwind" fn $f() $body
    };
    ($p:tt $($f:ident $body:block)*) => {
        $( $crate::exports! { @ $p $f $body } )*
    };
}
/// one scenario: its own items, then the entry points
#[macro_export]
macro_rules! scen {
    ($scen:ident { $($items:tt)* } $($f:ident $body:block)*) => {
        #[allow(non_snake_case, unused_imports, dead_code)]
        mod $scen { use super::*; $($items)* $crate::exports! { [$scen] $($f $body)* } }
    };
}

// --- channels: the same scenario over the four flavours
/// async, heap allocated
#[macro_export]
macro_rules! flavour_ad { ($T:ty, $n:tt) => {
    use thingbuf::mpsc as m;
    pub type Tx = m::Sender<$T>; pub type Rx = m::Receiver<$T>;
    pub const ASYNC: bool = true; pub const STATIC: bool = false;
    pub fn ch() -> (Tx, Rx) { m::channel($n) }
    $crate::flavour_async! { $T, $n }
} }
/// async, static
#[macro_export]
macro_rules! flavour_as { ($T:ty, $n:tt) => {
    use thingbuf::mpsc as m;
    pub type Tx = m::StaticSender<$T>; pub type Rx = m::StaticReceiver<$T>;
    pub const ASYNC: bool = true; pub const STATIC: bool = true;
    pub static CH: m::StaticChannel<$T, $n> = m::StaticChannel::new();
    pub fn ch() -> (Tx, Rx) { CH.split() }
    $crate::flavour_async! { $T, $n }
} }
#[macro_export]
macro_rules! flavour_async { ($T:ty, $n:tt) => {
    pub const CAP: u64 = $n;
    pub fn send(tx: &Tx, v: $T, id: u64) -> Result<(), thingbuf::mpsc::errors::Closed<$T>> { block_on(tx.send(v), id) }
    pub fn recv(rx: &Rx, id: u64) -> Option<$T> { block_on(rx.recv(), id) }
    pub fn send_r<U>(tx: &Tx, id: u64, f: impl FnOnce(&mut $T) -> U) -> Option<U> {
        match block_on(tx.send_ref(), id) { Ok(mut r) => Some(f(&mut r)), Err(_) => None }
    }
    pub fn recv_r<U>(rx: &Rx, id: u64, f: impl FnOnce(&mut $T) -> U) -> Option<U> {
        match block_on(rx.recv_ref(), id) { Some(mut r) => Some(f(&mut r)), None => None }
    }
    $crate::flavour_all! {}
} }
/// blocking, heap allocated
#[macro_export]
macro_rules! flavour_bd { ($T:ty, $n:tt) => {
    use thingbuf::mpsc::blocking as m;
    pub type Tx = m::Sender<$T>; pub type Rx = m::Receiver<$T>;
    pub const ASYNC: bool = false; pub const STATIC: bool = false;
    pub fn ch() -> (Tx, Rx) { m::channel($n) }
    $crate::flavour_blocking! { $T, $n }
} }
/// blocking, static
#[macro_export]
macro_rules! flavour_bs { ($T:ty, $n:tt) => {
    use thingbuf::mpsc::blocking as m;
    pub type Tx = m::StaticSender<$T>; pub type Rx = m::StaticReceiver<$T>;
    pub const ASYNC: bool = false; pub const STATIC: bool = true;
    pub static CH: m::StaticChannel<$T, $n> = m::StaticChannel::new();
    pub fn ch() -> (Tx, Rx) { CH.split() }
    $crate::flavour_blocking! { $T, $n }
} }
#[macro_export]
macro_rules! flavour_blocking { ($T:ty, $n:tt) => {
    pub const CAP: u64 = $n;
    pub fn send(tx: &Tx, v: $T, _: u64) -> Result<(), thingbuf::mpsc::errors::Closed<$T>> { tx.send(v) }
    pub fn recv(rx: &Rx, _: u64) -> Option<$T> { rx.recv() }
    pub fn send_r<U>(tx: &Tx, _: u64, f: impl FnOnce(&mut $T) -> U) -> Option<U> {
        match tx.send_ref() { Ok(mut r) => Some(f(&mut r)), Err(_) => None }
    }
    pub fn recv_r<U>(rx: &Rx, _: u64, f: impl FnOnce(&mut $T) -> U) -> Option<U> {
        match rx.recv_ref() { Some(mut r) => Some(f(&mut r)), None => None }
    }
    $crate::flavour_all! {}
} }
#[macro_export]
macro_rules! flavour_all { () => {
    pub static TX: G<Tx> = G::new(); pub static TX2: G<Tx> = G::new(); pub static RX: G<Rx> = G::new();
    /// one sender
    pub fn mk1() { let (t, r) = ch(); TX.put(t); RX.put(r); }
    /// two senders
    pub fn mk2() { let (t, r) = ch(); TX2.put(t.clone()); TX.put(t); RX.put(r); }
} }
#[macro_export]
macro_rules! chans {
    (@ [$($p:ident)*] $fl:ident $m:ident $T:ty, $n:tt; {$($items:tt)*} $($r:tt)*) => {
        #[allow(non_snake_case, unused_imports, dead_code)]
        mod $m { use super::*; $crate::$fl! { $T, $n } $($items)* $crate::exports! { [$($p)*] $($r)* } }
    };
    // async only
    (async $scen:ident $T:ty, $n:tt; {$($items:tt)*} $($r:tt)*) => {
        #[allow(non_snake_case, unused_imports, dead_code)]
        mod $scen { use super::*;
            $crate::chans! { @ [$scen _ad] flavour_ad ad $T, $n; {$($items)*} $($r)* }
            $crate::chans! { @ [$scen _as] flavour_as as_ $T, $n; {$($items)*} $($r)* }
        }
    };
    // static only
    (statics $scen:ident $T:ty, $n:tt; {$($items:tt)*} $($r:tt)*) => {
        #[allow(non_snake_case, unused_imports, dead_code)]
        mod $scen { use super::*;
            $crate::chans! { @ [$scen _as] flavour_as as_ $T, $n; {$($items)*} $($r)* }
            #[cfg(feature = "std")]
            $crate::chans! { @ [$scen _bs] flavour_bs bs $T, $n; {$($items)*} $($r)* }
        }
    };
    // blocking only
    (blocking $scen:ident $T:ty, $n:tt; {$($items:tt)*} $($r:tt)*) => {
        #[cfg(feature = "std")]
        #[allow(non_snake_case, unused_imports, dead_code)]
        mod $scen { use super::*;
            $crate::chans! { @ [$scen _bd] flavour_bd bd $T, $n; {$($items)*} $($r)* }
            $crate::chans! { @ [$scen _bs] flavour_bs bs $T, $n; {$($items)*} $($r)* }
        }
    };
    // all four flavours
    ($scen:ident $T:ty, $n:tt; {$($items:tt)*} $($r:tt)*) => {
        #[allow(non_snake_case, unused_imports, dead_code)]
        mod $scen { use super::*;
            $crate::chans! { @ [$scen _ad] flavour_ad ad $T, $n; {$($items)*} $($r)* }
            $crate::chans! { @ [$scen _as] flavour_as as_ $T, $n; {$($items)*} $($r)* }
            #[cfg(feature = "std")]
            $crate::chans! { @ [$scen _bd] flavour_bd bd $T, $n; {$($items)*} $($r)* }
            #[cfg(feature = "std")]
            $crate::chans! { @ [$scen _bs] flavour_bs bs $T, $n; {$($items)*} $($r)* }
        }
    };
}
