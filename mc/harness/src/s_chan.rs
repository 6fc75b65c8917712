//! Channels: delivery, waking, closing, cancelling.
use crate::rt::*;
use crate::s_queue::{popped, pushed};
use thingbuf::mpsc::errors::*;

// ghost 5: sender drops begun, 6: receiver drop begun, 7: receiver drop finished

// one sender, one receiver: everything arrives in order, then closed for good
macro_rules! fifo { ($s:ident, $n:tt) => { chans! { $s u64, $n; {}
    setup { mk1(); }
    t0 { let tx = TX.take();
        assert(send(&tx, 1, 0).is_ok(), 1);
        assert(send(&tx, 2, 0).is_ok(), 2);
        gset(5, 1); drop(tx);
    }
    t1 { let rx = RX.take();
        assert(recv(&rx, 1) == Some(1), 3);
        assert(recv(&rx, 1) == Some(2), 4);
        assert(recv(&rx, 1).is_none(), 5);
        assert(gget(5) == 1, 6);
        assert(recv(&rx, 1).is_none(), 7);
        drop(rx);
    }
} } }
fifo! { fifo1, 1 }
fifo! { fifo2, 2 }

// two senders, by value; senders leave when done
macro_rules! two { ($s:ident, $n:tt) => { chans! { $s u64, $n; {}
    setup { mk2(); }
    t0 { let tx = TX.take(); assert(send(&tx, 0x11, 0).is_ok(), 1); pushed(0x11); ginc(5); drop(tx); }
    t1 { let tx = TX2.take(); assert(send(&tx, 0x21, 1).is_ok(), 2); pushed(0x21); ginc(5); drop(tx); }
    t2 { let rx = RX.take();
        match recv(&rx, 2) { Some(x) => popped(x), None => assert(false, 3) }
        match recv(&rx, 2) { Some(x) => popped(x), None => assert(false, 4) }
        assert(recv(&rx, 2).is_none(), 5);
        assert(gget(5) == 2, 6);
        drop(rx);
    }
    fin { settle!(0x11 0x21); }
} } }
two! { two1, 1 }
two! { two2, 2 }

// the same by reference
macro_rules! twor { ($s:ident, $n:tt) => { chans! { $s u64, $n; {}
    setup { mk2(); }
    t0 { let tx = TX.take(); assert(send_r(&tx, 0, |x| *x = 0x11).is_some(), 1); pushed(0x11); ginc(5); drop(tx); }
    t1 { let tx = TX2.take(); assert(send_r(&tx, 1, |x| *x = 0x21).is_some(), 2); pushed(0x21); ginc(5); drop(tx); }
    t2 { let rx = RX.take();
        match recv_r(&rx, 2, |x| *x) { Some(x) => popped(x), None => assert(false, 3) }
        match recv_r(&rx, 2, |x| *x) { Some(x) => popped(x), None => assert(false, 4) }
        assert(recv_r(&rx, 2, |x| *x).is_none(), 5);
        assert(gget(5) == 2, 6);
        drop(rx);
    }
    fin { settle!(0x11 0x21); }
} } }
twor! { twor1, 1 }

// the channel never fills: receiver against try_send; the senders stay alive
chans! { wake2 u64, 2; {}
    setup { mk2(); }
    t0 { assert(TX.get().try_send(0x11).is_ok(), 1); pushed(0x11); }
    t1 { assert(TX2.get().try_send(0x21).is_ok(), 2); pushed(0x21); }
    t2 { let rx = RX.get();
        match recv(rx, 2) { Some(x) => popped(x), None => assert(false, 3) }
        match recv(rx, 2) { Some(x) => popped(x), None => assert(false, 4) }
    }
    fin { settle!(0x11 0x21); }
}
// one sender leaves, the other sends
chans! { leave2 u64, 2; {}
    setup { mk2(); }
    t0 { let tx = TX.take(); assert(tx.try_send(0x11).is_ok(), 1); pushed(0x11); ginc(5); drop(tx); }
    t1 { let tx = TX2.take(); ginc(5); drop(tx); }
    t2 { let rx = RX.take();
        match recv(&rx, 2) { Some(x) => popped(x), None => assert(false, 3) }
        assert(recv(&rx, 2).is_none(), 4);
        assert(gget(5) == 2, 6);
        drop(rx);
    }
    fin { settle!(0x11); }
}
// the last sender leaves without sending
chans! { leave0 u64, 1; {}
    setup { mk2(); }
    t0 { let tx = TX.take(); ginc(5); drop(tx); }
    t1 { let tx = TX2.take(); ginc(5); drop(tx); }
    t2 { let rx = RX.take(); assert(recv(&rx, 2).is_none(), 3); assert(gget(5) == 2, 6); drop(rx); }
}
// a clone is made and dropped while the receiver waits
chans! { clone1 u64, 2; {}
    setup { mk1(); }
    t0 { let tx = TX.take(); let t2 = tx.clone(); drop(tx); assert(t2.try_send(1).is_ok(), 1); gset(5, 1); drop(t2); }
    t1 { let rx = RX.take();
        assert(recv(&rx, 1) == Some(1), 2);
        assert(recv(&rx, 1).is_none(), 3); assert(gget(5) == 1, 4);
        drop(rx);
    }
}

// the channel is full and two senders wait; nobody ever leaves
macro_rules! full { ($s:ident, $n:tt) => { chans! { $s u64, $n; {}
    setup { mk2(); assert(TX.get().try_send(0x01).is_ok(), 1); pushed(0x01);
        if CAP == 2 { assert(TX.get().try_send(0x12).is_ok(), 1); pushed(0x12); } }
    t0 { assert(send(TX.get(), 0x11, 0).is_ok(), 2); pushed(0x11); }
    t1 { assert(send(TX2.get(), 0x21, 1).is_ok(), 3); pushed(0x21); }
    t2 { let rx = RX.get();
        assert(recv(rx, 2) == Some(0x01), 4); popped(0x01);
        if CAP == 2 { assert(recv(rx, 2) == Some(0x12), 4); popped(0x12); }
        match recv(rx, 2) { Some(x) => popped(x), None => assert(false, 5) }
        match recv(rx, 2) { Some(x) => popped(x), None => assert(false, 6) }
    }
    fin { settle!(0x01 0x11 0x21); }
} } }
full! { full1, 1 }
full! { full2, 2 }

// the receiver goes away while senders wait
chans! { shut1 u64, 1; {}
    setup { mk2(); assert(TX.get().try_send(0x01).is_ok(), 1); }
    t0 { match send(TX.get(), 0x11, 0) { Ok(()) => assert(false, 2), Err(e) => { assert(gget(6) == 1, 3); assert(e.into_inner() == 0x11, 4) } } }
    t1 { match send(TX2.get(), 0x21, 1) { Ok(()) => assert(false, 5), Err(e) => { assert(gget(6) == 1, 6); assert(e.into_inner() == 0x21, 7) } } }
    t2 { let rx = RX.take(); gset(6, 1); drop(rx); gset(7, 1); }
    fin { let tx = TX.take(); drop(TX2.take());
        match tx.try_send(5) { Err(TrySendError::Closed(5)) => {} _ => assert(false, 8) }
    }
}
chans! { shut2 u64, 1; {}
    setup { mk2(); assert(TX.get().try_send(0x01).is_ok(), 1); }
    t0 { match send(TX.get(), 0x11, 0) { Ok(()) => ginc(8), Err(e) => { assert(gget(6) == 1, 3); assert(e.into_inner() == 0x11, 4) } } }
    t1 { let a = gget(7); match send(TX2.get(), 0x21, 1) { Ok(()) => { assert(a == 0, 5); ginc(8) },
         Err(e) => { assert(gget(6) == 1, 6); assert(e.into_inner() == 0x21, 7) } } }
    t2 { let rx = RX.take(); assert(recv(&rx, 2) == Some(1), 8); gset(6, 1); drop(rx); gset(7, 1); }
    fin { assert(gget(8) <= 1, 9); }
}

// the receiver goes away while there is room
chans! { shutf u64, 2; {}
    setup { mk2(); }
    t0 { let a = gget(7); match send(TX.get(), 0x11, 0) { Ok(()) => assert(a == 0, 2), Err(e) => { assert(gget(6) == 1, 3); assert(e.into_inner() == 0x11, 4) } } }
    t1 { let a = gget(7); match send(TX2.get(), 0x21, 1) { Ok(()) => assert(a == 0, 5), Err(e) => { assert(gget(6) == 1, 6); assert(e.into_inner() == 0x21, 7) } } }
    t2 { let rx = RX.take(); gset(6, 1); drop(rx); gset(7, 1); }
    fin { let tx = TX.take(); drop(TX2.take());
        match tx.try_send(5) { Err(TrySendError::Closed(5)) => {} _ => assert(false, 8) }
    }
}
// somebody else may take the capacity a woken sender was promised: it waits again, and is served in the end
chans! { steal u64, 1; {}
    setup { mk2(); assert(TX.get().try_send(0x01).is_ok(), 1); }
    t0 { assert(send(TX.get(), 0x11, 0).is_ok(), 2) }
    t1 { let rx = RX.get(); assert(recv(rx, 1) == Some(1), 3);
        match recv(rx, 1) { Some(0x11) => {} Some(x) => { assert(x == 0x21, 4); assert(recv(rx, 1) == Some(0x11), 5) } None => assert(false, 6) } }
    t2 { let _ = TX2.get().try_send(0x21).is_ok(); }
}

// the iterator ends when the senders are gone and everything has been taken
chans! { blocking iter2 u64, 2; {}
    setup { mk2(); }
    t0 { let tx = TX.take(); assert(tx.try_send(0x11).is_ok(), 1); pushed(0x11); ginc(5); drop(tx); }
    t1 { let tx = TX2.take(); if flip() { gset(8, 1); assert(tx.try_send(0x21).is_ok(), 1); pushed(0x21) } ginc(5); drop(tx); }
    t2 { let rx = RX.take(); let mut i = &rx;
        match i.next() { Some(x) => popped(*x), None => assert(false, 3) }
        match i.next() { Some(x) => { assert(gget(8) == 1, 4); popped(*x); assert(i.next().is_none(), 5) } None => assert(gget(8) == 0, 6) }
        assert(gget(5) == 2, 7);
        drop(rx); }
}

// after any number of laps around the ring (static channels)
macro_rules! claps { ($s:ident, $n:tt) => { chans! { statics $s u64, $n; { fn once() { assert(TX.get().try_send(90).is_ok(), 1); assert(RX.get().try_recv() == Ok(90), 2) } }
    setup { mk1(); laps(&CH, || { once(); if CAP > 1 { once() } }); }
    t0 { let tx = TX.take();
        assert(send(&tx, 1, 0).is_ok(), 3);
        assert(send(&tx, 2, 0).is_ok(), 4);
        gset(5, 1); drop(tx);
    }
    t1 { let rx = RX.take();
        assert(recv(&rx, 1) == Some(1), 5);
        assert(recv(&rx, 1) == Some(2), 6);
        assert(recv(&rx, 1).is_none(), 7);
        assert(gget(5) == 1, 8);
        drop(rx);
    }
} } }
claps! { claps1, 1 }
claps! { claps2, 2 }
// the receiver goes away after any number of laps
chans! { statics clapx u64, 1; { fn once() { assert(TX.get().try_send(90).is_ok(), 1); assert(RX.get().try_recv() == Ok(90), 2) } }
    setup { mk1(); laps(&CH, once); if flip() { gset(1, 1); assert(TX.get().try_send(1).is_ok(), 3); } }
    t0 { let gone = gget(7); match TX.get().try_send(2) {
        Ok(()) => assert(gone == 0 && gget(1) == 0, 4),
        Err(TrySendError::Closed(v)) => assert(v == 2 && gget(6) == 1, 5),
        Err(TrySendError::Full(v)) => assert(v == 2 && gget(1) == 1, 6),
        _ => assert(false, 7) }
    }
    t1 { gset(6, 1); drop(RX.take()); gset(7, 1); }
    fin { match send(TX.get(), 3, 0) { Err(e) => assert(e.into_inner() == 3, 8), Ok(()) => assert(false, 9) } }
}
