//! Channels: C01 delivery, C02 wake-ups, C03 capacity, C04 closure.
use crate::h::*;
use crate::{s, Scn};
use futures::channel::mpsc::{self, Receiver, Sender, UnboundedReceiver, UnboundedSender};
use futures::future::poll_fn;
use futures::{FutureExt, Sink, SinkExt, Stream, StreamExt};
use futures_core::FusedStream;
use std::pin::Pin;
use std::task::{Context, Poll};

/// Receives everything until the end of the stream, checking per-sender order; returns how many.
/// Message values are sender * 10 + sequence number.
fn drain<R: Stream<Item = Tok> + Unpin + FusedStream>(rx: &mut R) -> Vec<u64> {
    let mut v = vec![];
    while let Some(t) = block_on(rx.next()) {
        v.push(t.0);
        obs(t.0);
    }
    check!(rx.is_terminated(), "stream ended but is_terminated() is false");
    order(&v);
    v
}
fn order(v: &[u64]) {
    for i in 0..v.len() {
        for j in 0..i {
            check!(v[i] != v[j], "message {} delivered twice", v[i]);
            check!(v[i] / 10 != v[j] / 10 || v[j] < v[i], "message {} overtook {}", v[j], v[i]);
        }
    }
}

// ---- C01: exactly once, in order -----------------------------------------------------------

fn unbounded_2s() {
    let (tx, mut rx) = mpsc::unbounded::<Tok>();
    let tx2 = tx.clone();
    let a = spawn(move || {
        check!(tx.unbounded_send(Tok::new(10)).is_ok(), "send failed");
        check!(tx.unbounded_send(Tok::new(11)).is_ok(), "send failed");
    });
    let b = spawn(move || {
        check!(tx2.unbounded_send(Tok::new(20)).is_ok(), "send failed");
    });
    let v = drain(&mut rx);
    check!(v.len() == 3, "{} of 3 messages arrived", v.len());
    join(a);
    join(b);
    drop((rx, v));
    Tok::check_all();
}

fn bounded(buf: usize, n1: u64, n2: u64) {
    let (tx, mut rx) = mpsc::channel::<Tok>(buf);
    let mut tx2 = tx.clone();
    let a = spawn(move || {
        let mut tx = tx;
        for i in 0..n1 {
            check!(block_on(tx.send(Tok::new(10 + i))).is_ok(), "send failed");
        }
    });
    let b = spawn(move || {
        for i in 0..n2 {
            check!(block_on(tx2.send(Tok::new(20 + i))).is_ok(), "send failed");
        }
    });
    let v = drain(&mut rx);
    check!(v.len() as u64 == n1 + n2, "{} of {} messages arrived", v.len(), n1 + n2);
    join(a);
    join(b);
    drop((rx, v));
    Tok::check_all();
}
fn bounded0_2s() {
    bounded(0, 2, 1)
}
fn bounded1_2s() {
    bounded(1, 2, 1)
}
fn bounded0_1s() {
    // one sender, one receiver, deeper
    let (mut tx, mut rx) = mpsc::channel::<Tok>(0);
    let a = spawn(move || {
        for i in 0..2 {
            check!(block_on(tx.send(Tok::new(10 + i))).is_ok(), "send failed");
        }
    });
    let v = drain(&mut rx);
    check!(v.len() == 2, "{} of 2 messages arrived", v.len());
    join(a);
    drop((rx, v));
    Tok::check_all();
}
/// A producer whose closing is the only event after the last message.
fn unbounded_1s() {
    let (tx, mut rx) = mpsc::unbounded::<Tok>();
    let a = spawn(move || {
        check!(tx.unbounded_send(Tok::new(10)).is_ok(), "send failed");
        check!(tx.unbounded_send(Tok::new(11)).is_ok(), "send failed");
    });
    let v = drain(&mut rx);
    check!(v.len() == 2, "{} of 2 messages arrived", v.len());
    join(a);
    drop((rx, v));
    Tok::check_all();
}
/// The receiver goes away in the middle: every message is delivered, returned, or dropped once.
fn rx_drop<T: 'static, R: 'static>(
    mk: fn() -> (T, R),
    cl: fn(&T) -> T,
    send: fn(&mut T, Tok) -> Option<Tok>,
    recv: fn(&mut R) -> Option<Tok>,
) {
    let (mut tx, mut rx) = mk();
    let mut tx2 = cl(&tx);
    // a sender that stays must not keep undelivered messages alive
    let stay = flip().then(|| cl(&tx));
    let a = spawn(move || {
        obs(send(&mut tx, Tok::new(10)).is_some() as u64);
        obs(send(&mut tx, Tok::new(11)).is_some() as u64);
    });
    let b = spawn(move || {
        obs(send(&mut tx2, Tok::new(20)).is_some() as u64);
    });
    if flip() {
        obs(recv(&mut rx).map_or(0, |t| t.0));
    }
    drop(rx);
    join(a);
    join(b);
    Tok::check_all();
    drop(stay);
}
fn unbounded_rx_drop() {
    rx_drop(
        mpsc::unbounded,
        |t: &UnboundedSender<Tok>| t.clone(),
        |t, v| t.unbounded_send(v).err().map(|e| e.into_inner()),
        |r: &mut UnboundedReceiver<Tok>| block_on(r.next()),
    )
}
fn bounded_rx_drop() {
    rx_drop(
        || mpsc::channel(0),
        |t: &Sender<Tok>| t.clone(),
        |t, v| t.try_send(v).err().map(|e| e.into_inner()),
        |r: &mut Receiver<Tok>| block_on(r.next()),
    )
}
/// Polling by try_recv only.
fn try_recv_loop() {
    let (tx, mut rx) = mpsc::unbounded::<Tok>();
    let tx2 = tx.clone();
    let a = spawn(move || {
        check!(tx.unbounded_send(Tok::new(10)).is_ok(), "send failed");
    });
    let b = spawn(move || {
        check!(tx2.unbounded_send(Tok::new(20)).is_ok(), "send failed");
    });
    let mut v = vec![];
    loop {
        match rx.try_recv() {
            Ok(t) => v.push(t.0),
            Err(e) if e.is_closed() => break,
            Err(_) => yield_now(),
        }
    }
    order(&v);
    check!(v.len() == 2, "{} of 2 messages arrived", v.len());
    join(a);
    join(b);
    drop((rx, v));
    Tok::check_all();
}
fn bounded_try_recv_loop() {
    let (mut tx, mut rx) = mpsc::channel::<Tok>(0);
    let a = spawn(move || {
        check!(block_on(tx.feed(Tok::new(10))).is_ok(), "feed failed");
        check!(block_on(tx.feed(Tok::new(11))).is_ok(), "feed failed");
        let _ = block_on(tx.close());
    });
    let mut v = vec![];
    loop {
        match rx.try_recv() {
            Ok(t) => v.push(t.0),
            Err(e) if e.is_closed() => break,
            Err(_) => yield_now(),
        }
    }
    order(&v);
    check!(v.len() == 2, "{} of 2 messages arrived", v.len());
    join(a);
    drop((rx, v));
    Tok::check_all();
}
/// Messages sent before (in happens-before order) another sender's message arrive first.
fn causal() {
    let (tx, mut rx) = mpsc::unbounded::<Tok>();
    let tx2 = tx.clone();
    let flag = std::sync::Arc::new(std::sync::atomic::AtomicBool::new(false));
    let f2 = flag.clone();
    let a = spawn(move || {
        check!(tx.unbounded_send(Tok::new(10)).is_ok(), "send failed");
        f2.store(true, std::sync::atomic::Ordering::Release);
    });
    let b = spawn(move || {
        let seen = flag.load(std::sync::atomic::Ordering::Acquire);
        obs(seen as u64);
        check!(tx2.unbounded_send(Tok::new(if seen { 30 } else { 20 })).is_ok(), "send failed");
    });
    let v = drain(&mut rx);
    check!(v.len() == 2, "{} of 2 messages arrived", v.len());
    check!(v != [30, 10], "a later message overtook an earlier one");
    join(a);
    join(b);
    drop((rx, v));
    Tok::check_all();
}
/// A sender cloned while another one is dropped: the channel stays open.
fn clone_race() {
    let (tx, mut rx) = mpsc::unbounded::<Tok>();
    let tx2 = tx.clone();
    let a = spawn(move || {
        drop(tx);
    });
    let b = spawn(move || {
        let t3 = tx2.clone();
        drop(tx2);
        check!(t3.unbounded_send(Tok::new(30)).is_ok(), "send failed while a sender and the receiver live");
    });
    let v = drain(&mut rx);
    check!(v == [30], "message lost: {v:?}");
    join(a);
    join(b);
    drop((rx, v));
    Tok::check_all();
}
fn clone_race_bounded() {
    let (tx, mut rx) = mpsc::channel::<Tok>(0);
    let tx2 = tx.clone();
    let a = spawn(move || {
        drop(tx);
    });
    let b = spawn(move || {
        let mut t3 = tx2.clone();
        drop(tx2);
        check!(t3.try_send(Tok::new(30)).is_ok(), "send failed while a sender and the receiver live");
    });
    let v = drain(&mut rx);
    check!(v == [30], "message lost: {v:?}");
    join(a);
    join(b);
    drop((rx, v));
    Tok::check_all();
}

// ---- C02: wake-ups ---------------------------------------------------------------------------

/// A parked sender is woken when the receiver takes a message, closes, or is dropped.
fn parked_sender(how: u8) {
    let (mut tx, mut rx) = mpsc::channel::<Tok>(0);
    check!(tx.try_send(Tok::new(10)).is_ok(), "first send failed");
    let a = spawn(move || {
        let r = block_on(poll_fn(|cx| tx.poll_ready(cx)));
        obs(r.is_ok() as u64);
        if how == 0 {
            check!(r.is_ok(), "sender reported disconnected");
        }
        if r.is_ok() {
            let _ = tx.start_send(Tok::new(11));
        }
    });
    match how {
        0 => {
            let v = drain(&mut rx);
            check!(v == [10, 11], "{v:?}");
        }
        1 => rx.close(),
        _ => {}
    }
    if how == 2 {
        drop(rx);
        join(a);
    } else {
        join(a);
        drop(rx);
    }
    Tok::check_all();
}
fn parked_sender_recv() {
    parked_sender(0)
}
fn parked_sender_close() {
    parked_sender(1)
}
fn parked_sender_rx_drop() {
    parked_sender(2)
}
/// Two parked senders, all must get through as the receiver drains.
fn two_parked() {
    let (tx, mut rx) = mpsc::channel::<Tok>(0);
    let mk = |mut tx: Sender<Tok>, base: u64| {
        check!(tx.try_send(Tok::new(base)).is_ok(), "guaranteed slot refused");
        spawn(move || {
            check!(block_on(tx.send(Tok::new(base + 1))).is_ok(), "send failed");
        })
    };
    let a = mk(tx.clone(), 10);
    let b = mk(tx, 20);
    let v = drain(&mut rx);
    check!(v.len() == 4, "{v:?}");
    join(a);
    join(b);
    drop((rx, v));
    Tok::check_all();
}
/// A parked receiver is woken by a message, by close_channel, by disconnect and by drop.
fn parked_receiver_unbounded() {
    let (mut tx, mut rx) = mpsc::unbounded::<Tok>();
    let how = choose(4);
    let a = spawn(move || match how {
        0 => drop(tx),
        1 => {
            tx.close_channel();
            check!(tx.is_closed(), "not closed");
            check!(tx.unbounded_send(Tok::new(1)).is_err(), "send after close_channel succeeded");
        }
        2 => {
            tx.disconnect();
            check!(tx.is_closed(), "not closed");
        }
        _ => {
            let _ = block_on(tx.send(Tok::new(10)));
            let _ = block_on(tx.close());
        }
    });
    let v = drain(&mut rx);
    check!(v.len() == (how == 3) as usize, "{v:?}");
    join(a);
    drop((rx, v));
    Tok::check_all();
}
fn parked_receiver_bounded() {
    let (mut tx, mut rx) = mpsc::channel::<Tok>(1);
    let how = choose(4);
    let a = spawn(move || match how {
        0 => drop(tx),
        1 => {
            tx.close_channel();
            check!(tx.is_closed(), "not closed");
            check!(tx.try_send(Tok::new(1)).is_err(), "send after close_channel succeeded");
        }
        2 => {
            tx.disconnect();
            check!(tx.is_closed(), "not closed");
        }
        _ => {
            let _ = block_on(tx.send(Tok::new(10)));
            let _ = block_on(tx.close());
        }
    });
    let v = drain(&mut rx);
    check!(v.len() == (how == 3) as usize, "{v:?}");
    join(a);
    drop((rx, v));
    Tok::check_all();
}
/// The receiver moves to another task after having been polled: only the new task's waker counts.
fn rx_migrates() {
    let (tx, mut rx) = mpsc::unbounded::<Tok>();
    let a = spawn(move || {
        check!(tx.unbounded_send(Tok::new(10)).is_ok(), "send failed");
    });
    let old = counting_waker(1);
    let first = rx.poll_next_unpin(&mut Context::from_waker(&old));
    drop(old);
    let b = spawn(move || {
        let mut n = matches!(first, Poll::Ready(Some(_))) as usize;
        if !matches!(first, Poll::Ready(None)) {
            n += drain(&mut rx).len();
        }
        check!(n == 1, "{n} of 1 messages");
    });
    join(a);
    join(b);
    Tok::check_all();
}
/// A parked sender moves to another task.
fn tx_migrates() {
    let (mut tx, mut rx) = mpsc::channel::<Tok>(0);
    check!(tx.try_send(Tok::new(10)).is_ok(), "send failed");
    let a = spawn(move || {
        let v = drain(&mut rx);
        check!(v == [10, 11], "{v:?}");
    });
    let old = counting_waker(1);
    let _ = tx.poll_ready(&mut Context::from_waker(&old));
    drop(old);
    let b = spawn(move || {
        check!(block_on(tx.send(Tok::new(11))).is_ok(), "send failed");
    });
    join(a);
    join(b);
    Tok::check_all();
}
/// Receiver with a waker that stays the same across polls.
fn stable_rx() {
    let (tx, mut rx) = mpsc::unbounded::<Tok>();
    let a = spawn(move || {
        check!(tx.unbounded_send(Tok::new(10)).is_ok(), "send failed");
        check!(tx.unbounded_send(Tok::new(11)).is_ok(), "send failed");
    });
    let mut n = 0;
    while let Some(_) = block_on_stable(rx.next()) {
        n += 1;
    }
    check!(n == 2, "{n}");
    join(a);
    drop(rx);
    Tok::check_all();
}
/// poll_flush of a parked sender completes once the receiver has caught up.
fn flush_wakes() {
    let (mut tx, mut rx) = mpsc::channel::<Tok>(0);
    let a = spawn(move || {
        check!(block_on(tx.feed(Tok::new(10))).is_ok(), "feed");
        check!(block_on(tx.flush()).is_ok(), "flush");
        check!(block_on(tx.feed(Tok::new(11))).is_ok(), "feed");
        check!(block_on(tx.flush()).is_ok(), "flush");
    });
    check!(block_on(rx.next()).is_some(), "lost");
    check!(block_on(rx.recv()).is_ok(), "lost");
    check!(block_on(rx.recv()).is_err(), "not ended");
    join(a);
    drop(rx);
    Tok::check_all();
}

// ---- C03: capacity ---------------------------------------------------------------------------

const SENT: Reg = Reg(101);
const RECV: Reg = Reg(102);

fn capacity(buf: usize) {
    let (tx, mut rx) = mpsc::channel::<u64>(buf);
    let cap = buf as u64 + 2;
    let mk = |mut tx: Sender<u64>, k: usize| {
        spawn(move || {
            for _ in 0..k {
                match tx.try_send(1) {
                    Ok(()) => {
                        // completed sends minus started receives never exceed the capacity
                        let n = SENT.add(1) + 1;
                        let r = RECV.peek();
                        check!(n <= r + cap, "{} messages buffered, capacity {}", n - r, cap);
                        obs(1);
                    }
                    Err(e) => {
                        check!(e.is_full() && !e.is_disconnected(), "open channel reports disconnection");
                        obs(2);
                    }
                }
            }
        })
    };
    let a = mk(tx.clone(), buf + 2);
    let b = mk(tx, buf + 1);
    for _ in 0..2 {
        RECV.add(1);
        match rx.try_recv() {
            Ok(_) => obs(3),
            Err(_) => {
                RECV.sub(1);
                obs(4);
            }
        }
    }
    join(a);
    join(b);
}
fn capacity0() {
    capacity(0)
}
fn capacity1() {
    capacity(1)
}
/// An idle sender's slot is guaranteed: its first message is never refused.
fn guaranteed_slot() {
    let (tx, mut rx) = mpsc::channel::<u64>(0);
    let mk = |mut tx: Sender<u64>| {
        spawn(move || {
            let r = block_on(poll_fn(|cx| tx.poll_ready(cx)));
            check!(r.is_ok(), "disconnected");
            check!(tx.try_send(1).is_ok(), "first message of a sender refused");
        })
    };
    let a = mk(tx.clone());
    let b = mk(tx);
    let mut n = 0;
    while block_on(rx.next()).is_some() {
        n += 1;
    }
    check!(n == 2, "{n}");
    join(a);
    join(b);
}
/// poll_ready's Ok is a promise: the following start_send succeeds unless the receiver closed.
fn ready_promise() {
    let (tx, mut rx) = mpsc::channel::<u64>(0);
    let mk = |mut tx: Sender<u64>| {
        spawn(move || {
            for _ in 0..2 {
                if block_on(poll_fn(|cx| tx.poll_ready(cx))).is_ok() {
                    let r = tx.start_send(5);
                    check!(r.is_ok(), "start_send after poll_ready failed: {r:?}");
                }
            }
        })
    };
    let a = mk(tx.clone());
    let b = mk(tx);
    let mut n = 0;
    while block_on(rx.next()).is_some() {
        n += 1;
    }
    check!(n == 4, "{n}");
    join(a);
    join(b);
}

// ---- C04: closing ------------------------------------------------------------------------------

/// Receiver closes while senders send: what was accepted is delivered, what was refused comes back.
fn close_accounting(bounded: bool) {
    const OK: Reg = Reg(103);
    if bounded {
        let (tx, mut rx) = mpsc::channel::<Tok>(1);
        let mk = |mut tx: Sender<Tok>, b: u64| {
            spawn(move || {
                for i in 0..2 {
                    match tx.try_send(Tok::new(b + i)) {
                        Ok(()) => {
                            OK.quiet_add(1);
                        }
                        Err(e) => {
                            check!(e.is_disconnected() || e.is_full(), "odd error");
                            check!(e.into_inner().0 == b + i, "wrong message returned");
                        }
                    }
                }
            })
        };
        let a = mk(tx.clone(), 10);
        let b = mk(tx, 20);
        rx.close();
        let v = drain(&mut rx);
        join(a);
        join(b);
        check!(v.len() as u64 == OK.peek(), "{} accepted, {} delivered", OK.peek(), v.len());
        drop((rx, v));
    } else {
        let (tx, mut rx) = mpsc::unbounded::<Tok>();
        let mk = |tx: UnboundedSender<Tok>, b: u64| {
            spawn(move || {
                for i in 0..2 {
                    match tx.unbounded_send(Tok::new(b + i)) {
                        Ok(()) => {
                            OK.quiet_add(1);
                        }
                        Err(e) => {
                            check!(e.is_disconnected(), "odd error");
                            check!(tx.is_closed(), "refused but not closed");
                            check!(e.into_inner().0 == b + i, "wrong message returned");
                        }
                    }
                }
            })
        };
        let a = mk(tx.clone(), 10);
        let b = mk(tx, 20);
        rx.close();
        let v = drain(&mut rx);
        join(a);
        join(b);
        check!(v.len() as u64 == OK.peek(), "{} accepted, {} delivered", OK.peek(), v.len());
        drop((rx, v));
    }
    Tok::check_all();
}
fn close_accounting_b() {
    close_accounting(true)
}
fn close_accounting_u() {
    close_accounting(false)
}
/// One sender closes the channel for all: the same accounting, and the stream ends.
fn close_channel_accounting() {
    const OK: Reg = Reg(103);
    let (tx, mut rx) = mpsc::unbounded::<Tok>();
    let tx2 = tx.clone();
    let a = spawn(move || {
        tx.close_channel();
        check!(tx.is_closed(), "not closed");
    });
    let b = spawn(move || {
        for i in 0..2 {
            if tx2.unbounded_send(Tok::new(20 + i)).is_ok() {
                OK.quiet_add(1);
            }
        }
        std::mem::forget(0);
        // keep the sender alive until the receiver is done
        block_on(poll_fn(|_| Poll::Ready(())));
        KEEP.with_put(tx2);
    });
    let v = drain(&mut rx);
    join(a);
    join(b);
    check!(v.len() as u64 == OK.peek(), "{} accepted, {} delivered", OK.peek(), v.len());
    drop(KEEP.take());
    drop((rx, v));
    Tok::check_all();
}
struct Keep(std::cell::UnsafeCell<Option<UnboundedSender<Tok>>>);
unsafe impl Sync for Keep {}
static KEEP: Keep = Keep(std::cell::UnsafeCell::new(None));
impl Keep {
    fn with_put(&self, t: UnboundedSender<Tok>) {
        unsafe {
            std::ptr::write(self.0.get(), Some(t));
        }
    }
    fn take(&self) -> Option<UnboundedSender<Tok>> {
        unsafe { (*self.0.get()).take() }
    }
}
fn close_channel_bounded_parked() {
    // a sender is parked; another one closes the channel; the receiver drains: the parked sender must learn
    let (mut tx, mut rx) = mpsc::channel::<Tok>(0);
    let mut tx2 = tx.clone();
    check!(tx.try_send(Tok::new(10)).is_ok(), "send");
    let a = spawn(move || {
        let r = block_on(poll_fn(|cx| tx.poll_ready(cx)));
        obs(r.is_ok() as u64);
    });
    let b = spawn(move || {
        tx2.close_channel();
    });
    let v = drain(&mut rx);
    check!(v == [10], "{v:?}");
    join(a);
    join(b);
    drop((rx, v));
    Tok::check_all();
}

/// Every sequence of operations on a bounded channel, one thread, against a reference model.
fn seq_bounded() {
    seq_bounded_n(6)
}
fn seq_bounded_deep() {
    seq_bounded_n(8)
}
fn seq_bounded_n(depth: usize) {
    let buf = choose(2);
    let (tx, rx) = mpsc::channel::<Tok>(buf);
    let mut rx = Some(rx);
    struct S {
        tx: Sender<Tok>,
        waiting: Option<u64>, // waker id of a pending poll_ready
        inq: usize,           // own messages in the queue
        base: u64,
        n: u64,
        gone: bool,
    }
    let mut ss = vec![S { tx, waiting: None, inq: 0, base: 10, n: 0, gone: false }];
    let mut q: std::collections::VecDeque<(u64, usize)> = Default::default();
    let mut open = true;
    let mut rx_waiting: Option<u64> = None;
    let mut ended = false;
    for _ in 0..depth {
        let ns = ss.len();
        // ops: per sender: try_send, poll_ready, close_channel/disconnect ; clone ; rx: poll, try_recv, close, drop
        let op = choose(ns * 4 + 1 + 4);
        if op < ns * 4 {
            let live = ss.iter().filter(|s| !s.gone).count();
            // slots: live senders, and departed ones whose messages are still buffered
            let slots = ss.iter().filter(|s| !s.gone || s.inq > 0).count();
            let empty = q.is_empty();
            let s = &mut ss[op / 4];
            match op % 4 {
                0 => {
                    let v = s.base + s.n;
                    s.n += 1;
                    match s.tx.try_send(Tok::new(v)) {
                        Ok(()) => {
                            check!(open && !s.gone, "send into a closed channel succeeded");
                            q.push_back((v, op / 4));
                            s.inq += 1;
                            check!(q.len() <= buf + slots, "{} messages buffered, capacity {}+{}", q.len(), buf, slots);
                            if let Some(w) = rx_waiting.take() {
                                check!(wakes(w) > 0, "receiver not woken by a message");
                            }
                        }
                        Err(e) => {
                            if e.is_disconnected() {
                                check!(!open || s.gone, "open channel reports disconnected");
                            } else {
                                check!(e.is_full(), "odd error");
                                check!(s.inq > 0 && !empty, "a sender without buffered messages was refused");
                                check!(q.len() > buf || q.len() + s.inq > buf, "refused although there is room");
                            }
                            check!(e.into_inner().0 == v, "another message came back");
                        }
                    }
                }
                1 => {
                    let id = fresh_id();
                    let w = counting_waker(id);
                    match s.tx.poll_ready(&mut Context::from_waker(&w)) {
                        Poll::Ready(Ok(())) => {
                            check!(open && !s.gone, "closed channel reports ready");
                            s.waiting = None;
                        }
                        Poll::Ready(Err(e)) => {
                            check!(e.is_disconnected(), "odd error");
                            check!(!open || s.gone, "open channel reports an error");
                            s.waiting = None;
                        }
                        Poll::Pending => {
                            check!(open, "closed channel reports pending");
                            check!(s.inq > 0, "a sender without buffered messages must wait");
                            s.waiting = Some(id);
                        }
                    }
                }
                2 => {
                    if !s.gone {
                        s.tx.close_channel();
                        open = false;
                        if let Some(w) = rx_waiting.take() {
                            check!(wakes(w) > 0, "receiver not woken by close_channel");
                        }
                    }
                    check!(s.tx.is_closed(), "closed channel not reported closed");
                }
                _ => {
                    s.tx.disconnect();
                    if !s.gone {
                        s.gone = true;
                        if live == 1 {
                            open = false;
                            if let Some(w) = rx_waiting.take() {
                                check!(wakes(w) > 0, "receiver not woken by the last sender leaving");
                            }
                        }
                    }
                    check!(s.tx.is_closed(), "disconnected sender not closed");
                }
            }
        } else {
            match op - ns * 4 {
                0 => {
                    if ns >= 2 || ss[0].gone {
                        skip();
                    }
                    {
                        let tx = ss[0].tx.clone();
                        check!(tx.same_receiver(&ss[0].tx), "same_receiver");
                        ss.push(S { tx, waiting: None, inq: 0, base: 20, n: 0, gone: false });
                    }
                }
                k @ (1 | 2) => {
                    let Some(r) = rx.as_mut() else { skip() };
                    check!(r.is_terminated() == ended, "is_terminated {} but ended {}", r.is_terminated(), ended);
                    let got = if k == 1 {
                        let id = fresh_id();
                        let w = counting_waker(id);
                        let (lo, hi) = r.size_hint();
                        check!(lo <= q.len() && hi.map_or(true, |h| h >= q.len()), "size_hint ({lo},{hi:?}) with {} queued", q.len());
                        let p = r.poll_next_unpin(&mut Context::from_waker(&w));
                        if p.is_pending() {
                            rx_waiting = Some(id);
                        } else {
                            rx_waiting = None;
                        }
                        p
                    } else {
                        match r.try_recv() {
                            Ok(t) => Poll::Ready(Some(t)),
                            Err(e) if e.is_closed() => Poll::Ready(None),
                            Err(e) => {
                                check!(e.is_empty(), "odd error");
                                Poll::Pending
                            }
                        }
                    };
                    match got {
                        Poll::Ready(Some(t)) => {
                            let Some((v, si)) = q.pop_front() else { fail(format!("message {} from nowhere", t.0)) };
                            check!(t.0 == v, "received {} instead of {}", t.0, v);
                            ss[si].inq -= 1;
                            // everyone waiting without buffered messages has been woken
                            for s in ss.iter_mut() {
                                if let Some(w) = s.waiting {
                                    if wakes(w) > 0 {
                                        s.waiting = None;
                                    } else {
                                        check!(s.inq > 0, "waiting sender not woken although its messages are gone");
                                    }
                                }
                            }
                        }
                        Poll::Ready(None) => {
                            check!(q.is_empty() && !open, "stream ended early ({} queued, open={})", q.len(), open);
                            ended = true;
                        }
                        Poll::Pending => check!(q.is_empty() && open, "pending although {} queued, open={}", q.len(), open),
                    }
                }
                3 => {
                    let Some(r) = rx.as_mut() else { skip() };
                    r.close();
                    open = false;
                    for s in ss.iter_mut() {
                        if let Some(w) = s.waiting.take() {
                            check!(s.gone || wakes(w) > 0, "waiting sender not woken by close");
                        }
                    }
                }
                _ => {
                    if rx.is_none() {
                        skip();
                    }
                    if rx.take().is_some() {
                        open = false;
                        q.clear();
                        for s in ss.iter_mut() {
                            s.inq = 0;
                            if let Some(w) = s.waiting.take() {
                                check!(s.gone || wakes(w) > 0, "waiting sender not woken by dropping the receiver");
                            }
                        }
                    }
                }
            }
        }
        for s in &ss {
            check!(s.tx.is_closed() == (!open || s.gone), "is_closed()={} but open={}", s.tx.is_closed(), open);
        }
    }
    drop(ss);
    drop(rx);
    drop(q);
    Tok::check_all();
}

/// The same for an unbounded channel.
fn seq_unbounded() {
    seq_unbounded_n(6)
}
fn seq_unbounded_deep() {
    seq_unbounded_n(8)
}
fn seq_unbounded_n(depth: usize) {
    let (tx, rx) = mpsc::unbounded::<Tok>();
    let mut rx = Some(rx);
    let mut ss: Vec<(UnboundedSender<Tok>, bool)> = vec![(tx, false)];
    let mut q: std::collections::VecDeque<u64> = Default::default();
    let mut open = true;
    let mut ended = false;
    let mut rx_waiting: Option<u64> = None;
    let mut next = 10;
    for _ in 0..depth {
        let ns = ss.len();
        let op = choose(ns * 3 + 5);
        if op < ns * 3 {
            let live = ss.iter().filter(|s| !s.1).count();
            let s = &mut ss[op / 3];
            let mut ev = false;
            match op % 3 {
                0 => {
                    next += 1;
                    match s.0.unbounded_send(Tok::new(next)) {
                        Ok(()) => {
                            check!(open && !s.1, "send into a closed channel succeeded");
                            q.push_back(next);
                            ev = true;
                        }
                        Err(e) => {
                            check!(!open || s.1, "send into an open channel failed");
                            check!(e.is_disconnected() && !e.is_full(), "odd error");
                            check!(e.into_inner().0 == next, "another message came back");
                        }
                    }
                    if !s.1 {
                        check!(s.0.len() == q.len() && s.0.is_empty() == q.is_empty(), "len() {} vs {}", s.0.len(), q.len());
                    }
                }
                1 => {
                    if !s.1 {
                        s.0.close_channel();
                        open = false;
                        ev = true;
                    }
                }
                _ => {
                    s.0.disconnect();
                    if !s.1 {
                        s.1 = true;
                        if live == 1 {
                            open = false;
                            ev = true;
                        }
                    }
                }
            }
            if ev {
                if let Some(w) = rx_waiting.take() {
                    check!(wakes(w) > 0, "receiver not woken");
                }
            }
        } else {
            match op - ns * 3 {
                0 => {
                    if ns >= 2 || ss[0].1 {
                        skip();
                    }
                    {
                        let t = ss[0].0.clone();
                        ss.push((t, false));
                    }
                }
                k @ (1 | 2) => {
                    let Some(r) = rx.as_mut() else { skip() };
                    check!(r.is_terminated() == ended, "is_terminated {} but ended {}", r.is_terminated(), ended);
                    let got = if k == 1 {
                        let id = fresh_id();
                        let w = counting_waker(id);
                        let (lo, hi) = r.size_hint();
                        check!(lo <= q.len() && hi.map_or(true, |h| h >= q.len()), "size_hint ({lo},{hi:?}) with {} queued", q.len());
                        let p = r.poll_next_unpin(&mut Context::from_waker(&w));
                        rx_waiting = p.is_pending().then_some(id);
                        p
                    } else {
                        match r.try_recv() {
                            Ok(t) => Poll::Ready(Some(t)),
                            Err(e) if e.is_closed() => Poll::Ready(None),
                            Err(_) => Poll::Pending,
                        }
                    };
                    match got {
                        Poll::Ready(Some(t)) => {
                            let v = q.pop_front();
                            check!(Some(t.0) == v, "received {} instead of {:?}", t.0, v);
                        }
                        Poll::Ready(None) => {
                            check!(q.is_empty() && !open, "stream ended early");
                            ended = true;
                        }
                        Poll::Pending => check!(q.is_empty() && open, "pending although {} queued, open={}", q.len(), open),
                    }
                }
                3 => {
                    let Some(r) = rx.as_mut() else { skip() };
                    r.close();
                    open = false;
                }
                _ => {
                    if rx.is_none() {
                        skip();
                    }
                    if rx.take().is_some() {
                        open = false;
                        q.clear();
                    }
                }
            }
        }
        for s in &ss {
            check!(s.0.is_closed() == (!open || s.1), "is_closed()={} but open={}", s.0.is_closed(), open);
        }
    }
    drop(ss);
    drop(rx);
    drop(q);
    Tok::check_all();
}

pub const SCN: &[Scn] = &[
    s("mpsc_unbounded_1s", "C01 C02 C31", (6, 4), (8, 5), unbounded_1s),
    s("mpsc_unbounded_2s", "C01 C02 C31", (3, 1), (5, 2), unbounded_2s),
    s("mpsc_bounded0_1s", "C01 C02 C31", (4, 2), (6, 3), bounded0_1s),
    s("mpsc_bounded0_2s", "C01 C02 C31", (2, 0), (4, 1), bounded0_2s),
    s("mpsc_bounded1_2s", "C01 C02 C31", (2, 1), (4, 2), bounded1_2s),
    s("mpsc_unbounded_rx_drop", "C01 C04 C31 C27", (3, 1), (5, 2), unbounded_rx_drop),
    s("mpsc_bounded_rx_drop", "C01 C04 C31 C27", (3, 2), (5, 3), bounded_rx_drop),
    s("mpsc_try_recv_loop", "C01 C31", (4, 1), (6, 2), try_recv_loop),
    s("mpsc_bounded_try_recv_loop", "C01", (5, 3), (7, 4), bounded_try_recv_loop),
    s("mpsc_causal", "C01 C31 C27", (3, 2), (5, 3), causal),
    s("mpsc_clone_race", "C01 C04 C31 C27", (6, 3), (8, 4), clone_race),
    s("mpsc_clone_race_bounded", "C01 C04 C31 C27", (5, 3), (7, 4), clone_race_bounded),
    s("mpsc_parked_sender_recv", "C02 C31", (6, 4), (8, 5), parked_sender_recv),
    s("mpsc_parked_sender_close", "C02 C04 C31 C27", (9, 4), (11, 5), parked_sender_close),
    s("mpsc_parked_sender_rx_drop", "C02 C04 C31 C27", (9, 4), (11, 5), parked_sender_rx_drop),
    s("mpsc_two_parked", "C02 C31", (2, 0), (4, 1), two_parked),
    s("mpsc_parked_receiver_unbounded", "C02 C04 C31", (8, 4), (10, 5), parked_receiver_unbounded),
    s("mpsc_parked_receiver_bounded", "C02 C04 C31", (8, 4), (10, 5), parked_receiver_bounded),
    s("mpsc_rx_migrates", "C02 C31", (8, 4), (10, 5), rx_migrates),
    s("mpsc_tx_migrates", "C02 C31", (4, 3), (6, 4), tx_migrates),
    s("mpsc_stable_rx", "C02 C31", (5, 4), (7, 5), stable_rx),
    s("mpsc_flush_wakes", "C02 C31", (4, 2), (6, 3), flush_wakes),
    s("mpsc_capacity0", "C03", (3, 2), (5, 3), capacity0),
    s("mpsc_capacity1", "C03", (3, 1), (5, 2), capacity1),
    s("mpsc_guaranteed_slot", "C03 C31", (3, 0), (5, 2), guaranteed_slot),
    s("mpsc_ready_promise", "C03 C31", (2, 0), (4, 1), ready_promise),
    s("mpsc_close_accounting_b", "C04 C31 C27", (3, 2), (5, 3), close_accounting_b),
    s("mpsc_close_accounting_u", "C04 C31 C27", (3, 2), (5, 3), close_accounting_u),
    s("mpsc_close_channel_accounting", "C04 C31 C27", (4, 2), (6, 3), close_channel_accounting),
    s("mpsc_close_channel_bounded_parked", "C04 C31 C27", (8, 3), (10, 4), close_channel_bounded_parked),
    s("mpsc_seq_bounded", "C01 C03 C04 C31", (0, 0), (0, 0), seq_bounded),
    s("mpsc_seq_unbounded", "C01 C04 C31", (0, 0), (0, 0), seq_unbounded),
];
