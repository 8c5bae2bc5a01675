//! Sequences of operations on the synchronisation primitives, collections and executors, one
//! thread, every sequence up to a depth, against a reference model.  After every operation each
//! party that waits and could now proceed must have been woken (through the waker of its latest
//! poll), and every query must agree with the model.
use crate::ch::*;
use crate::leaf::*;
use crate::{s, Scn};
use futures::channel::mpsc;
use futures::future::FusedFuture;
use futures::lock::{MappedMutexGuard, Mutex, MutexGuard, MutexLockFuture, OwnedMutexGuard, OwnedMutexLockFuture};
use futures::prelude::*;
use futures::stream::{self, FusedStream, FuturesOrdered, FuturesUnordered};
use std::cell::RefCell;
use std::collections::{BTreeSet, VecDeque};
use std::pin::Pin;
use std::rc::Rc;
use std::sync::atomic::Ordering::SeqCst;
use std::sync::Arc;
use std::task::{Context, Poll, Waker};

/// The waker of one poll.
pub struct Pw(Arc<Flag>);
impl Pw {
    pub fn woken(&self) -> bool {
        self.0.n.load(SeqCst) > 0
    }
}
/// Poll with a waker of its own.
pub fn pw<R>(f: impl FnOnce(&mut Context<'_>) -> R) -> (R, Pw) {
    step();
    let fl = flag();
    let wk: Waker = fl.clone().into();
    let r = f(&mut Context::from_waker(&wk));
    (r, Pw(fl))
}

/// An operation that does not apply: outside long mode the history is not explored further.
macro_rules! bad {
    () => {
        if long() {
            continue;
        } else {
            skip()
        }
    };
}
/// One of `k` operations; in long mode `def` unless the history deviates here.
fn opc(k: usize, def: usize) -> usize {
    if long() {
        (def + choose(k)) % k
    } else {
        choose(k)
    }
}

// ---- mpsc ---------------------------------------------------------------------------------------

struct Tx<S> {
    tx: Option<S>,
    /// this handle was closed or disconnected
    gone: bool,
    wait: Option<Pw>,
    /// own messages in the queue
    inq: usize,
    base: u32,
    n: u32,
}
/// `try_recv` (1), or the deprecated `try_next` (2), as a poll.
macro_rules! try_rx {
    ($r:ident, $recv:expr) => {
        if $recv == 1 {
            match $r.try_recv() {
                Ok(t) => Poll::Ready(Some(t)),
                Err(e) if e.is_closed() => {
                    check!(!e.is_empty(), "an error is both empty and closed");
                    Poll::Ready(None)
                }
                Err(e) => {
                    check!(e.is_empty(), "odd error");
                    Poll::Pending
                }
            }
        } else {
            #[allow(deprecated)]
            match $r.try_next() {
                Ok(x) => Poll::Ready(x),
                Err(e) => {
                    check!(e.is_empty() && !e.is_closed(), "odd error");
                    Poll::Pending
                }
            }
        }
    };
}
/// `send`: 0 try_send, 1 poll_ready + start_send; `leave`: 0 drop, 1 disconnect, 2 poll_close, 3 close_channel;
/// `recv`: 0 poll_next, 1 try_recv.
fn bounded(depth: u32, send: usize, leave: usize, recv: usize) {
    let buf = if long() { [0, 2, 33, 70, (usize::MAX >> 2) - 1, 256, 500][choose(if huge() { 7 } else { 5 })] } else { choose(3) };
    let (most, depth, run) = if huge() { [(2, 2600, 1300), (300, 2400, 700)][choose(2)] } else if long() { [(2, 180, 40), (12, 130, 30)][choose(2)] } else { (3, depth, 1) };
    counting();
    let (tx, rx) = mpsc::channel::<Tok>(buf);
    let (otx, _orx) = mpsc::channel::<Tok>(1);
    let mut rx = Some(rx);
    let mut ss = vec![Tx { tx: Some(tx), gone: false, wait: None, inq: 0, base: 100, n: 0 }];
    let mut q: VecDeque<(u32, usize)> = VecDeque::new();
    let mut open = true;
    let mut ended = false;
    let mut rxw: Option<Pw> = None;
    for t in 0..depth as usize {
        let ns = ss.len();
        // long: clone, then runs of sends and of receives
        let def = match t {
            t if t + 1 < most => ns * 3,
            t if t / run % 2 == 0 => t / 2 % ns * 3 + t % 2,
            _ => ns * 3 + 1,
        };
        // per sender: send, ready/flush, leave; then clone, recv, close, drop the receiver
        let op = opc(ns * 3 + 4, def);
        if op < ns * 3 {
            let i = op / 3;
            let live = ss.iter().filter(|s| !s.gone).count();
            let slots = ss.iter().filter(|s| !s.gone || s.inq > 0).count();
            let s = &mut ss[i];
            let Some(t) = s.tx.as_mut() else { bad!() };
            match op % 3 {
                0 => {
                    note(|| format!("send {i}"));
                    let v = s.base + s.n;
                    s.n += 1;
                    let mut ok = false;
                    if send == 0 {
                        match t.try_send(tok(v)) {
                            Ok(()) => ok = true,
                            Err(e) => {
                                if e.is_disconnected() {
                                    check!(!e.is_full(), "an error is both full and disconnected");
                                    check!(!open || s.gone, "an open channel reports disconnected");
                                } else {
                                    check!(e.is_full(), "an error is neither full nor disconnected");
                                    // closed from the sending side, a full channel may be reported as either
                                    check!((open || leave == 3) && !s.gone, "a closed channel reports full");
                                    check!(s.inq > 0, "a sender without buffered messages was refused");
                                    check!(q.len() > buf, "refused with {} messages in a buffer of {}", q.len(), buf);
                                }
                                if v % 4 == 3 {
                                    let (f, d) = (e.is_full(), e.is_disconnected());
                                    let e = e.into_send_error();
                                    check!(e.is_full() == f && e.is_disconnected() == d, "into_send_error changes the kind");
                                } else {
                                    check!(e.into_inner().0 == v, "another message came back");
                                }
                            }
                        }
                    } else {
                        let (r, w) = pw(|cx| t.poll_ready(cx));
                        match r {
                            Poll::Ready(Ok(())) => {
                                check!(open && !s.gone, "a closed channel reports ready");
                                s.wait = None;
                                match t.start_send(tok(v)) {
                                    Ok(()) => ok = true,
                                    Err(_) => fail("start_send fails right after poll_ready reported readiness".into()),
                                }
                            }
                            Poll::Ready(Err(e)) => {
                                check!(e.is_disconnected() && !e.is_full(), "odd error");
                                check!(!open || s.gone, "an open channel reports an error");
                                s.wait = None;
                            }
                            Poll::Pending => {
                                check!(open && !s.gone, "a closed channel reports pending");
                                check!(s.inq > 0 && q.len() > buf, "must wait with {} own messages, {} of {} buffered", s.inq, q.len(), buf);
                                s.wait = Some(w);
                            }
                        }
                    }
                    if ok {
                        check!(open && !s.gone, "a message was accepted by a closed channel");
                        q.push_back((v, i));
                        s.inq += 1;
                        check!(q.len() <= buf + slots, "{} messages buffered, capacity {}+{}", q.len(), buf, slots);
                        if let Some(w) = rxw.take() {
                            check!(w.woken(), "the receiver was not woken by a message");
                        }
                    }
                }
                1 => {
                    let flush = recv == 1;
                    note(|| format!("{} {i}", if flush { "flush" } else { "ready" }));
                    let (r, w) = pw(|cx| if flush { Pin::new(&mut *t).poll_flush(cx) } else { Pin::new(&mut *t).poll_ready(cx) });
                    s.wait = None;
                    match r {
                        Poll::Ready(Ok(())) => check!(flush || open && !s.gone, "a closed channel reports ready"),
                        Poll::Ready(Err(e)) => {
                            check!(!flush, "flushing fails");
                            check!(e.is_disconnected(), "odd error");
                            check!(!open || s.gone, "an open channel reports an error");
                        }
                        Poll::Pending => {
                            check!(open && !s.gone, "a closed channel reports pending");
                            check!(s.inq > 0 && q.len() > buf, "must wait with {} own messages, {} of {} buffered", s.inq, q.len(), buf);
                            s.wait = Some(w);
                        }
                    }
                }
                _ => {
                    if s.gone {
                        bad!();
                    }
                    note(|| format!("leave {i}"));
                    s.gone = true;
                    s.wait = None;
                    match leave {
                        0 => s.tx = None,
                        1 => t.disconnect(),
                        2 => {
                            let (r, _) = pw(|cx| Pin::new(&mut *t).poll_close(cx));
                            check!(matches!(r, Poll::Ready(Ok(()))), "poll_close did not complete");
                        }
                        _ => {
                            t.close_channel();
                            s.gone = false;
                        }
                    }
                    if live == 1 || leave == 3 {
                        open = false;
                        if let Some(w) = rxw.take() {
                            check!(w.woken(), "the receiver was not woken when the channel closed");
                        }
                        // other senders: whoever waits must hear about it
                        if leave == 3 {
                            for s in ss.iter_mut() {
                                s.wait = None; // see C02's scenarios: only the receiver's side wakes senders
                            }
                        }
                    }
                }
            }
        } else {
            match op - ns * 3 {
                0 => {
                    let Some(k) = ss.iter().position(|s| s.tx.is_some() && !s.gone) else { bad!() };
                    if ns >= most {
                        bad!();
                    }
                    note(|| format!("clone {k}"));
                    let t = ss[k].tx.clone();
                    check!(t.as_ref().unwrap().same_receiver(ss[k].tx.as_ref().unwrap()), "a clone has another receiver");
                    check!(!t.as_ref().unwrap().same_receiver(&otx), "another channel has the same receiver");
                    {
                        use std::hash::Hasher;
                        let mut h = [(); 3].map(|_| std::collections::hash_map::DefaultHasher::new());
                        t.as_ref().unwrap().hash_receiver(&mut h[0]);
                        ss[k].tx.as_ref().unwrap().hash_receiver(&mut h[1]);
                        otx.hash_receiver(&mut h[2]);
                        let [a, b, c] = h.map(|h| h.finish());
                        check!(a == b && a != c, "hash_receiver disagrees with same_receiver");
                    }
                    if let Some(r) = &rx {
                        if !ended {
                            check!(t.as_ref().unwrap().is_connected_to(r) && !otx.is_connected_to(r), "is_connected_to");
                        }
                    }
                    ss.push(Tx { tx: t, gone: false, wait: None, inq: 0, base: 100 * (ns as u32 + 1), n: 0 });
                }
                1 => {
                    let Some(r) = rx.as_mut() else { bad!() };
                    note(|| "recv".into());
                    check!(r.is_terminated() == ended, "is_terminated() is {} but ended is {}", r.is_terminated(), ended);
                    let (lo, hi) = r.size_hint();
                    check!(lo <= q.len() && hi.map_or(true, |h| !open && h >= q.len()), "size_hint ({lo},{hi:?}) with {} queued", q.len());
                    let got = if recv == 0 {
                        let (p, w) = if leave % 2 == 0 {
                            pw(|cx| Pin::new(&mut *r).poll_next(cx))
                        } else {
                            // the same as a future
                            let mut f = r.recv();
                            check!(f.is_terminated() == ended, "is_terminated() of recv() is {} but ended is {}", f.is_terminated(), ended);
                            let (p, w) = pw(|cx| f.poll_unpin(cx));
                            (p.map(|x| x.ok()), w)
                        };
                        rxw = p.is_pending().then_some(w);
                        p
                    } else {
                        try_rx!(r, recv)
                    };
                    match got {
                        Poll::Ready(Some(t)) => {
                            let Some((v, si)) = q.pop_front() else { fail(format!("message {} from nowhere", t.0)) };
                            check!(t.0 == v, "received {} instead of {}", t.0, v);
                            ss[si].inq -= 1;
                            for s in ss.iter_mut() {
                                if s.wait.as_ref().map_or(false, |w| w.woken()) {
                                    s.wait = None;
                                }
                            }
                            let waiting = ss.iter().filter(|s| s.wait.is_some()).count();
                            check!(waiting <= q.len().saturating_sub(buf), "{} senders wait although only {} messages are beyond the buffer", waiting, q.len().saturating_sub(buf));
                        }
                        Poll::Ready(None) => {
                            check!(q.is_empty() && !open, "the stream ended with {} queued, open={}", q.len(), open);
                            ended = true;
                        }
                        Poll::Pending => check!(q.is_empty() && open, "pending with {} queued, open={}", q.len(), open),
                    }
                }
                k => {
                    if rx.is_none() || k == 2 && !open {
                        bad!();
                    }
                    note(|| if k == 2 { "close".into() } else { "drop the receiver".into() });
                    let was = open;
                    open = false;
                    if k == 2 {
                        rx.as_mut().unwrap().close();
                    } else {
                        rx = None;
                        q.clear();
                        for s in ss.iter_mut() {
                            s.inq = 0;
                        }
                        rxw = None;
                        let n: i64 = live_toks();
                        check!(n == 0, "{n} messages survive the receiver");
                    }
                    for s in ss.iter_mut() {
                        if let Some(w) = s.wait.take() {
                            check!(!was || w.woken(), "a waiting sender was not woken when the receiver {}", if k == 2 { "closed" } else { "was dropped" });
                        }
                    }
                }
            }
        }
        for s in &ss {
            if let Some(t) = &s.tx {
                check!(t.is_closed() == (!open || s.gone), "is_closed()={} but open={} gone={}", t.is_closed(), open, s.gone);
            }
        }
        check!(live_toks() == q.len() as i64, "{} messages are alive, {} are queued", live_toks(), q.len());
    }
    obs(q.len() as u64 * 8 + ended as u64 * 4 + open as u64);
}
macro_rules! bnd {
    ($($n:ident $s:expr, $l:expr, $r:expr;)*) => { $(fn $n(b: u32) { bounded(b, $s, $l, $r) })* };
}
bnd! {
    b000 0, 0, 0;
    b011 0, 1, 1;
    b020 0, 2, 0;
    b031 0, 3, 2;
    b101 1, 0, 1;
    b110 1, 1, 0;
    b121 1, 2, 1;
    b130 1, 3, 0;
}
/// `send`: 0 unbounded_send, 1 Sink for UnboundedSender, 2 Sink for &UnboundedSender.
fn unbounded(depth: u32, send: usize, leave: usize, recv: usize) {
    let (most, depth, run) = if huge() { [(2, 2600, 1300), (300, 2400, 700)][choose(2)] } else if long() { [(2, 180, 40), (12, 130, 30)][choose(2)] } else { (3, depth, 1) };
    counting();
    let (tx, rx) = mpsc::unbounded::<Tok>();
    let (otx, _orx) = mpsc::unbounded::<Tok>();
    let mut rx = Some(rx);
    let mut ss = vec![Tx { tx: Some(tx), gone: false, wait: None, inq: 0, base: 100, n: 0 }];
    let mut q: VecDeque<u32> = VecDeque::new();
    let (mut open, mut ended) = (true, false);
    let mut rxw: Option<Pw> = None;
    for t in 0..depth as usize {
        let ns = ss.len();
        let def = match t {
            t if t + 1 < most => ns * 2,
            t if t / run % 2 == 0 => t % ns * 2,
            _ => ns * 2 + 1,
        };
        let op = opc(ns * 2 + 4, def);
        if op < ns * 2 {
            let i = op / 2;
            let live = ss.iter().filter(|s| !s.gone).count();
            let s = &mut ss[i];
            let Some(t) = s.tx.as_mut() else { bad!() };
            if op % 2 == 0 {
                note(|| format!("send {i}"));
                let v = s.base + s.n;
                s.n += 1;
                let ok = match send {
                    0 => match t.unbounded_send(tok(v)) {
                        Ok(()) => true,
                        Err(e) => {
                            check!(e.is_disconnected() && !e.is_full(), "odd error");
                            if v % 4 == 3 {
                                    let (f, d) = (e.is_full(), e.is_disconnected());
                                    let e = e.into_send_error();
                                    check!(e.is_full() == f && e.is_disconnected() == d, "into_send_error changes the kind");
                                } else {
                                    check!(e.into_inner().0 == v, "another message came back");
                                }
                            false
                        }
                    },
                    _ => {
                        let r = if send == 1 { pw(|cx| Pin::new(&mut *t).poll_ready(cx)).0 } else { pw(|cx| Pin::new(&mut &*t).poll_ready(cx)).0 };
                        match r {
                            Poll::Ready(Ok(())) => {
                                check!(open && !s.gone, "a closed channel reports ready");
                                let r = if send == 1 { Pin::new(&mut *t).start_send(tok(v)) } else { Pin::new(&mut &*t).start_send(tok(v)) };
                                check!(r.is_ok(), "start_send fails after poll_ready");
                                let (r, _) = pw(|cx| if send == 1 { Pin::new(&mut *t).poll_flush(cx) } else { Pin::new(&mut &*t).poll_flush(cx) });
                                check!(matches!(r, Poll::Ready(Ok(()))), "flush did not complete");
                                true
                            }
                            Poll::Ready(Err(e)) => {
                                check!(e.is_disconnected(), "odd error");
                                let r = if send == 1 { Pin::new(&mut *t).start_send(tok(v)) } else { Pin::new(&mut &*t).start_send(tok(v)) };
                                check!(r.is_err(), "start_send into a closed channel succeeds");
                                false
                            }
                            Poll::Pending => fail("an unbounded channel is not ready".into()),
                        }
                    }
                };
                check!(ok == (open && !s.gone), "send {} but open={} gone={}", if ok { "succeeds" } else { "fails" }, open, s.gone);
                if ok {
                    q.push_back(v);
                    if let Some(w) = rxw.take() {
                        check!(w.woken(), "the receiver was not woken by a message");
                    }
                }
                if !s.gone {
                    check!(t.len() == q.len() && t.is_empty() == q.is_empty(), "len() is {} with {} queued", t.len(), q.len());
                }
            } else {
                if s.gone {
                    bad!();
                }
                note(|| format!("leave {i}"));
                s.gone = true;
                let mut all = live == 1;
                match leave {
                    0 => s.tx = None,
                    1 => t.disconnect(),
                    2 => {
                        let r = if send == 2 {
                            // through a reference the whole channel gets closed
                            s.gone = false;
                            all = true;
                            pw(|cx| Pin::new(&mut &*t).poll_close(cx)).0
                        } else {
                            pw(|cx| Pin::new(&mut *t).poll_close(cx)).0
                        };
                        check!(matches!(r, Poll::Ready(Ok(()))), "poll_close did not complete");
                    }
                    _ => {
                        t.close_channel();
                        s.gone = false;
                        all = true;
                    }
                }
                if all {
                    open = false;
                    if let Some(w) = rxw.take() {
                        check!(w.woken(), "the receiver was not woken when the channel closed");
                    }
                }
            }
        } else {
            match op - ns * 2 {
                0 => {
                    let Some(k) = ss.iter().position(|s| s.tx.is_some() && !s.gone) else { bad!() };
                    if ns >= most {
                        bad!();
                    }
                    note(|| format!("clone {k}"));
                    let t = ss[k].tx.clone();
                    check!(t.as_ref().unwrap().same_receiver(ss[k].tx.as_ref().unwrap()), "a clone has another receiver");
                    check!(!t.as_ref().unwrap().same_receiver(&otx), "another channel has the same receiver");
                    {
                        use std::hash::Hasher;
                        let mut h = [(); 3].map(|_| std::collections::hash_map::DefaultHasher::new());
                        t.as_ref().unwrap().hash_receiver(&mut h[0]);
                        ss[k].tx.as_ref().unwrap().hash_receiver(&mut h[1]);
                        otx.hash_receiver(&mut h[2]);
                        let [a, b, c] = h.map(|h| h.finish());
                        check!(a == b && a != c, "hash_receiver disagrees with same_receiver");
                    }
                    if let Some(r) = &rx {
                        if !ended {
                            check!(t.as_ref().unwrap().is_connected_to(r) && !otx.is_connected_to(r), "is_connected_to");
                        }
                    }
                    ss.push(Tx { tx: t, gone: false, wait: None, inq: 0, base: 100 * (ns as u32 + 1), n: 0 });
                }
                1 => {
                    let Some(r) = rx.as_mut() else { bad!() };
                    note(|| "recv".into());
                    check!(r.is_terminated() == ended, "is_terminated() is {} but ended is {}", r.is_terminated(), ended);
                    let (lo, hi) = r.size_hint();
                    check!(lo <= q.len() && hi.map_or(true, |h| !open && h >= q.len()), "size_hint ({lo},{hi:?}) with {} queued", q.len());
                    let got = if recv == 0 {
                        let (p, w) = if send != 1 {
                            pw(|cx| Pin::new(&mut *r).poll_next(cx))
                        } else {
                            // the same as a future
                            let mut f = r.recv();
                            check!(f.is_terminated() == ended, "is_terminated() of recv() is {} but ended is {}", f.is_terminated(), ended);
                            let (p, w) = pw(|cx| f.poll_unpin(cx));
                            (p.map(|x| x.ok()), w)
                        };
                        rxw = p.is_pending().then_some(w);
                        p
                    } else {
                        try_rx!(r, recv)
                    };
                    match got {
                        Poll::Ready(Some(t)) => {
                            let v = q.pop_front();
                            check!(Some(t.0) == v, "received {} instead of {:?}", t.0, v);
                        }
                        Poll::Ready(None) => {
                            check!(q.is_empty() && !open, "the stream ended with {} queued, open={}", q.len(), open);
                            ended = true;
                        }
                        Poll::Pending => check!(q.is_empty() && open, "pending with {} queued, open={}", q.len(), open),
                    }
                }
                k => {
                    if rx.is_none() || k == 2 && !open {
                        bad!();
                    }
                    note(|| if k == 2 { "close".into() } else { "drop the receiver".into() });
                    open = false;
                    if k == 2 {
                        rx.as_mut().unwrap().close();
                    } else {
                        rx = None;
                        rxw = None;
                        q.clear();
                    }
                }
            }
        }
        for s in &ss {
            if let Some(t) = &s.tx {
                check!(t.is_closed() == (!open || s.gone), "is_closed()={} but open={} gone={}", t.is_closed(), open, s.gone);
            }
        }
        check!(live_toks() == q.len() as i64, "{} messages are alive, {} are queued", live_toks(), q.len());
    }
    obs(q.len() as u64 * 8 + ended as u64 * 4 + open as u64);
}
macro_rules! unb {
    ($($n:ident $s:expr, $l:expr, $r:expr;)*) => { $(fn $n(b: u32) { unbounded(b, $s, $l, $r) })* };
}
unb! {
    u000 0, 0, 0;
    u011 0, 1, 1;
    u120 1, 2, 0;
    u131 1, 3, 2;
    u220 2, 2, 0;
    u201 2, 0, 1;
}

// ---- Mutex --------------------------------------------------------------------------------------

enum Lk<'a> {
    None,
    Fut(MutexLockFuture<'a, Tok>),
    Own(OwnedMutexLockFuture<Tok>),
    G(MutexGuard<'a, Tok>),
    M(MappedMutexGuard<'a, Tok, u32>),
    O(OwnedMutexGuard<Tok>),
}
fn mutex(depth: u32, slots: usize, owned: usize) {
    let (depth, slots) = if huge() { (1300, slots + 300) } else if long() { (150, slots + 34) } else { (depth, slots) };
    // 0 borrowed, 1 owned, 2 slot 1 owned and mapped guards
    let m = Arc::new(Mutex::new(tok(0)));
    let m2 = m.clone();
    let mut v: Vec<(Lk<'_>, Option<Pw>)> = (0..slots).map(|_| (Lk::None, None)).collect();
    let mut val = 0;
    counting();
    let held = |v: &[(Lk<'_>, Option<Pw>)]| v.iter().any(|l| matches!(l.0, Lk::G(_) | Lk::M(_) | Lk::O(_)));
    for t in 0..depth as usize {
        // long: everyone locks and polls; then the holder unlocks and a woken waiter is polled
        let def = if t < 2 * slots {
            t / 2
        } else {
            let g = v.iter().position(|l| matches!(l.0, Lk::G(_) | Lk::M(_) | Lk::O(_)));
            g.or(v.iter().position(|l| l.1.as_ref().map_or(false, |w| w.woken()))).unwrap_or(0)
        };
        let i = opc(slots, def);
        // identical untouched slots: only the first
        if !long() && (0..i).any(|j| matches!(v[j].0, Lk::None)) && matches!(v[i].0, Lk::None) && owned != 2 {
            bad!();
        }
        let o = owned == 1 || owned == 2 && i == 1;
        let h = held(&v);
        match &mut v[i].0 {
            Lk::None => match choose(2) {
                0 => {
                    note(|| format!("lock {i}"));
                    v[i].0 = if o { Lk::Own(m2.clone().lock_owned()) } else { Lk::Fut(m.lock()) };
                }
                _ => {
                    note(|| format!("try_lock {i}"));
                    let g = if o { m.try_lock_owned().map(Lk::O) } else { m.try_lock().map(Lk::G) };
                    check!(g.is_some() != h, "try_lock {} while the mutex is {}", if g.is_some() { "succeeds" } else { "fails" }, if h { "held" } else { "free" });
                    if let Some(g) = g {
                        v[i].0 = g;
                    }
                }
            },
            Lk::Fut(_) | Lk::Own(_) => match choose(2) {
                0 => {
                    note(|| format!("poll {i}"));
                    let (r, w) = match &mut v[i].0 {
                        Lk::Fut(f) => {
                            check!(!f.is_terminated(), "terminated before it completed");
                            let (r, w) = pw(|cx| Pin::new(&mut *f).poll(cx));
                            check!(f.is_terminated() == r.is_ready(), "is_terminated");
                            (r.map(Lk::G), w)
                        }
                        Lk::Own(f) => {
                            check!(!f.is_terminated(), "terminated before it completed");
                            let (r, w) = pw(|cx| Pin::new(&mut *f).poll(cx));
                            check!(f.is_terminated() == r.is_ready(), "is_terminated");
                            (r.map(Lk::O), w)
                        }
                        _ => unreachable!(),
                    };
                    match r {
                        Poll::Ready(g) => {
                            check!(!h, "two guards at once");
                            v[i] = (g, None);
                        }
                        Poll::Pending => {
                            check!(h, "pending on a free mutex");
                            v[i].1 = Some(w);
                        }
                    }
                }
                _ => {
                    note(|| format!("cancel {i}"));
                    v[i] = (Lk::None, None);
                }
            },
            Lk::G(_) | Lk::M(_) | Lk::O(_) => {
                if owned == 2 && matches!(v[i].0, Lk::G(_)) && flip() {
                    note(|| format!("map {i}"));
                    let Lk::G(g) = std::mem::replace(&mut v[i].0, Lk::None) else { unreachable!() };
                    v[i].0 = Lk::M(MutexGuard::map(g, |t| &mut t.0));
                } else {
                    note(|| format!("unlock {i}"));
                    val += 1;
                    match &mut v[i].0 {
                        Lk::G(g) => {
                            check!(g.0 == val - 1, "stale data");
                            **g = tok(val);
                        }
                        Lk::O(g) => {
                            check!(g.0 == val - 1, "stale data");
                            **g = tok(val);
                        }
                        Lk::M(g) => {
                            check!(**g == val - 1, "stale data");
                            val -= 1;
                        }
                        _ => unreachable!(),
                    }
                    v[i] = (Lk::None, None);
                }
            }
        }
        // the mutex is free and someone waits: some waiter has been woken since its last poll
        if !held(&v) {
            let w: Vec<_> = v.iter().filter(|l| l.1.is_some()).collect();
            check!(w.is_empty() || w.iter().any(|l| l.1.as_ref().unwrap().woken()), "the mutex is free, {} tasks wait and none is woken", w.len());
        }
    }
    obs(val as u64 * 2 + held(&v) as u64);
    drop(v);
    check!(m.try_lock().is_some(), "the mutex is not free although all guards are gone");
    drop(m2);
    match Arc::try_unwrap(m) {
        Ok(mut m) => {
            check!(m.get_mut().0 == val, "get_mut sees {} instead of {}", m.get_mut().0, val);
            check!(m.into_inner().0 == val, "into_inner");
        }
        Err(_) => fail("a handle of the mutex was leaked".into()),
    }
}
fn mx3b(b: u32) {
    mutex(b, 3, 0)
}
fn mx3o(b: u32) {
    mutex(b, 3, 1)
}
fn mx2m(b: u32) {
    mutex(b, 2, 2)
}
fn mx4(b: u32) {
    mutex(b, 4, 0)
}

// ---- children of collections and executors -----------------------------------------------------------

#[derive(Default)]
struct ChSt {
    wk: Vec<Option<Waker>>,
    fired: Vec<bool>,
    notified: Vec<bool>,
    polls: Vec<u32>,
    done: Vec<bool>,
    dropped: Vec<bool>,
    selfwake: Vec<u32>,
    /// child to wake (true: fire) at the next poll of this one
    other: Vec<Option<(usize, bool)>>,
    active: bool,
    /// polling without a wake-up is fine
    spurious: bool,
    order: Vec<usize>,
}
type Sh = Rc<RefCell<ChSt>>;
struct Ch {
    id: usize,
    sh: Sh,
    _t: Tok,
}
fn child(sh: &Sh) -> Ch {
    let mut g = sh.borrow_mut();
    g.wk.push(None);
    g.fired.push(false);
    g.notified.push(true);
    g.polls.push(0);
    g.done.push(false);
    g.dropped.push(false);
    g.selfwake.push(0);
    g.other.push(None);
    Ch { id: g.wk.len() - 1, sh: sh.clone(), _t: tok(7) }
}
impl Future for Ch {
    type Output = usize;
    fn poll(self: Pin<&mut Self>, cx: &mut Context<'_>) -> Poll<usize> {
        let i = self.id;
        let mut g = self.sh.borrow_mut();
        if g.active {
            fail_soft(format!("child {i} is polled while a child is being polled"));
        }
        if g.done[i] {
            fail_soft(format!("child {i} is polled after it completed"));
        }
        if !std::mem::replace(&mut g.notified[i], false) && !g.spurious {
            fail_soft(format!("child {i} is polled although its waker was not used"));
        }
        g.polls[i] += 1;
        g.order.push(i);
        g.wk[i] = Some(cx.waker().clone());
        if let Some((j, f)) = g.other[i].take() {
            drop(g);
            fire_ch(&self.sh, j, f);
            g = self.sh.borrow_mut();
        }
        if g.fired[i] {
            g.done[i] = true;
            return Poll::Ready(i);
        }
        if g.selfwake[i] > 0 {
            g.selfwake[i] -= 1;
            g.notified[i] = true;
            let w = cx.waker().clone();
            drop(g);
            w.wake();
        }
        Poll::Pending
    }
}
impl Drop for Ch {
    fn drop(&mut self) {
        let mut g = self.sh.borrow_mut();
        if std::mem::replace(&mut g.dropped[self.id], true) {
            fail_soft("a child is dropped twice".into());
        }
    }
}
/// Fire (or just wake) child `i`; says whether its waker was used.
fn fire_ch(sh: &Sh, i: usize, fire: bool) -> bool {
    let w = {
        let mut g = sh.borrow_mut();
        if fire {
            g.fired[i] = true;
        }
        let Some(w) = g.wk[i].clone() else { return false };
        if !g.done[i] && !g.dropped[i] {
            g.notified[i] = true;
        }
        w
    };
    w.wake();
    true
}

/// FuturesUnordered: push, wake, poll, iterate, clear.
fn fu(depth: u32, maxch: usize, ops: usize) {
    let (depth, maxch) = if huge() { (1300, 600) } else if long() { (160, 70) } else { (depth, maxch) };
    counting();
    let sh: Sh = Default::default();
    let mut set: FuturesUnordered<Ch> = FuturesUnordered::new();
    let mut live: BTreeSet<usize> = BTreeSet::new();
    let mut wait: Option<Pw> = None;
    let mut ended = false;
    for t in 0..depth as usize {
        let n = sh.borrow().wk.len();
        // long: push many, poll, then complete some and poll in turns
        let (def, who) = match t {
            0..40 => (0, 0),
            40 => (3, 0),
            t => ([1, 1, 3, 3, 2, 3][t % 6], t * 7 % n.max(1)),
        };
        match opc(ops, def) {
            0 => {
                if n >= maxch {
                    bad!();
                }
                note(|| format!("push {n}"));
                let c = child(&sh);
                live.insert(c.id);
                if ops > 5 && n == 1 {
                    set.extend([c]);
                } else {
                    set.push(c);
                }
                wait = None;
                ended = false;
            }
            k @ (1 | 2) => {
                if n == 0 {
                    bad!();
                }
                let i = opc(n, who);
                if k == 1 && sh.borrow().fired[i] || k == 2 && sh.borrow().wk[i].is_none() {
                    bad!();
                }
                note(|| format!("{} {i}", if k == 1 { "fire" } else { "wake" }));
                let used = fire_ch(&sh, i, k == 1);
                if used && live.contains(&i) {
                    if let Some(w) = &wait {
                        check!(w.woken(), "child {i} was woken but the set's task was not");
                    }
                }
            }
            3 => {
                note(|| "poll".into());
                let before = sh.borrow().polls.clone();
                let due: Vec<usize> = live.iter().copied().filter(|&i| sh.borrow().notified[i]).collect();
                let (r, w) = pw(|cx| Pin::new(&mut set).poll_next(cx));
                if failed() {
                    return;
                }
                wait = None;
                match r {
                    Poll::Ready(Some(i)) => {
                        check!(live.remove(&i), "child {i} yields twice");
                        check!(sh.borrow().done[i], "child {i} has not completed");
                    }
                    Poll::Ready(None) => {
                        check!(live.is_empty(), "the set ended with {} futures left", live.len());
                        ended = true;
                    }
                    Poll::Pending => {
                        check!(!live.is_empty(), "an empty set is pending");
                        let left: Vec<usize> = live.iter().copied().filter(|&i| sh.borrow().notified[i]).collect();
                        check!(left.is_empty() || w.woken(), "children {left:?} are due and the task is not woken");
                        for i in due {
                            check!(sh.borrow().polls[i] > before[i] || w.woken(), "child {i} was due and not polled");
                        }
                        wait = Some(w);
                    }
                }
            }
            4 => {
                if n == 0 {
                    bad!();
                }
                let i = opc(n, who);
                let k = choose(3);
                let mut g = sh.borrow_mut();
                if g.selfwake[i] > 0 || g.other[i].is_some() || g.fired[i] || g.done[i] {
                    drop(g);
                    bad!();
                }
                // the child wakes itself, or wakes or completes its neighbour, at its next poll
                match k {
                    0 => g.selfwake[i] = 1,
                    k => {
                        if n < 2 {
                            drop(g);
                            bad!();
                        }
                        g.other[i] = Some(((i + 1) % n, k == 2))
                    }
                }
            }
            5 => {
                note(|| "iterate".into());
                let ids: BTreeSet<usize> = set.iter().map(|c| c.id).collect();
                check!(ids == live, "iter() sees {ids:?}, there are {live:?}");
                let mut it = set.iter_mut();
                let mut left = live.len();
                let mut seen = BTreeSet::new();
                loop {
                    check!(it.size_hint() == (left, Some(left)) && it.len() == left, "iter_mut().size_hint() is {:?} with {left} left", it.size_hint());
                    let Some(c) = it.next() else { break };
                    check!(seen.insert(c.id), "iter_mut() repeats a future");
                    left = left.saturating_sub(1);
                }
                check!(seen == live, "iter_mut() sees {seen:?}");
                let mut it = set.iter();
                let mut left = live.len();
                loop {
                    check!(it.size_hint() == (left, Some(left)) && it.len() == left, "iter().size_hint() is {:?} with {left} left", it.size_hint());
                    if it.next().is_none() {
                        break;
                    }
                    left = left.saturating_sub(1);
                }
                let p: BTreeSet<usize> = Pin::new(&set).iter_pin_ref().map(|c| c.id).collect();
                check!(p == live, "iter_pin_ref() sees {p:?}");
                let p: BTreeSet<usize> = Pin::new(&mut set).iter_pin_mut().map(|c| c.id).collect();
                check!(p == live, "iter_pin_mut() sees {p:?}");
                let p: BTreeSet<usize> = (&set).into_iter().map(|c| c.id).collect();
                let q: BTreeSet<usize> = (&mut set).into_iter().map(|c| c.id).collect();
                check!(p == live && q == live, "into_iter() of a reference sees {p:?} and {q:?}");
            }
            6 => {
                note(|| "clear".into());
                set.clear();
                wait = None;
                ended = false;
                for i in std::mem::take(&mut live) {
                    check!(sh.borrow().dropped[i], "clear() does not drop child {i}");
                }
            }
            _ => {
                note(|| "into_iter".into());
                let mut it = std::mem::take(&mut set).into_iter();
                let want = std::mem::take(&mut live);
                let mut left = want.len();
                let stop = choose(left + 1);
                let mut seen = BTreeSet::new();
                loop {
                    check!(it.size_hint() == (left, Some(left)) && it.len() == left, "into_iter().size_hint() is {:?} with {left} left", it.size_hint());
                    if left == stop && stop > 0 {
                        break;
                    }
                    let Some(c) = it.next() else { break };
                    check!(seen.insert(c.id) && want.contains(&c.id), "into_iter() yields {} twice", c.id);
                    left = left.saturating_sub(1);
                }
                check!(left == stop, "into_iter() yields {} of {}", seen.len(), want.len());
                drop(it);
                for i in &want {
                    check!(sh.borrow().dropped[*i], "dropping into_iter() does not drop child {i}");
                }
                wait = None;
                ended = false;
            }
        }
        check!(set.len() == live.len() && set.is_empty() == live.is_empty(), "len() is {} with {} futures", set.len(), live.len());
        check!(set.is_terminated() == ended, "is_terminated() is {} but ended is {}", set.is_terminated(), ended);
        let dr = sh.borrow().dropped.clone();
        for (i, d) in dr.iter().enumerate() {
            check!(*d != live.contains(&i), "child {i} is {}", if *d { "dropped early" } else { "kept after it left the set" });
        }
    }
    obs(live.len() as u64 * 2 + ended as u64);
    // wakers outlive the set
    drop(set);
    let n = sh.borrow().wk.len();
    for i in 0..n {
        fire_ch(&sh, i, false);
    }
    let ws = std::mem::take(&mut sh.borrow_mut().wk);
    drop(ws);
}
fn fu3(b: u32) {
    fu(b, 3, 5)
}
fn fu4(b: u32) {
    fu(b, 4, 4)
}
fn fu_iter(b: u32) {
    fu(b, 3, 8)
}

/// FuturesOrdered: push at both ends, complete in any order.
fn fo(b: u32, wide: bool) {
    let b = if huge() { 1300 } else if long() { 160 } else { b };
    counting();
    let sh: Sh = Default::default();
    let mut set: FuturesOrdered<Ch> = FuturesOrdered::new();
    let mut q: VecDeque<usize> = VecDeque::new();
    let mut wait: Option<Pw> = None;
    for t in 0..b as usize {
        let n = sh.borrow().wk.len();
        let (def, who) = match t {
            0..40 => (t % 2, 0),
            40 => (3, 0),
            t => ([2, 2, 3, 3, 2, 3][t % 6], t * 7 % n.max(1)),
        };
        match opc(if wide { 5 } else { 4 }, def) {
            k @ (0 | 1) => {
                if n >= if huge() { 600 } else if long() { 70 } else if wide { 4 } else { 5 } {
                    bad!();
                }
                note(|| format!("push_{} {n}", if k == 0 { "back" } else { "front" }));
                let c = child(&sh);
                if k == 0 {
                    q.push_back(c.id);
                    match n % 3 {
                        0 => set.push_back(c),
                        1 => set.extend([c]),
                        #[allow(deprecated)]
                        _ => set.push(c),
                    }
                } else {
                    q.push_front(c.id);
                    set.push_front(c);
                }
                wait = None;
            }
            2 => {
                if n == 0 {
                    bad!();
                }
                let i = opc(n, who);
                if sh.borrow().fired[i] {
                    bad!();
                }
                note(|| format!("complete {i}"));
                let used = fire_ch(&sh, i, true);
                if used && q.front() == Some(&i) {
                    if let Some(w) = &wait {
                        check!(w.woken(), "the head completed but the task was not woken");
                    }
                }
            }
            3 => {
                note(|| "poll".into());
                check!(set.size_hint() == (q.len(), Some(q.len())), "size_hint() is {:?} with {} queued", set.size_hint(), q.len());
                let (r, w) = pw(|cx| Pin::new(&mut set).poll_next(cx));
                if failed() {
                    return;
                }
                wait = None;
                match r {
                    Poll::Ready(Some(i)) => {
                        let h = q.pop_front();
                        check!(Some(i) == h, "yields {i} instead of {h:?}");
                    }
                    Poll::Ready(None) => check!(q.is_empty(), "ended with {} queued", q.len()),
                    Poll::Pending => {
                        let h = q.front().copied();
                        let g = sh.borrow();
                        check!(h.map_or(false, |h| !g.fired[h]), "pending although the head {h:?} can complete");
                        check!(q.iter().all(|&i| g.polls[i] > 0), "a queued future is not polled");
                        wait = Some(w);
                    }
                }
            }
            _ => {
                note(|| "clear".into());
                set.clear();
                q.clear();
                wait = None;
                check!(sh.borrow().dropped.iter().all(|d| *d), "clear() keeps a future");
            }
        }
        check!(set.len() == q.len() && set.is_empty() == q.is_empty(), "len() is {} with {} queued", set.len(), q.len());
    }
    obs(q.len() as u64);
    drop(set);
    let ws = std::mem::take(&mut sh.borrow_mut().wk);
    drop(ws);
}
fn fo5(b: u32) {
    fo(b, false)
}
fn fo_wide(b: u32) {
    fo(b, true)
}

// ---- oneshot ------------------------------------------------------------------------------------

fn oneshot(b: u32) {
    use futures::channel::oneshot;
    let (tx, rx) = oneshot::channel::<Tok>();
    let (mut tx, mut rx) = (Some(tx), Some(rx));
    // what the receiver will get: None while undecided
    let mut sent: Option<Option<u32>> = None;
    let mut taken = false;
    let mut closed = false;
    let (mut txw, mut rxw): (Option<Pw>, Option<Pw>) = (None, None);
    // the receiver reported its end
    let mut over = false;
    for _ in 0..b {
        match choose(8) {
            0 => {
                let Some(t) = tx.take() else { skip() };
                note(|| "send".into());
                txw = None;
                match t.send(tok(5)) {
                    Ok(()) => {
                        check!(!closed && rx.is_some(), "sending to a closed receiver succeeds");
                        sent = Some(Some(5));
                        if let Some(w) = rxw.take() {
                            check!(w.woken(), "the receiver was not woken by the value");
                        }
                    }
                    Err(v) => {
                        check!(v.0 == 5, "another value came back");
                        check!(closed || rx.is_none(), "sending fails although the receiver is there");
                        sent = Some(None);
                    }
                }
            }
            1 => {
                if tx.is_none() {
                    skip();
                }
                note(|| "drop the sender".into());
                tx = None;
                txw = None;
                sent = Some(None);
                if let Some(w) = rxw.take() {
                    check!(w.woken(), "the receiver was not woken by the sender's drop");
                }
            }
            2 => {
                let Some(t) = tx.as_mut() else { skip() };
                note(|| "poll_canceled".into());
                let c = closed || rx.is_none();
                check!(t.is_canceled() == c, "is_canceled() is {}", t.is_canceled());
                let (r, w) = pw(|cx| t.poll_canceled(cx));
                check!(r.is_ready() == c, "poll_canceled is {r:?} but the receiver is {}", if c { "gone" } else { "there" });
                txw = r.is_pending().then_some(w);
            }
            3 => {
                let Some(r) = rx.as_mut() else { skip() };
                if over {
                    skip();
                }
                note(|| "poll the receiver".into());
                let (p, w) = pw(|cx| Pin::new(&mut *r).poll(cx));
                rxw = None;
                match p {
                    Poll::Ready(Ok(t)) => {
                        check!(sent == Some(Some(t.0)) && !taken, "a value from nowhere");
                        taken = true;
                        over = true;
                    }
                    Poll::Ready(Err(_)) => {
                        check!(taken || sent == Some(None) || closed && sent.is_none(), "canceled although {}", if sent.is_none() { "the sender is there" } else { "a value was sent" });
                        over = true;
                    }
                    Poll::Pending => {
                        check!(sent.is_none() && !closed, "pending although the sender is gone");
                        rxw = Some(w);
                    }
                }
            }
            4 => {
                let Some(r) = rx.as_mut() else { skip() };
                note(|| "try_recv".into());
                match r.try_recv() {
                    Ok(Some(t)) => {
                        check!(sent == Some(Some(t.0)) && !taken, "a value from nowhere");
                        taken = true;
                    }
                    Ok(None) => check!(sent.is_none() && !closed, "try_recv finds nothing although the sender is gone"),
                    Err(_) => check!(taken || sent == Some(None) || closed && sent.is_none(), "canceled although {}", if sent.is_none() { "the sender is there" } else { "a value was sent" }),
                }
            }
            5 => {
                let Some(r) = rx.as_mut() else { skip() };
                if closed {
                    skip();
                }
                note(|| "close".into());
                r.close();
                closed = true;
                if let Some(w) = txw.take() {
                    check!(w.woken(), "the sender was not woken by close");
                }
            }
            6 => {
                if rx.is_none() {
                    skip();
                }
                note(|| "drop the receiver".into());
                rx = None;
                rxw = None;
                if let Some(w) = txw.take() {
                    check!(w.woken(), "the sender was not woken by the receiver's drop");
                }
                check!(live_toks() == 0, "the value survives the receiver");
            }
            _ => {
                // the sender as a future of its own: cancellation()
                let Some(t) = tx.as_mut() else { skip() };
                note(|| "cancellation".into());
                let c = closed || rx.is_none();
                let (r, w) = pw(|cx| Pin::new(&mut t.cancellation()).poll(cx));
                check!(r.is_ready() == c, "cancellation() is {r:?}");
                txw = r.is_pending().then_some(w);
                if let Some(r) = &rx {
                    check!(t.is_connected_to(r), "is_connected_to");
                }
            }
        }
        if let Some(r) = &rx {
            // nothing is left to come
            let want = taken || sent == Some(None) || closed && sent.is_none();
            if over {
                check!(r.is_terminated(), "is_terminated() is false after the end");
            }
            if r.is_terminated() {
                check!(want, "is_terminated() although something is to come");
            }
        }
        let q = matches!(sent, Some(Some(_))) && !taken && rx.is_some();
        check!(live_toks() == q as i64, "{} values are alive, {} are on their way", live_toks(), q as u32);
    }
}

// ---- Shared -------------------------------------------------------------------------------------

fn shared(depth: u32, max: usize) {
    use futures::future::{Shared, WeakShared};
    let sh: Sh = Default::default();
    struct H {
        s: Option<Shared<Ch>>,
        w: Option<Pw>,
        got: bool,
    }
    sh.borrow_mut().spurious = true;
    let (depth, max) = if huge() { (1200, 300) } else if long() { (130, 36) } else { (depth, max) };
    counting();
    let mut hs = vec![H { s: Some(child(&sh).shared()), w: None, got: false }];
    let mut weak: Option<WeakShared<Ch>> = None;
    for t in 0..depth as usize {
        let n = hs.len();
        // long: clone, poll all, drop some, complete, poll all
        let def = match t {
            0..34 => 2 * n,
            34..70 => t % n * 2,
            70..80 => t % n * 2 + 1,
            80 => 2 * n + 1,
            _ => t % n * 2,
        };
        let op = opc(2 * n + 5, def);
        if op < 2 * n {
            let i = op / 2;
            if hs[i].s.is_none() || hs[i].got && op % 2 == 0 {
                bad!();
            }
            if op % 2 == 0 {
                note(|| format!("poll {i}"));
                let h = &mut hs[i];
                check!(!h.s.as_ref().unwrap().is_terminated(), "terminated early");
                let (r, w) = pw(|cx| Pin::new(h.s.as_mut().unwrap()).poll(cx));
                if failed() {
                    return;
                }
                h.w = None;
                match r {
                    Poll::Ready(v) => {
                        check!(v == 0 && sh.borrow().done[0], "an output from nowhere");
                        h.got = true;
                        check!(h.s.as_ref().unwrap().is_terminated(), "not terminated after its output");
                    }
                    Poll::Pending => {
                        check!(!sh.borrow().done[0], "pending although the output is there");
                        let due = sh.borrow().fired[0];
                        check!(!due || w.woken() || sh.borrow().wk[0].is_none(), "pending although the inner future can complete");
                        h.w = Some(w);
                    }
                }
            } else {
                note(|| format!("drop {i}"));
                hs[i].s = None;
                hs[i].w = None;
            }
        } else {
            match op - 2 * n {
                0 => {
                    if n >= max {
                        bad!();
                    }
                    let Some(k) = hs.iter().position(|h| h.s.is_some() && !h.got) else { bad!() };
                    note(|| format!("clone {k}"));
                    let c = hs[k].s.clone();
                    check!(c.as_ref().unwrap().ptr_eq(hs[k].s.as_ref().unwrap()), "a clone is not ptr_eq");
                    hs.push(H { s: c, w: None, got: false });
                }
                k @ (1 | 2) => {
                    if k == 1 && sh.borrow().fired[0] || k == 2 && (sh.borrow().wk[0].is_none() || sh.borrow().done[0]) {
                        bad!();
                    }
                    note(|| if k == 1 { "fire".into() } else { "wake".into() });
                    fire_ch(&sh, 0, k == 1);
                }
                3 => {
                    if weak.is_some() {
                        bad!();
                    }
                    let Some(k) = hs.iter().position(|h| h.s.is_some() && !h.got) else { bad!() };
                    note(|| "downgrade".into());
                    weak = hs[k].s.as_ref().unwrap().downgrade();
                    check!(weak.is_some(), "downgrade of a live handle fails");
                }
                _ => {
                    let Some(wk) = &weak else { bad!() };
                    if n >= max {
                        bad!();
                    }
                    note(|| "upgrade".into());
                    let u = wk.upgrade();
                    let alive = hs.iter().any(|h| h.s.is_some() && !h.got);
                    check!(u.is_some() == alive, "upgrade {} but {} handles are left", if u.is_some() { "succeeds" } else { "fails" }, if alive { "some" } else { "no" });
                    let Some(u) = u else { continue };
                    hs.push(H { s: Some(u), w: None, got: false });
                }
            }
        }
        let g = sh.borrow();
        let strong = hs.iter().filter(|h| h.s.is_some() && !h.got).count();
        for (i, h) in hs.iter().enumerate() {
            let Some(s) = &h.s else { continue };
            if h.got {
                check!(s.strong_count().is_none() && s.peek().is_none(), "a finished handle still counts");
                continue;
            }
            check!(s.peek().is_some() == g.done[0], "peek() on {i}: {:?}", s.peek());
            check!(s.strong_count() == Some(strong), "strong_count() is {:?}, there are {strong}", s.strong_count());
            check!(s.weak_count() == Some(weak.is_some() as usize), "weak_count() is {:?}", s.weak_count());
            if g.done[0] {
                check!(h.w.as_ref().map_or(true, |w| w.woken()), "the output is there and handle {i} is not woken");
            }
        }
        check!(g.polls[0] == 0 || g.done[0] || !g.notified[0] || hs.iter().all(|h| h.w.is_none()) || hs.iter().any(|h| h.w.as_ref().map_or(false, |w| w.woken())), "the inner future signalled progress and no waiting handle is woken");
        // the inner future is dropped once it completed or the last handle is gone
        if strong == 0 {
            check!(g.dropped[0], "the inner future outlives all handles");
        } else if !g.done[0] {
            check!(!g.dropped[0], "the inner future is dropped early");
        }
        drop(g);
    }
    obs(hs.len() as u64);
    drop(hs);
    drop(weak);
    let ws = std::mem::take(&mut sh.borrow_mut().wk);
    drop(ws);
}
fn sh3(b: u32) {
    shared(b, 3)
}
fn sh4(b: u32) {
    shared(b, 4)
}

// ---- LocalPool ----------------------------------------------------------------------------------

/// A task: a child that may spawn another one when it is first polled, and reports completion.
struct Task {
    c: Ch,
    spawns: Option<futures::executor::LocalSpawner>,
    made: Rc<RefCell<Vec<usize>>>,
    /// another child to fire when first polled
    fires: Option<usize>,
}
impl Future for Task {
    type Output = ();
    fn poll(mut self: Pin<&mut Self>, cx: &mut Context<'_>) -> Poll<()> {
        use futures::task::LocalSpawn;
        if let Some(sp) = self.spawns.take() {
            let c = child(&self.c.sh);
            self.made.borrow_mut().push(c.id);
            let t = Task { c, spawns: None, made: self.made.clone(), fires: None };
            if sp.spawn_local_obj(Box::new(t).into()).is_err() {
                fail_soft("spawning from a task fails".into());
            }
        }
        let r = Pin::new(&mut self.c).poll(cx).map(|_| ());
        if let Some(i) = self.fires.take() {
            let known = i < self.c.sh.borrow().wk.len();
            if known {
                fire_ch(&self.c.sh, i, true);
            }
        }
        r
    }
}
struct AsSend<F>(F);
unsafe impl<F> Send for AsSend<F> {}
impl<F: Future + Unpin> Future for AsSend<F> {
    type Output = F::Output;
    fn poll(mut self: Pin<&mut Self>, cx: &mut Context<'_>) -> Poll<F::Output> {
        Pin::new(&mut self.0).poll(cx)
    }
}
/// FuturesUnordered as a spawner: a spawned task is pushed, and run by polling the set.
fn fu_spawn(b: u32) {
    use futures::task::{FutureObj, LocalFutureObj, LocalSpawn, Spawn};
    let sh: Sh = Default::default();
    let made: Rc<RefCell<Vec<usize>>> = Default::default();
    let local = flip();
    let mut ls: FuturesUnordered<LocalFutureObj<'static, ()>> = FuturesUnordered::new();
    let mut ss: FuturesUnordered<FutureObj<'static, ()>> = FuturesUnordered::new();
    let mut live: BTreeSet<usize> = BTreeSet::new();
    for _ in 0..b {
        let n = sh.borrow().wk.len();
        match choose(3) {
            0 => {
                if n >= 3 {
                    bad!();
                }
                note(|| format!("spawn {n}"));
                let c = child(&sh);
                live.insert(c.id);
                let t = Task { c, spawns: None, made: made.clone(), fires: None };
                let r = if local { ls.status_local().and(ls.spawn_local_obj(Box::new(t).into())) } else { ss.status().and(ss.spawn_obj(Box::new(AsSend(t)).into())) };
                check!(r.is_ok(), "spawning on the set fails");
            }
            1 => {
                if n == 0 {
                    bad!();
                }
                let i = choose(n);
                if sh.borrow().fired[i] {
                    bad!();
                }
                note(|| format!("fire {i}"));
                fire_ch(&sh, i, true);
            }
            _ => {
                note(|| "poll".into());
                let (r, _w) = if local { pw(|cx| Pin::new(&mut ls).poll_next(cx)) } else { pw(|cx| Pin::new(&mut ss).poll_next(cx)) };
                if failed() {
                    return;
                }
                let done: Vec<usize> = live.iter().copied().filter(|&i| sh.borrow().done[i]).collect();
                match r {
                    Poll::Ready(Some(())) => check!(done.len() == 1, "{} tasks completed for one result", done.len()),
                    Poll::Ready(None) => check!(live.is_empty(), "ended with tasks"),
                    Poll::Pending => check!(!live.is_empty() && done.is_empty() && live.iter().all(|&i| !sh.borrow().fired[i]), "pending although a task can complete"),
                }
                for i in done {
                    live.remove(&i);
                }
            }
        }
        check!(ls.len() + ss.len() == live.len(), "{} tasks in the set, {} spawned and unfinished", ls.len() + ss.len(), live.len());
    }
    obs(live.len() as u64);
    drop(ls);
    drop(ss);
    check!(sh.borrow().dropped.iter().all(|d| *d), "dropping the set leaves a task behind");
    let ws = std::mem::take(&mut sh.borrow_mut().wk);
    drop(ws);
}
fn local_pool(depth: u32, maxch: usize, own: bool) {
    use futures::executor::{block_on, LocalPool};
    use futures::task::{LocalSpawn, LocalSpawnExt, Spawn};
    let sh: Sh = Default::default();
    let made: Rc<RefCell<Vec<usize>>> = Default::default();
    let mut pool = LocalPool::new();
    let sp = pool.spawner();
    let mut live: BTreeSet<usize> = BTreeSet::new();
    let mut handles = vec![];
    let (depth, maxch) = if huge() { (1100, 600) } else if long() { (110, 70) } else { (depth, maxch) };
    counting();
    for t in 0..depth as usize {
        let n = sh.borrow().wk.len();
        let (def, who) = match t {
            0..36 => (t % 3, 0),
            t => ([6, 3, 5, 3, 4, 5][t % 6], t * 7 % n.max(1)),
        };
        match opc(8, def) {
            k @ (0 | 1 | 2) => {
                if n >= maxch {
                    bad!();
                }
                note(|| format!("spawn {n} ({k})"));
                let c = child(&sh);
                live.insert(c.id);
                match k {
                    1 if own => {
                        sh.borrow_mut().selfwake[c.id] = 1 + (c.id % 2 * 2) as u32;
                        let t = Task { c, spawns: None, made: made.clone(), fires: None };
                        check!(sp.spawn_local(t).is_ok(), "spawning fails");
                    }
                    2 if own => {
                        let fires = Some(if c.id == 0 { 1 } else { c.id - 1 });
                        let t = Task { c, spawns: None, made: made.clone(), fires };
                        check!(sp.spawn_local(t).is_ok(), "spawning fails");
                    }
                    0 => {
                        let send = c.id % 2 == 1;
                        let t = Task { c, spawns: None, made: made.clone(), fires: None };
                        let r = if send { sp.spawn_obj(Box::new(AsSend(t)).into()) } else { sp.spawn_local_obj(Box::new(t).into()) };
                        check!(r.is_ok(), "spawning fails");
                    }
                    1 => {
                        let t = Task { c, spawns: Some(sp.clone()), made: made.clone(), fires: None };
                        check!(sp.spawn_local(t).is_ok(), "spawning fails");
                    }
                    _ => {
                        let id = c.id;
                        match sp.spawn_local_with_handle(c) {
                            Ok(h) => handles.push((id, h)),
                            Err(_) => fail("spawning fails".into()),
                        }
                    }
                }
            }
            k @ (3 | 4) => {
                if n == 0 {
                    bad!();
                }
                let i = opc(n, who);
                if k == 3 && sh.borrow().fired[i] || k == 4 && (sh.borrow().wk[i].is_none() || !live.contains(&i)) {
                    bad!();
                }
                note(|| format!("{} {i}", if k == 3 { "fire" } else { "wake" }));
                fire_ch(&sh, i, k == 3);
            }
            k @ (5 | 6) => {
                note(|| if k == 5 { "try_run_one".into() } else { "run_until_stalled".into() });
                let before = live.len();
                step();
                let r = if k == 5 {
                    pool.try_run_one()
                } else {
                    pool.run_until_stalled();
                    true
                };
                if failed() {
                    return;
                }
                for i in made.borrow_mut().drain(..) {
                    live.insert(i);
                }
                let added = live.len() - before;
                let all = live.len();
                live.retain(|&i| !sh.borrow().done[i]);
                let _ = added;
                let fin = all - live.len();
                let due: Vec<usize> = live.iter().copied().filter(|&i| sh.borrow().notified[i]).collect();
                if k == 5 {
                    check!(fin == r as usize, "try_run_one() returns {r} and {fin} tasks completed");
                    check!(r || due.is_empty(), "try_run_one() returns false although tasks {due:?} can run");
                } else {
                    check!(due.is_empty(), "run_until_stalled() returns although tasks {due:?} can run");
                }
            }
            _ => {
                // blocking calls, where they must not block
                let g = sh.borrow();
                let all = live.iter().all(|&i| g.fired[i]);
                let due = handles.iter().position(|(i, _)| g.fired[*i]);
                drop(g);
                match choose(3) {
                    0 => {
                        if !all || handles.iter().any(|(i, _)| live.contains(i)) {
                            bad!();
                        }
                        // tasks spawned on the way are not fired yet
                        if live.iter().any(|&i| sh.borrow().polls[i] == 0) {
                            bad!();
                        }
                        note(|| "run".into());
                        pool.run();
                        for &i in &live {
                            check!(sh.borrow().done[i], "run() returns before task {i} completed");
                        }
                        live.clear();
                    }
                    1 => {
                        let Some(k) = due else { bad!() };
                        let (id, h) = handles.remove(k);
                        note(|| format!("run_until the handle of {id}"));
                        let v = pool.run_until(h);
                        check!(v == id, "the handle yields {v} instead of {id}");
                        check!(sh.borrow().done[id], "the handle resolves before its task");
                        for i in made.borrow_mut().drain(..) {
                            live.insert(i);
                        }
                        live.retain(|&i| !sh.borrow().done[i]);
                    }
                    _ => {
                        note(|| "block_on / run_until ready".into());
                        check!(block_on(async { 3 }) == 3, "block_on");
                        check!(pool.run_until(async { 4 }) == 4, "run_until");
                        for i in made.borrow_mut().drain(..) {
                            live.insert(i);
                        }
                        live.retain(|&i| !sh.borrow().done[i]);
                    }
                }
            }
        }
        if failed() {
            return;
        }
        let dr = sh.borrow().dropped.clone();
        for &i in &live {
            check!(!dr[i], "task {i} is dropped before it completed");
        }
        check!(sp.status_local().is_ok() && sp.status().is_ok(), "the spawner reports shutdown");
    }
    obs(live.len() as u64);
    drop(handles);
    drop(pool);
    if failed() {
        return;
    }
    let dr = sh.borrow().dropped.clone();
    check!(dr.iter().all(|d| *d), "dropping the pool leaves a task behind");
    check!(sp.status_local().is_err() && sp.status().is_err(), "the spawner of a dropped pool reports no shutdown");
    let e = sp.spawn_local(async {});
    check!(e.is_err() && e.unwrap_err().is_shutdown(), "spawning on a dropped pool succeeds");
    let e = sp.spawn_obj(Box::new(async {}).into());
    check!(e.is_err() && e.unwrap_err().is_shutdown(), "spawning on a dropped pool succeeds");
    let ws = std::mem::take(&mut sh.borrow_mut().wk);
    drop(ws);
}
fn lp(b: u32) {
    local_pool(b, 3, false)
}
/// Tasks that wake themselves or each other while being polled.
/// A stream driven as an iterator: its items, its hint and its rest.
fn lp_stream(b: u32) {
    use futures::executor::block_on_stream;
    let n = choose(4);
    let (mut k, mut left, mut ended) = (0, b, 0);
    let lo = choose(n + 1);
    struct H<S>(S, usize, usize);
    impl<S: Stream<Item = usize> + Unpin> Stream for H<S> {
        type Item = usize;
        fn poll_next(mut self: Pin<&mut Self>, cx: &mut Context<'_>) -> Poll<Option<usize>> {
            let r = Pin::new(&mut self.0).poll_next(cx);
            if let Poll::Ready(Some(_)) = r {
                self.1 = self.1.saturating_sub(1);
                self.2 -= 1;
            }
            r
        }
        fn size_hint(&self) -> (usize, Option<usize>) {
            (self.1, Some(self.2))
        }
    }
    let st = H(
        stream::poll_fn(move |cx| {
            if left > 0 && choose(2) == 1 {
                left -= 1;
                cx.waker().wake_by_ref();
                return Poll::Pending;
            }
            if k == n {
                ended += 1;
                check!(ended == 1, "polled after its end");
                return Poll::Ready(None);
            }
            k += 1;
            Poll::Ready(Some(k))
        }),
        lo,
        n,
    );
    let mut it = block_on_stream(st);
    let stop = choose(n + 2);
    for t in 0..stop {
        check!(it.size_hint() == (lo.saturating_sub(t), Some(n - t)), "size_hint is {:?} after {t} of {n}", it.size_hint());
        check!(it.2 == n - t, "deref");
        it.1 = it.1.max(0);
        let x = it.next();
        check!(x == (t < n).then_some(t + 1), "item {t} of {n} is {x:?}");
        if t >= n {
            return;
        }
    }
    let mut st = it.into_inner();
    let mut rest = 0;
    let (_, _) = pw(|cx| loop {
        match Pin::new(&mut st).poll_next(cx) {
            Poll::Ready(Some(x)) => {
                rest += 1;
                check!(x == stop + rest, "into_inner() continues with {x}");
            }
            Poll::Ready(None) => break Poll::Ready(()),
            Poll::Pending => {}
        }
    });
    check!(stop + rest == n, "into_inner() has {rest} items left");
}
fn lp_own(b: u32) {
    local_pool(b, 3, true)
}

pub const SCN: &[Scn] = &[
    s("m_oneshot", "C05 C22 C31 C27 !", 7, 8, oneshot),
    s("m_shared3", "C09 C22 C31 C27 !", 8, 10, sh3),
    s("m_shared4", "C09 C31 C27 !", 8, 9, sh4),
    s("m_local_pool", "C14 C31 C27 !", 7, 8, lp),
    s("m_block_stream", "C14 C23 C31 C34 !", 3, 5, lp_stream),
    s("m_local_pool_own", "C14 C31 !", 7, 8, lp_own),
    s("m_mpsc_000", "C01 C02 C03 C04 C22 C23 C31 C24 !", 6, 8, b000),
    s("m_mpsc_011", "C01 C03 C04 C22 C23 C31 !", 6, 8, b011),
    s("m_mpsc_020", "C01 C02 C03 C04 C31 !", 6, 8, b020),
    s("m_mpsc_031", "C01 C03 C04 C31 !", 6, 8, b031),
    s("m_mpsc_101", "C01 C02 C03 C04 C31 C24 !", 6, 8, b101),
    s("m_mpsc_110", "C01 C02 C03 C04 C22 C23 C31 !", 6, 8, b110),
    s("m_mpsc_121", "C01 C02 C03 C04 C22 C23 C31 !", 6, 8, b121),
    s("m_mpsc_130", "C01 C02 C03 C04 C31 !", 6, 8, b130),
    s("m_unb_000", "C01 C02 C04 C22 C23 C31 C24 !", 7, 9, u000),
    s("m_unb_011", "C01 C04 C22 C23 C31 !", 7, 9, u011),
    s("m_unb_120", "C01 C02 C04 C22 C23 C31 !", 7, 9, u120),
    s("m_unb_131", "C01 C04 C31 !", 7, 9, u131),
    s("m_unb_220", "C01 C02 C04 C31 !", 7, 9, u220),
    s("m_unb_201", "C01 C04 C22 C23 C31 C24 !", 7, 9, u201),
    s("m_mutex3", "C07 C22 C31 C27 !", 10, 13, mx3b),
    s("m_mutex3_owned", "C07 C22 C31 !", 10, 13, mx3o),
    s("m_mutex_mapped", "C07 C22 C31 !", 11, 14, mx2m),
    s("m_mutex4", "C07 C31 !", 9, 12, mx4),
    s("m_fu3", "C10 C22 C23 C31 C27 !", 8, 10, fu3),
    s("m_fu4", "C10 C22 C23 C31 !", 9, 11, fu4),
    s("m_fu_iter", "C10 C27 C31 C34 !", 7, 9, fu_iter),
    s("m_fu_spawn", "C10 C28 C27 !", 7, 9, fu_spawn),
    s("m_fo5", "C11 C22 C23 C31 C27 !", 9, 11, fo5),
    s("m_fo_wide", "C11 C22 C23 C31 !", 8, 10, fo_wide),
];
