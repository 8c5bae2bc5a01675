//! Wakers that re-enter: `wake` runs or drops the woken task on the spot, on the waking thread,
//! inside the primitive that wakes (as executors without a run queue, or executors that are shutting down,
//! do). Nothing may deadlock, double-complete or get lost.
use crate::h::*;
use crate::{s, Scn};
use futures::channel::{mpsc, oneshot};
use futures::future::{abortable, FutureExt};
use futures::lock::Mutex as AMutex;
use futures::sink::SinkExt;
use futures::stream::{FuturesUnordered, StreamExt};
use futures::task::ArcWake;
use std::future::Future;
use std::pin::Pin;
use std::sync::{Arc, Mutex};
use std::task::{Context, Waker};

type Fut = Pin<Box<dyn Future<Output = ()> + Send>>;
struct St {
    fut: Option<Fut>,
    mode: usize,
    polling: bool,
    again: bool,
    queued: bool,
    done: bool,
    gone: bool,
    /// dropped by a wake that came during its own poll
    doomed: bool,
}
/// A task; what its wake does is chosen: 0 = queue it, 1 = poll it there and then, 2 = drop its
/// future there and then (the executor has gone away).
struct Task(Mutex<St>);
impl ArcWake for Task {
    fn wake_by_ref(a: &Arc<Self>) {
        let mode = {
            let mut s = a.0.lock().unwrap();
            if s.polling {
                if s.mode == 2 {
                    s.doomed = true;
                } else {
                    s.again = true;
                }
                return;
            }
            s.mode
        };
        match mode {
            0 => a.0.lock().unwrap().queued = true,
            1 => a.poll(),
            _ => a.kill(),
        }
    }
}
impl Task {
    fn new(mode: usize, f: impl Future<Output = ()> + Send + 'static) -> Arc<Task> {
        Arc::new(Task(Mutex::new(St { fut: Some(Box::pin(f)), mode, polling: false, again: false, queued: false, done: false, gone: false, doomed: false })))
    }
    fn waker(self: &Arc<Self>) -> Waker {
        futures::task::waker(self.clone())
    }
    fn poll(self: &Arc<Self>) {
        loop {
            let f = {
                let mut s = self.0.lock().unwrap();
                s.again = false;
                s.queued = false;
                s.polling = s.fut.is_some();
                s.fut.take()
            };
            let Some(mut f) = f else { return };
            let w = self.waker();
            let r = f.as_mut().poll(&mut Context::from_waker(&w));
            let mut s = self.0.lock().unwrap();
            s.polling = false;
            if r.is_ready() {
                s.done = true;
                drop(s);
                drop(f);
                return;
            }
            if s.doomed {
                s.gone = true;
                drop(s);
                drop(f);
                return;
            }
            s.fut = Some(f);
            if !s.again {
                return;
            }
        }
    }
    /// One poll with a waker that is not the task's.
    fn poll_with(&self, w: &Waker) {
        let mut f = self.0.lock().unwrap().fut.take().unwrap();
        check!(f.as_mut().poll(&mut Context::from_waker(w)).is_pending(), "ready too early");
        self.0.lock().unwrap().fut = Some(f);
    }
    fn kill(&self) {
        let f = {
            let mut s = self.0.lock().unwrap();
            if s.fut.is_some() {
                s.gone = true;
            }
            s.fut.take()
        };
        drop(f);
    }
    fn done(&self) -> bool {
        self.0.lock().unwrap().done
    }
    fn over(&self) -> bool {
        let s = self.0.lock().unwrap();
        s.done || s.gone
    }
    fn queued(&self) -> bool {
        self.0.lock().unwrap().queued
    }
}
/// Polls queued tasks until nothing is queued.
fn run(ts: &[&Arc<Task>]) {
    while let Some(t) = ts.iter().find(|t| t.queued()) {
        t.poll();
    }
}
fn all(ts: &[&Arc<Task>], what: &str) {
    run(ts);
    for (i, t) in ts.iter().enumerate() {
        check!(t.over(), "task {i} is stuck: {what}");
    }
}

const IN: Reg = Reg(900);

/// Tasks wait for a locked mutex; releasing it wakes one, whose wake does anything.
fn mutex() {
    let m = Arc::new(AMutex::new(0u64));
    let owned = choose(2) == 1;
    let n = 2 + choose(2);
    let mut ts = vec![];
    for _ in 0..n {
        let m = m.clone();
        let hold = choose(2);
        ts.push(Task::new(choose(3), async move {
            let enter = |v: &mut u64| {
                check!(IN.peek() == 0, "two tasks are inside the lock");
                IN.set(1);
                *v += 1;
                IN.set(0);
            };
            if owned {
                let mut g = m.clone().lock_owned().await;
                enter(&mut g);
                if hold == 1 {
                    yield_once().await;
                }
            } else {
                let mut g = m.lock().await;
                enter(&mut g);
                if hold == 1 {
                    yield_once().await;
                }
            }
        }));
    }
    let g = m.try_lock().unwrap();
    let r: Vec<&Arc<Task>> = ts.iter().collect();
    for t in &r {
        t.poll();
        check!(!t.over(), "acquired a locked mutex");
    }
    drop(g);
    all(&r, "the mutex was released");
    let k = ts.iter().filter(|t| t.done()).count() as u64;
    match m.try_lock() {
        Some(g) => check!(*g >= k, "{} entries, {k} tasks done", *g),
        None => fail(quiet(|| "still locked".to_string())),
    };
}
fn yield_once() -> impl Future<Output = ()> {
    let mut y = false;
    futures::future::poll_fn(move |cx| {
        if y {
            return std::task::Poll::Ready(());
        }
        y = true;
        cx.waker().wake_by_ref();
        std::task::Poll::Pending
    })
}

/// A waiter that was woken goes away; passing the wake-up on re-enters.
fn mutex_pass() {
    let m = Arc::new(AMutex::new(0u64));
    let mk = |mode| {
        let m = m.clone();
        Task::new(mode, async move {
            *m.lock().await += 1;
        })
    };
    let (a, b, c) = (mk(0), mk(choose(3)), mk(choose(3)));
    let g = m.try_lock().unwrap();
    for t in [&a, &b, &c] {
        t.poll();
    }
    drop(g);
    check!(a.queued(), "no waiter was woken");
    a.kill();
    all(&[&b, &c], "the woken waiter went away");
    check!(m.try_lock().is_some(), "still locked");
}

/// The waker that is replaced or discarded is the last owner of another waiter of the same mutex.
fn mutex_replace() {
    let m = Arc::new(AMutex::new(0u64));
    let g = m.try_lock().unwrap();
    let mut f = m.clone().lock_owned();
    let m2 = m.clone();
    let a = Task::new(0, async move {
        *m2.lock().await += 1;
    });
    a.poll_with(&noop_waker());
    let w = a.waker();
    drop(a);
    check!(Pin::new(&mut f).poll(&mut Context::from_waker(&w)).is_pending(), "locked twice");
    drop(w);
    if choose(2) == 1 {
        check!(Pin::new(&mut f).poll(&mut Context::from_waker(&noop_waker())).is_pending(), "locked twice");
    }
    if choose(2) == 1 {
        drop(f);
        drop(g);
    } else {
        drop(g);
        check!(Pin::new(&mut f).poll(&mut Context::from_waker(&noop_waker())).is_ready(), "free but not acquired");
        drop(f);
    }
    check!(m.try_lock().is_some(), "still locked");
}
/// The same for the handles of a Shared.
fn shared_replace() {
    let (tx, rx) = oneshot::channel::<u64>();
    let mut sh = rx.map(|r| r.unwrap_or(99)).shared();
    let s2 = sh.clone();
    let a = Task::new(0, async move {
        s2.await;
    });
    a.poll_with(&noop_waker());
    let w = a.waker();
    drop(a);
    check!(Pin::new(&mut sh).poll(&mut Context::from_waker(&w)).is_pending(), "ready too early");
    drop(w);
    if choose(2) == 1 {
        check!(Pin::new(&mut sh).poll(&mut Context::from_waker(&noop_waker())).is_pending(), "ready too early");
    }
    if choose(2) == 1 {
        drop(sh);
        drop(tx);
    } else {
        drop(tx);
        check!(Pin::new(&mut sh).poll(&mut Context::from_waker(&noop_waker())).is_ready(), "not ready");
    }
}
/// The same for a sender whose replaced or discarded waker is the last owner of a task that has the receiver or another sender.
fn chan_replace() {
    let (tx, mut rx) = mpsc::channel::<u64>(0);
    let (mut tx1, mut tx2) = (tx.clone(), tx.clone());
    drop(tx);
    let _ = tx1.try_send(1);
    let _ = tx2.try_send(2);
    let (a, mut rx) = if choose(2) == 1 {
        let a = Task::new(0, async move {
            let _ = tx2.send(3).await;
        });
        (a, Some(rx))
    } else {
        check!(rx.try_recv().is_ok() && rx.try_recv().is_ok(), "lost");
        let _ = tx1.try_send(1);
        let a = Task::new(0, async move {
            let _rx = rx;
            futures::future::pending::<()>().await
        });
        (a, None)
    };
    a.poll_with(&noop_waker());
    let w = a.waker();
    drop(a);
    check!(tx1.poll_ready(&mut Context::from_waker(&w)).is_pending(), "room in a full channel");
    drop(w);
    // (with the receiver inside the task only replacing the waker breaks the cycle)
    match if rx.is_some() { choose(4) } else { 0 } {
        0 => {
            let _ = tx1.poll_ready(&mut Context::from_waker(&noop_waker()));
        }
        1 => {
            let _ = rx.as_mut().map(|r| r.try_recv());
        }
        2 => {
            let _ = rx.as_mut().map(|r| r.close());
        }
        _ => {
            let _ = tx1.try_send(4);
        }
    }
    drop(tx1);
    drop(rx);
}

/// Handles of a Shared future whose wakes re-enter, both when the inner future wakes and when it completes.
fn shared() {
    let (tx, rx) = oneshot::channel::<u64>();
    let sh = rx.map(|r| r.unwrap_or(99)).shared();
    let n = 2 + choose(2);
    let mut ts = vec![];
    for _ in 0..n {
        let s = sh.clone();
        ts.push(Task::new(choose(3), async move {
            let v = s.await;
            check!(v == 7 || v == 99, "wrong value {v}");
        }));
    }
    drop(sh);
    let r: Vec<&Arc<Task>> = ts.iter().collect();
    for t in &r {
        t.poll();
        check!(!t.over(), "ready too early");
    }
    if choose(2) == 1 {
        let _ = tx.send(7);
    } else {
        drop(tx);
    }
    all(&r, "the inner future is ready");
}
/// The completing poll is made by hand while others, with re-entering wakes, wait.
fn shared_complete() {
    let (tx, rx) = oneshot::channel::<u64>();
    let mut sh = rx.map(|r| r.unwrap_or(99)).shared();
    let mut ts = vec![];
    for _ in 0..2 {
        let s = sh.clone();
        ts.push(Task::new(choose(3), async move {
            s.await;
        }));
    }
    for t in &ts {
        t.poll();
    }
    // the last poll's notifier registration is in the oneshot; deliver without the wake going anywhere:
    // poll by hand afterwards
    let w = noop_waker();
    check!(Pin::new(&mut sh).poll(&mut Context::from_waker(&w)).is_pending(), "ready too early");
    let keep = choose(2) == 1;
    if keep {
        let _ = tx.send(7);
    } else {
        drop(tx);
    }
    let r = Pin::new(&mut sh).poll(&mut Context::from_waker(&w));
    check!(r.is_ready(), "not ready after the inner future became ready");
    all(&[&ts[0], &ts[1]], "the inner future is ready");
}

/// Senders parked on a full channel, receiver by hand.
fn mpsc_tx() {
    let (tx, mut rx) = mpsc::channel::<u64>(choose(2));
    let n = 2 + choose(2);
    let mut ts = vec![];
    for i in 0..n {
        let mut tx = tx.clone();
        ts.push(Task::new(choose(3), async move {
            for k in 0..2 {
                if tx.send(i as u64 * 10 + k).await.is_err() {
                    break;
                }
            }
        }));
    }
    drop(tx);
    let r: Vec<&Arc<Task>> = ts.iter().collect();
    for t in &r {
        t.poll();
    }
    let stop = choose(3);
    let mut got = vec![];
    let mut k = 0;
    loop {
        if stop == 1 && k == 1 {
            rx.close();
        }
        if stop == 2 && k == 1 {
            break;
        }
        k += 1;
        match rx.try_recv() {
            Ok(v) => {
                if let Some(l) = got.iter().rev().find(|x| **x / 10 == v / 10) {
                    check!(*l < v, "out of order {got:?} {v}");
                }
                got.push(v);
            }
            Err(_) => {
                if r.iter().any(|t| t.queued()) {
                    run(&r);
                    continue;
                }
                break;
            }
        }
        run(&r);
    }
    drop(rx);
    all(&r, "the channel was drained or closed");
    if stop == 0 {
        for (i, t) in ts.iter().enumerate() {
            if t.done() {
                check!(got.iter().filter(|v| **v / 10 == i as u64).count() == 2, "task {i} sent two, got {got:?}");
            }
        }
    }
}
/// The receiver's task re-enters when a message arrives.
fn mpsc_rx() {
    let (tx, rx) = mpsc::channel::<u64>(choose(2));
    let (utx, urx) = mpsc::unbounded::<u64>();
    let bounded = choose(2) == 1;
    let t = if bounded {
        drop((utx.clone(), urx));
        Task::new(choose(3), async move {
            let v: Vec<u64> = rx.collect().await;
            check!(v == [1, 2, 3], "got {v:?}");
        })
    } else {
        drop(rx);
        Task::new(choose(3), async move {
            let v: Vec<u64> = urx.collect().await;
            check!(v == [1, 2, 3], "got {v:?}");
        })
    };
    t.poll();
    let mut tx = tx;
    for i in 1..4 {
        if bounded {
            if tx.try_send(i).is_err() {
                run(&[&t]);
                let r = tx.try_send(i);
                check!(r.is_ok() || t.over(), "full although the receiver took everything");
            }
        } else {
            let r = utx.unbounded_send(i);
            check!(r.is_ok() || t.over(), "send failed");
        }
        if choose(2) == 1 {
            run(&[&t]);
        }
    }
    drop((tx, utx));
    all(&[&t], "all senders are gone");
}

/// A oneshot sender waiting for cancellation whose wake re-enters.
fn oneshot_tx() {
    let (mut tx, mut rx) = oneshot::channel::<u64>();
    let t = Task::new(choose(3), async move {
        tx.cancellation().await;
        check!(tx.is_canceled(), "not cancelled");
    });
    t.poll();
    match choose(3) {
        0 => rx.close(),
        1 => {
            rx.close();
            check!(rx.try_recv().is_err(), "value from nowhere");
        }
        _ => {}
    }
    drop(rx);
    all(&[&t], "the receiver is gone");
}

fn abort() {
    let (tx, rx) = oneshot::channel::<u64>();
    let (f, h) = abortable(rx);
    let t = Task::new(choose(3), async move {
        let _ = f.await;
    });
    t.poll();
    if choose(2) == 1 {
        h.abort();
        let _ = tx.send(1);
    } else {
        let _ = tx.send(1);
        h.abort();
    }
    all(&[&t], "aborted");
}

/// Children of a FuturesUnordered wake the outer task, which re-enters the set.
fn unordered() {
    let n = 1 + choose(3);
    let mut txs = vec![];
    let fu = FuturesUnordered::new();
    for _ in 0..n {
        let (tx, rx) = oneshot::channel::<u64>();
        txs.push(tx);
        fu.push(rx);
    }
    let how = choose(2);
    let t = Task::new(choose(3), async move {
        let mut k = 0;
        if how == 0 {
            let mut fu = fu;
            while fu.next().await.is_some() {
                k += 1;
            }
        } else {
            let mut s = futures::stream::iter(fu).buffer_unordered(2);
            while s.next().await.is_some() {
                k += 1;
            }
        }
        check!(k == n, "{k} of {n}");
    });
    t.poll();
    while !txs.is_empty() {
        let tx = txs.remove(choose(txs.len()));
        if choose(2) == 1 {
            let _ = tx.send(1);
        } else {
            drop(tx);
        }
        if choose(2) == 1 {
            run(&[&t]);
        }
    }
    all(&[&t], "all children are ready");
}

/// Halves of a split (BiLock) whose unlock wakes re-enter.
fn split() {
    let (tx, rx) = mpsc::channel::<u64>(0);
    let lock = futures::stream::StreamExt::split::<u64>(Loop(tx, rx));
    let (mut a, mut b) = lock;
    let t1 = Task::new(choose(3), async move {
        for i in 0..2 {
            if a.send(i).await.is_err() {
                break;
            }
        }
    });
    let t2 = Task::new(choose(3), async move {
        for i in 0..2 {
            check!(b.next().await == Some(i), "lost item {i}");
        }
    });
    if choose(2) == 1 {
        t1.poll();
        t2.poll();
    } else {
        t2.poll();
        t1.poll();
    }
    run(&[&t1, &t2]);
    if t1.0.lock().unwrap().gone {
        t2.kill();
    } else {
        check!(t2.over(), "the reader is stuck");
    }
    check!(t1.over() || t2.over(), "both stuck");
    t1.kill();
    t2.kill();
}
struct Loop(mpsc::Sender<u64>, mpsc::Receiver<u64>);
impl futures::Stream for Loop {
    type Item = u64;
    fn poll_next(mut self: Pin<&mut Self>, cx: &mut Context<'_>) -> std::task::Poll<Option<u64>> {
        self.1.poll_next_unpin(cx)
    }
}
impl futures::Sink<u64> for Loop {
    type Error = mpsc::SendError;
    fn poll_ready(mut self: Pin<&mut Self>, cx: &mut Context<'_>) -> std::task::Poll<Result<(), mpsc::SendError>> {
        Pin::new(&mut self.0).poll_ready(cx)
    }
    fn start_send(mut self: Pin<&mut Self>, i: u64) -> Result<(), mpsc::SendError> {
        Pin::new(&mut self.0).start_send(i)
    }
    fn poll_flush(mut self: Pin<&mut Self>, cx: &mut Context<'_>) -> std::task::Poll<Result<(), mpsc::SendError>> {
        Pin::new(&mut self.0).poll_flush(cx)
    }
    fn poll_close(mut self: Pin<&mut Self>, cx: &mut Context<'_>) -> std::task::Poll<Result<(), mpsc::SendError>> {
        Pin::new(&mut self.0).poll_close(cx)
    }
}

/// flatten_unordered over channels: every wake of an inner or of the outer stream re-enters it.
fn flatten() {
    let (otx, orx) = mpsc::unbounded::<mpsc::UnboundedReceiver<u64>>();
    let (t1, r1) = mpsc::unbounded::<u64>();
    let (t2, r2) = mpsc::unbounded::<u64>();
    let limit = choose(2);
    let t = Task::new(choose(3), async move {
        let mut v: Vec<u64> = orx.flatten_unordered(limit).collect().await;
        v.sort();
        check!(v == [1, 2, 3], "got {v:?}");
    });
    t.poll();
    let mut ops: Vec<Box<dyn FnOnce()>> = vec![];
    let pre = choose(2) == 1;
    let mut later = vec![];
    if pre {
        let _ = otx.unbounded_send(r1);
        let _ = otx.unbounded_send(r2);
        drop(otx);
    } else {
        later.push((otx, r1, r2));
    }
    let (a, b) = (t1.clone(), t2.clone());
    ops.push(Box::new(move || {
        let _ = a.unbounded_send(1);
        let _ = a.unbounded_send(2);
        drop(a);
    }));
    ops.push(Box::new(move || {
        let _ = b.unbounded_send(3);
    }));
    ops.push(Box::new(move || drop(t1)));
    ops.push(Box::new(move || drop(t2)));
    if let Some((otx, r1, r2)) = later.pop() {
        ops.push(Box::new(move || {
            let _ = otx.unbounded_send(r1);
            let _ = otx.unbounded_send(r2);
        }));
    }
    let run_each = choose(2) == 1;
    while !ops.is_empty() {
        let o = ops.remove(choose(ops.len()));
        o();
        if run_each {
            run(&[&t]);
        }
    }
    all(&[&t], "all streams have ended");
}

/// A task waits for a RemoteHandle; the remote's completion re-enters it, and the handle's drop re-enters the remote.
fn remote() {
    let (tx, rx) = oneshot::channel::<u64>();
    let (r, h) = rx.remote_handle();
    let a = Task::new(choose(3), async move {
        check!(h.await.is_ok(), "wrong value");
    });
    // (dropping the remote makes the handle panic, as documented)
    let b = Task::new(choose(2), r);
    if choose(2) == 1 {
        a.poll();
        b.poll();
    } else {
        b.poll();
        a.poll();
    }
    match choose(3) {
        0 => {
            let _ = tx.send(1);
        }
        1 => {
            a.kill();
            drop(tx);
        }
        _ => {
            if choose(2) == 1 {
                a.kill();
                b.kill();
            } else {
                a.kill();
                run(&[&b]);
                check!(b.over(), "the remote did not stop although the handle is gone");
            }
        }
    }
    run(&[&a, &b]);
    check!(a.over() && b.over(), "stuck");
}

/// A BiLock's unlock wakes the other side, which re-enters.
fn bilock() {
    use futures::lock::BiLock;
    let (l, r) = BiLock::new(0u64);
    let mk = |l: BiLock<u64>, n: u64| {
        Task::new(choose(3), async move {
            for _ in 0..n {
                let mut g = l.lock().await;
                *g += 1;
                yield_once().await;
                drop(g);
            }
        })
    };
    let a = mk(l, 2);
    let b = mk(r, 2);
    a.0.lock().unwrap().queued = true;
    b.0.lock().unwrap().queued = true;
    while a.queued() || b.queued() {
        let first = choose(2) == 0;
        let t = if (first && a.queued()) || !b.queued() { &a } else { &b };
        t.poll();
    }
    check!(a.over() && b.over(), "stuck");
}

pub const SCN: &[Scn] = &[
    s("re_mutex", "C07 C31 C27", (0, 0), (0, 0), mutex),
    s("re_mutex_pass", "C07 C31 C27", (0, 0), (0, 0), mutex_pass),
    s("re_mutex_replace", "C07 C31 C27", (0, 0), (0, 0), mutex_replace),
    s("re_shared", "C09 C31 C27", (0, 0), (0, 0), shared),
    s("re_shared_complete", "C09 C31 C27", (0, 0), (0, 0), shared_complete),
    s("re_shared_replace", "C09 C31 C27", (0, 0), (0, 0), shared_replace),
    s("re_chan_replace", "C02 C31 C27", (0, 0), (0, 0), chan_replace),
    s("re_mpsc_tx", "C02 C01 C31 C27", (0, 0), (0, 0), mpsc_tx),
    s("re_mpsc_rx", "C02 C01 C31 C27", (0, 0), (0, 0), mpsc_rx),
    s("re_oneshot_tx", "C05 C31 C27", (0, 0), (0, 0), oneshot_tx),
    s("re_abort", "C12 C31 C27", (0, 0), (0, 0), abort),
    s("re_unordered", "C10 C20 C31 C27", (0, 0), (0, 0), unordered),
    s("re_flatten", "C20 C21 C31 C27", (0, 0), (0, 0), flatten),
    s("re_remote", "C13 C31 C27", (0, 0), (0, 0), remote),
    s("re_bilock", "C08 C31 C27", (0, 0), (0, 0), bilock),
    s("re_split", "C08 C31 C27", (0, 0), (0, 0), split),
];
