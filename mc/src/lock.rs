//! C07 async Mutex, C08 BiLock and split.
use crate::h::*;
use crate::{os, s, Scn};
use futures::future::FusedFuture;
use futures::lock::{BiLock, MappedMutexGuard, Mutex, MutexGuard, OwnedMutexGuard};
use futures::{Sink, SinkExt, Stream, StreamExt};
use std::future::Future;
use std::pin::Pin;
use std::sync::Arc;
use std::task::{Context, Poll};

const IN: Reg = Reg(100);
/// The critical section: exclusive, and its plain accesses must be ordered by the lock.
fn crit(v: &mut u64) {
    let n = IN.add(1);
    check!(n == 0, "{} holders in the critical section", n + 1);
    *v += 1;
    IN.sub(1);
}

fn mx(n: usize, rounds: usize, owned: bool) {
    let m = Arc::new(Mutex::new(0u64));
    let mut ts = vec![];
    for _ in 0..n {
        let m = m.clone();
        ts.push(spawn(move || {
            for _ in 0..rounds {
                if owned {
                    let mut g = block_on(m.clone().lock_owned());
                    crit(&mut g);
                } else {
                    let mut g = block_on(m.lock());
                    crit(&mut g);
                }
            }
        }));
    }
    {
        let mut g = block_on(m.lock());
        crit(&mut g);
    }
    for t in ts {
        join(t);
    }
    let m = Arc::try_unwrap(m).unwrap();
    check!(m.into_inner() == (n * rounds + 1) as u64, "updates lost");
}
fn mx2() {
    mx(1, 2, false)
}
fn mx2_owned() {
    mx(1, 2, true)
}
fn mx3() {
    mx(2, 1, false)
}
fn mx3_owned() {
    mx(2, 1, true)
}
/// Waiters that give up: a wake-up handed to a cancelled waiter passes on to another one.
fn mx_cancel(owned: bool) {
    let m = Arc::new(Mutex::new(0u64));
    let g = m.try_lock().unwrap();
    let m1 = m.clone();
    let a = spawn(move || {
        // polls once or twice, then gives up
        let twice = flip();
        if owned {
            let mut f = m1.clone().lock_owned();
            for _ in 0..1 + twice as usize {
                if let Poll::Ready(mut g) = poll_once(Pin::new(&mut f)) {
                    crit(&mut g);
                    return;
                }
            }
        } else {
            let mut f = m1.lock();
            for _ in 0..1 + twice as usize {
                if let Poll::Ready(mut g) = poll_once(Pin::new(&mut f)) {
                    crit(&mut g);
                    return;
                }
            }
        }
    });
    let m2 = m.clone();
    let b = spawn(move || {
        let mut g = block_on(m2.lock());
        crit(&mut g);
    });
    drop(g);
    join(a);
    join(b);
    check!(m.try_lock().is_some(), "lock still held after all guards are gone");
}
fn mx_cancel_b() {
    mx_cancel(false)
}
fn mx_cancel_o() {
    mx_cancel(true)
}
/// try_lock against lock and unlock.
fn mx_try() {
    let m = Arc::new(Mutex::new(0u64));
    let m1 = m.clone();
    let a = spawn(move || {
        let mut g = block_on(m1.lock());
        crit(&mut g);
    });
    let m2 = m.clone();
    let b = spawn(move || {
        if let Some(mut g) = m2.try_lock() {
            crit(&mut g);
            obs(1);
        }
        if let Some(mut g) = m2.try_lock_owned() {
            crit(&mut g);
            obs(2);
        }
    });
    {
        let mut g = block_on(m.lock());
        crit(&mut g);
    }
    join(a);
    join(b);
    check!(m.try_lock().is_some(), "lock still held after all guards are gone");
}
/// A lock future that acquires only to be dropped unused, and mapped guards.
fn mx_guards() {
    let m = Arc::new(Mutex::new((0u64, 1u64)));
    let m1 = m.clone();
    let a = spawn(move || {
        let g = block_on(m1.lock());
        let mut g: MappedMutexGuard<'_, _, u64> = MutexGuard::map(g, |p| &mut p.0);
        if flip() {
            let mut h = MappedMutexGuard::map(g, |p| p);
            crit(&mut h);
        } else {
            crit(&mut g);
        }
    });
    let m2 = m.clone();
    let b = spawn(move || {
        let r = catch(|| {
            let mut g = block_on(m2.lock());
            crit(&mut g.0);
            std::panic::panic_any(0u8);
        });
        check!(r.is_err(), "no panic");
    });
    {
        let mut g = block_on(m.clone().lock_owned());
        crit(&mut g.0);
    }
    join(a);
    join(b);
    let g = m.try_lock();
    check!(g.is_some(), "lock still held after all guards are gone");
    check!(g.unwrap().0 == 3, "updates lost");
}
/// Lock futures move between tasks; the latest waker is the one that counts.
fn mx_migrate() {
    let m = Arc::new(Mutex::new(0u64));
    let g = m.try_lock().unwrap();
    let mut f = m.clone().lock_owned();
    check!(poll_once(Pin::new(&mut f)).is_pending(), "two holders");
    let a = spawn(move || {
        let mut g = block_on(f);
        crit(&mut g);
    });
    drop(g);
    join(a);
}

/// Single-task exploration: any sequence of lock/try_lock/poll/drop over three lock futures;
/// exclusion, and no wake-up lost: whenever the lock is free and some live waiter is pending,
/// at least one live waiter has been woken since its last poll.
fn mx_seq() {
    mx_seq_n(if mcrt::thorough() { 8 } else { 7 })
}
fn mx_seq_n(depth: usize) {
    let m = Arc::new(Mutex::new(0u64));
    const N: usize = 3;
    let mut fs: Vec<Option<Pin<Box<futures::lock::OwnedMutexLockFuture<u64>>>>> = vec![None, None, None];
    let mut bs: Vec<bool> = vec![false; N]; // pending
    let mut ids = [0u64; N];
    let mut gs: Vec<Option<OwnedMutexGuard<u64>>> = vec![None, None, None];
    for _ in 0..depth {
        let i = choose(N);
        let held = gs.iter().any(|g| g.is_some());
        // symmetry: use slots in order
        if i > 0 && fs[i].is_none() && gs[i].is_none() && (fs[i - 1].is_none() && gs[i - 1].is_none()) {
            skip();
        }
        match choose(3) {
            0 => {
                if gs[i].is_some() {
                    skip();
                }
                if fs[i].is_none() {
                    fs[i] = Some(Box::pin(m.clone().lock_owned()));
                }
                ids[i] = fresh_id();
                let w = counting_waker(ids[i]);
                let f = fs[i].as_mut().unwrap();
                match f.as_mut().poll(&mut Context::from_waker(&w)) {
                    Poll::Ready(g) => {
                        check!(!held, "lock acquired while held");
                        check!(f.is_terminated(), "lock future not terminated after completion");
                        gs[i] = Some(g);
                        fs[i] = None;
                        bs[i] = false;
                    }
                    Poll::Pending => {
                        check!(held, "free lock not acquired by poll");
                        check!(!f.is_terminated(), "pending lock future is terminated");
                        bs[i] = true;
                    }
                }
            }
            1 => {
                if fs[i].is_none() {
                    skip();
                }
                fs[i] = None;
                bs[i] = false;
            }
            _ => {
                if fs[i].is_some() {
                    skip();
                }
                if gs[i].take().is_none() {
                    let g = m.try_lock_owned();
                    check!(g.is_some() == !held, "try_lock is {} although held={held}", g.is_some());
                    if g.is_none() {
                        skip();
                    }
                    gs[i] = g;
                }
            }
        }
        let held = gs.iter().any(|g| g.is_some());
        if !held && bs.iter().any(|b| *b) {
            check!((0..N).any(|i| bs[i] && wakes(ids[i]) > 0), "the lock is free and no waiter was woken");
        }
    }
    drop(fs);
    drop(gs);
}

// ---- C08 ------------------------------------------------------------------------------------

fn bl2(stable: bool) {
    let (a, b) = BiLock::new(0u64);
    let t = spawn(move || {
        for _ in 0..2 {
            let mut g = if stable { block_on_stable(b.lock()) } else { block_on(b.lock()) };
            crit(&mut g);
        }
    });
    for _ in 0..2 {
        let mut g = if stable { block_on_stable(a.lock()) } else { block_on(a.lock()) };
        crit(&mut g);
    }
    join(t);
    let g = block_on(a.lock());
    check!(*g == 4, "updates lost");
}
fn bl_strict() {
    bl2(false)
}
fn bl_stable() {
    bl2(true)
}
/// poll_lock given up after registering; the other side keeps making progress, and the half that
/// gave up can lock later from another task.
fn bl_abandon() {
    let (a, b) = BiLock::new(Tok::new(1));
    let t = spawn(move || {
        {
            let r = poll_once(Pin::new(&mut b.lock()));
            obs(r.is_ready() as u64);
        }
        let w = counting_waker(fresh_id());
        let r = b.poll_lock(&mut Context::from_waker(&w));
        obs(r.is_ready() as u64);
        drop(r);
        drop(w);
        let t2 = spawn(move || {
            let g = block_on(b.lock());
            check!(IN.add(1) == 0, "two holders");
            check!(g.0 == 1, "value");
            IN.sub(1);
            drop(g);
        });
        join(t2);
    });
    {
        let g = block_on(a.lock());
        check!(IN.add(1) == 0, "two holders");
        check!(g.0 == 1, "value");
        IN.sub(1);
    }
    join(t);
    drop(a);
    Tok::check_all();
}
/// One half goes away at any time; the other can still lock; the value is dropped once.
fn bl_drop() {
    let (a, b) = BiLock::new(Tok::new(1));
    let t = spawn(move || {
        if flip() {
            let g = block_on(b.lock());
            check!(IN.add(1) == 0, "two holders");
            IN.sub(1);
            drop(g);
        }
        drop(b);
    });
    {
        let g = block_on(a.lock());
        check!(IN.add(1) == 0, "two holders");
        check!(g.0 == 1, "value");
        IN.sub(1);
    }
    drop(a);
    join(t);
    Tok::check_all();
}
fn bl_reunite() {
    let (a, b) = BiLock::new(Tok::new(1));
    let (c, d) = BiLock::new(Tok::new(2));
    check!(a.is_pair_of(&b) && !a.is_pair_of(&c) && b.is_pair_of(&a), "is_pair_of");
    let t = spawn(move || {
        let g = block_on(c.lock());
        check!(g.0 == 2, "value");
        drop(g);
        drop(c);
    });
    let e = match a.reunite(d) {
        Ok(_) => fail("halves of different locks reunited".into()),
        Err(e) => e,
    };
    let (a, d) = (e.0, e.1);
    check!(block_on(a.lock()).0 == 1 && block_on(d.lock()).0 == 2, "reunite error mixed up the halves");
    let r = if flip() { a.reunite(b) } else { b.reunite(a) };
    match r {
        Ok(t) => check!(t.0 == 1, "value"),
        Err(_) => fail("two halves of one lock did not reunite".into()),
    }
    join(t);
    drop(d);
    Tok::check_all();
}
/// Sequential exploration of both halves.
fn bl_seq() {
    let (a, b) = BiLock::new(Tok::new(1));
    let h = [a, b];
    let mut g: [Option<futures::lock::BiLockGuard<'_, Tok>>; 2] = [None, None];
    let mut wait: [Option<u64>; 2] = [None, None];
    for _ in 0..7 {
        let i = choose(2);
        if g[i].is_some() {
            g[i] = None;
            if let Some(w) = wait[1 - i].take() {
                check!(wakes(w) == 1, "waiting half was not woken by unlock");
            }
        } else {
            let id = fresh_id();
            let w = counting_waker(id);
            match h[i].poll_lock(&mut Context::from_waker(&w)) {
                Poll::Ready(x) => {
                    check!(g[1 - i].is_none(), "two holders");
                    check!(x.0 == 1, "value");
                    g[i] = Some(x);
                    wait[i] = None;
                }
                Poll::Pending => {
                    check!(g[1 - i].is_some(), "free lock not acquired");
                    wait[i] = Some(id);
                }
            }
        }
    }
    drop(g);
    let [a, b] = h;
    if choose(2) == 0 {
        drop((b, a));
    } else {
        match a.reunite(b) {
            Ok(t) => check!(t.0 == 1, "value"),
            Err(_) => fail("reunite failed".into()),
        }
    }
    Tok::check_all();
}

/// A stream + sink in one object; its methods must never run concurrently, and split must
/// forward everything.
struct Duplex {
    items: u64,
    sent: Vec<u64>,
    ends: bool,
    flushed: usize,
    closed: bool,
}
impl Stream for Duplex {
    type Item = u64;
    fn poll_next(mut self: Pin<&mut Self>, _: &mut Context<'_>) -> Poll<Option<u64>> {
        check!(IN.add(1) == 0, "both halves inside the object");
        let r = if self.items > 0 {
            self.items -= 1;
            Some(self.items)
        } else {
            None
        };
        IN.sub(1);
        Poll::Ready(r)
    }
}
impl Sink<u64> for Duplex {
    type Error = ();
    fn poll_ready(self: Pin<&mut Self>, _: &mut Context<'_>) -> Poll<Result<(), ()>> {
        check!(IN.add(1) == 0, "both halves inside the object");
        IN.sub(1);
        Poll::Ready(Ok(()))
    }
    fn start_send(mut self: Pin<&mut Self>, v: u64) -> Result<(), ()> {
        check!(IN.add(1) == 0, "both halves inside the object");
        self.sent.push(v);
        IN.sub(1);
        Ok(())
    }
    fn poll_flush(mut self: Pin<&mut Self>, _: &mut Context<'_>) -> Poll<Result<(), ()>> {
        check!(IN.add(1) == 0, "both halves inside the object");
        self.flushed = self.sent.len();
        IN.sub(1);
        Poll::Ready(Ok(()))
    }
    fn poll_close(mut self: Pin<&mut Self>, _: &mut Context<'_>) -> Poll<Result<(), ()>> {
        check!(IN.add(1) == 0, "both halves inside the object");
        self.flushed = self.sent.len();
        self.closed = true;
        IN.sub(1);
        Poll::Ready(Ok(()))
    }
}
fn split_rw(n: u64, close: bool) {
    let d = Duplex { items: n, sent: vec![], ends: false, flushed: 0, closed: false };
    let (mut tx, mut rx) = d.split::<u64>();
    let (otx, orx) = futures::channel::oneshot::channel();
    let t = spawn(move || {
        for i in 0..n {
            check!(block_on(tx.send(i)).is_ok(), "send failed");
        }
        if close {
            check!(block_on(tx.close()).is_ok(), "close failed");
        }
        let _ = otx.send(tx);
    });
    for i in (0..n).rev() {
        let x = block_on(rx.next());
        check!(x == Some(i), "stream half got {x:?}");
    }
    check!(block_on(rx.next()).is_none(), "stream half did not end");
    let tx = block_on(orx).unwrap();
    join(t);
    check!(tx.is_pair_of(&rx), "is_pair_of");
    let d = if flip() { rx.reunite(tx).ok() } else { tx.reunite(rx).ok() };
    let d = match d {
        Some(d) => d,
        None => fail("halves did not reunite".into()),
    };
    check!(d.sent.iter().copied().eq(0..n), "sink half delivered {:?}", d.sent);
    check!(d.flushed == n as usize && d.closed == close, "not flushed or closed");
}
fn split1() {
    split_rw(1, true)
}
fn split2() {
    split_rw(2, false)
}
/// io split: read and write halves.
fn io_split() {
    use futures::io::{AsyncRead, AsyncReadExt, AsyncWrite, AsyncWriteExt};
    struct D {
        r: Vec<u8>,
        w: Vec<u8>,
    }
    impl AsyncRead for D {
        fn poll_read(mut self: Pin<&mut Self>, _: &mut Context<'_>, b: &mut [u8]) -> Poll<std::io::Result<usize>> {
            check!(IN.add(1) == 0, "both halves inside the object");
            let n = if self.r.is_empty() {
                0
            } else {
                b[0] = self.r.remove(0);
                1
            };
            IN.sub(1);
            Poll::Ready(Ok(n))
        }
    }
    impl AsyncWrite for D {
        fn poll_write(mut self: Pin<&mut Self>, _: &mut Context<'_>, b: &[u8]) -> Poll<std::io::Result<usize>> {
            check!(IN.add(1) == 0, "both halves inside the object");
            self.w.push(b[0]);
            IN.sub(1);
            Poll::Ready(Ok(1))
        }
        fn poll_flush(self: Pin<&mut Self>, _: &mut Context<'_>) -> Poll<std::io::Result<()>> {
            Poll::Ready(Ok(()))
        }
        fn poll_close(self: Pin<&mut Self>, _: &mut Context<'_>) -> Poll<std::io::Result<()>> {
            Poll::Ready(Ok(()))
        }
    }
    let (mut r, mut w) = D { r: vec![1, 2], w: vec![] }.split();
    let (otx, orx) = futures::channel::oneshot::channel();
    let t = spawn(move || {
        check!(block_on(w.write_all(&[8, 9])).is_ok(), "write failed");
        let _ = otx.send(w);
    });
    let mut v = vec![];
    check!(block_on(r.read_to_end(&mut v)).is_ok(), "read failed");
    check!(v == [1, 2], "read half got {v:?}");
    let w = block_on(orx).unwrap();
    join(t);
    check!(w.is_pair_of(&r), "is_pair_of");
    let d = match r.reunite(w) {
        Ok(d) => d,
        Err(_) => fail("halves did not reunite".into()),
    };
    check!(d.w == [8, 9], "write half delivered {:?}", d.w);
}

pub const SCN: &[Scn] = &[
    s("mutex_2", "C07 C31", (8, 3), (10, 4), mx2),
    s("mutex_2_owned", "C07 C31", (7, 3), (9, 4), mx2_owned),
    s("mutex_3", "C07 C31", (5, 3), (7, 4), mx3),
    s("mutex_3_owned", "C07 C31", (4, 2), (6, 3), mx3_owned),
    s("mutex_cancel", "C07 C31 C27", (5, 3), (7, 4), mx_cancel_b),
    s("mutex_cancel_owned", "C07 C31 C27", (4, 3), (6, 4), mx_cancel_o),
    s("mutex_try", "C07 C31", (5, 3), (7, 4), mx_try),
    os("mutex_guards", "C07 C31 C27", (3, 1), (5, 2), mx_guards),
    s("mutex_migrate", "C07 C31", (8, 4), (10, 5), mx_migrate),
    s("mutex_seq", "C07 C27", (0, 0), (0, 0), mx_seq),
    s("bilock_strict", "C08 C31", (8, 3), (10, 4), bl_strict),
    s("bilock_stable", "C08 C31", (8, 3), (10, 4), bl_stable),
    s("bilock_abandon", "C08 C31 C27", (8, 3), (10, 4), bl_abandon),
    s("bilock_drop", "C08 C31 C27", (8, 3), (10, 4), bl_drop),
    s("bilock_reunite", "C08 C31 C27", (7, 3), (9, 4), bl_reunite),
    s("bilock_seq", "C08 C27", (0, 0), (0, 0), bl_seq),
    s("split_1", "C08 C31", (8, 3), (10, 4), split1),
    s("split_2", "C08 C31", (7, 3), (9, 4), split2),
    s("io_split", "C08 C31", (7, 2), (9, 3), io_split),
];
