//! C09 Shared, C12 Abortable, C13 RemoteHandle.
use crate::h::*;
use crate::{os, s, Scn};
use futures::future::{AbortHandle, Abortable, Aborted, FusedFuture, FutureExt, Shared};
use futures::stream::StreamExt;
use std::future::Future;
use std::pin::Pin;
use std::sync::Arc;
use std::task::{Context, Poll};

const IN: Reg = Reg(100);
const CLONES: Reg = Reg(101);
const RUNS: Reg = Reg(102);

/// Output whose clones are counted.
#[derive(Debug)]
struct Val(Tok);
impl Clone for Val {
    fn clone(&self) -> Val {
        check!(self.0 .0 >= 1000, "cloned a value that is not there");
        let n = CLONES.quiet_add(1);
        Val(Tok::new(self.0 .0 + n))
    }
}
/// The shared future: exclusive polls, plain data inside.
struct Inner {
    ev: Ev,
    n: u64,
    end: Option<Val>,
}
impl Future for Inner {
    type Output = Val;
    fn poll(mut self: Pin<&mut Self>, cx: &mut Context<'_>) -> Poll<Val> {
        check!(IN.add(1) == 0, "the shared future is polled by two tasks at once");
        self.n += 1;
        let r = Pin::new(&mut self.ev).poll(cx);
        IN.sub(1);
        match r {
            Poll::Ready(_) => {
                RUNS.quiet_add(1);
                Poll::Ready(self.end.take().unwrap())
            }
            Poll::Pending => Poll::Pending,
        }
    }
}
fn inner() -> (Fire, Inner) {
    let (f, ev) = event(1);
    (f, Inner { ev, n: 0, end: Some(Val(Tok::new(1000))) })
}
fn got(v: &Val) {
    check!(v.0 .0 >= 1000 && v.0 .0 < 1100, "wrong output");
}

fn two() {
    let (f, i) = inner();
    let a = i.shared();
    let b = a.clone();
    let t = spawn(move || got(&block_on(b)));
    let u = spawn(move || f.fire());
    let mut a = a;
    let v = block_on(&mut a);
    got(&v);
    check!(a.is_terminated() && a.peek().is_none(), "completed handle is not terminated");
    drop(v);
    join(t);
    join(u);
    drop(a);
    check!(RUNS.peek() == 1, "inner future completed {} times", RUNS.peek());
    Tok::check_all();
}
fn two_stable() {
    let (f, i) = inner();
    let a = i.shared();
    let b = a.clone();
    let t = spawn(move || got(&block_on_stable(b)));
    let u = spawn(move || f.fire());
    got(&block_on_stable(a));
    join(t);
    join(u);
    Tok::check_all();
}
fn three() {
    let (f, i) = inner();
    let a = i.shared();
    let (b, c) = (a.clone(), a.clone());
    let t = spawn(move || got(&block_on(b)));
    let u = spawn(move || got(&block_on(c)));
    f.fire();
    drop(f);
    got(&block_on(a));
    join(t);
    join(u);
    check!(RUNS.peek() == 1, "inner future completed {} times", RUNS.peek());
    Tok::check_all();
}
/// The handle that polled goes away (before or after the event); the rest still completes.
fn drop_poller() {
    let (f, i) = inner();
    let a = i.shared();
    let b = a.clone();
    let t = spawn(move || {
        let mut b = b;
        let n = 1 + choose(2);
        for _ in 0..n {
            if let Poll::Ready(v) = poll_once(Pin::new(&mut b)) {
                got(&v);
                return;
            }
        }
        drop(b);
    });
    let u = spawn(move || f.fire());
    got(&block_on(a));
    join(t);
    join(u);
    Tok::check_all();
}
/// Handles dropped everywhere while the event fires: inner future dropped exactly once.
fn all_drop() {
    let (f, i) = inner();
    let mut a = i.shared();
    let mut b = a.clone();
    let t = spawn(move || {
        if let Poll::Ready(v) = poll_once(Pin::new(&mut b)) {
            got(&v);
        }
        drop(b);
    });
    let u = spawn(move || f.fire());
    if let Poll::Ready(v) = poll_once(Pin::new(&mut a)) {
        got(&v);
    }
    drop(a);
    join(t);
    join(u);
    Tok::check_all();
}
fn peek_weak() {
    let (f, i) = inner();
    let a = i.shared();
    let w = a.downgrade().unwrap();
    let b = a.clone();
    check!(a.ptr_eq(&b), "clones do not compare equal");
    let t = spawn(move || {
        if let Some(v) = b.peek() {
            got(v);
            obs(1);
        }
        drop(b);
    });
    let u = spawn(move || {
        if let Some(c) = w.upgrade() {
            obs(2);
            got(&block_on(c));
        } else {
            obs(3);
        }
        drop(w);
    });
    f.fire();
    drop(f);
    got(&block_on(a));
    join(t);
    join(u);
    Tok::check_all();
}
fn migrate() {
    let (f, i) = inner();
    let mut a = i.shared();
    let b = a.clone();
    let u = spawn(move || f.fire());
    match poll_once(Pin::new(&mut a)) {
        Poll::Ready(v) => got(&v),
        Poll::Pending => {
            let t = spawn(move || got(&block_on(a)));
            join(t);
        }
    }
    got(&block_on(b));
    join(u);
    Tok::check_all();
}
/// Any sequence of polling, cloning, dropping and firing.
fn seq() {
    let depth = if mcrt::thorough() { 8 } else { 6 };
    let (f, i) = inner();
    let mut hs: Vec<Option<Shared<Inner>>> = vec![Some(i.shared())];
    let mut wid: Vec<Option<u64>> = vec![None];
    let mut fired = false;
    let mut completed = false;
    for _ in 0..depth {
        match choose(5) {
            0 => {
                let k = choose(hs.len());
                let Some(h) = hs[k].as_mut() else { skip() };
                if h.is_terminated() {
                    skip();
                }
                let id = fresh_id();
                let w = counting_waker(id);
                match Pin::new(h).poll(&mut Context::from_waker(&w)) {
                    Poll::Ready(v) => {
                        got(&v);
                        check!(fired, "completed before the event");
                        if !completed {
                            for (j, x) in wid.iter().enumerate() {
                                if j != k {
                                    if let Some(x) = x {
                                        check!(wakes(*x) > 0, "handle {j} was not woken by completion");
                                    }
                                }
                            }
                        }
                        completed = true;
                        wid[k] = None;
                        check!(hs[k].as_ref().unwrap().is_terminated(), "not terminated after completion");
                    }
                    Poll::Pending => {
                        check!(!fired, "pending after the event");
                        wid[k] = Some(id);
                    }
                }
            }
            1 => {
                let k = choose(hs.len());
                if hs.len() >= 3 {
                    skip();
                }
                let Some(h) = hs[k].as_ref() else { skip() };
                if h.is_terminated() {
                    skip();
                }
                let c = h.clone();
                check!(h.ptr_eq(&c), "clone differs");
                hs.push(Some(c));
                wid.push(None);
            }
            2 => {
                let k = choose(hs.len());
                if hs[k].take().is_none() {
                    skip();
                }
                wid[k] = None;
            }
            3 => {
                if fired {
                    skip();
                }
                fired = true;
                f.fire();
                if wid.iter().any(|w| w.is_some()) {
                    let any = wid.iter().flatten().all(|w| wakes(*w) > 0);
                    check!(any, "a waiting task was not woken");
                }
            }
            _ => {
                let k = choose(hs.len());
                let Some(h) = hs[k].as_ref() else { skip() };
                let p = h.peek().is_some();
                check!(p == (completed && !h.is_terminated()), "peek is {p}");
                let live = hs.iter().flatten().filter(|h| !h.is_terminated()).count();
                let sc = h.strong_count();
                check!(sc == if h.is_terminated() { None } else { Some(live) }, "strong_count {sc:?}, live {live}");
            }
        }
    }
    drop(hs);
    drop(f);
    Tok::check_all();
}
/// A panicking inner future poisons every handle instead of returning garbage.
fn poisoned() {
    let sh = async {
        if true {
            std::panic::panic_any(0u8);
        }
        Arc::new(Tok::new(1))
    }
    .boxed()
    .shared();
    let mut b = sh.clone();
    let c = sh.clone();
    let mut a = sh;
    check!(catch(|| poll_once(Pin::new(&mut a)).is_ready()).is_err(), "panic swallowed");
    check!(catch(|| poll_once(Pin::new(&mut b)).is_ready()).is_err(), "second handle did not panic");
    check!(catch(|| c.peek().is_some()).is_err(), "peek did not panic");
    drop((a, b, c));
    Tok::check_all();
}

// ---- C12 --------------------------------------------------------------------------------------

fn abort_wakes() {
    let (_f, e) = event(1);
    let (h, reg) = AbortHandle::new_pair();
    let fut = Abortable::new(e, reg);
    let h2 = h.clone();
    let t = spawn(move || h2.abort());
    check!(block_on(fut) == Err(Aborted), "not aborted");
    check!(h.is_aborted(), "is_aborted is false");
    join(t);
    Tok::check_all();
}
/// `copy_buf_abortable` has its own way of registering.
fn abort_copy() {
    use futures::io::{AsyncBufRead, AsyncRead, AsyncWrite};
    use std::task::{Context, Poll};
    type R<T> = std::io::Result<T>;
    /// Gives `n` bytes, one at a time, and is then pending for ever.
    struct Rd(usize);
    impl AsyncRead for Rd {
        fn poll_read(self: Pin<&mut Self>, _: &mut Context<'_>, _: &mut [u8]) -> Poll<R<usize>> {
            unreachable!()
        }
    }
    impl AsyncBufRead for Rd {
        fn poll_fill_buf(self: Pin<&mut Self>, _: &mut Context<'_>) -> Poll<R<&[u8]>> {
            if self.0 == 0 {
                Poll::Pending
            } else {
                Poll::Ready(Ok(&[7]))
            }
        }
        fn consume(mut self: Pin<&mut Self>, n: usize) {
            self.0 -= n;
        }
    }
    struct Wr(bool);
    impl AsyncWrite for Wr {
        fn poll_write(self: Pin<&mut Self>, _: &mut Context<'_>, b: &[u8]) -> Poll<R<usize>> {
            if self.0 {
                Poll::Pending
            } else {
                Poll::Ready(Ok(b.len()))
            }
        }
        fn poll_flush(self: Pin<&mut Self>, _: &mut Context<'_>) -> Poll<R<()>> {
            Poll::Ready(Ok(()))
        }
        fn poll_close(self: Pin<&mut Self>, _: &mut Context<'_>) -> Poll<R<()>> {
            Poll::Ready(Ok(()))
        }
    }
    let n = choose(2);
    let mut w = Wr(n == 1 && flip());
    let (f, h) = futures::io::copy_buf_abortable(Rd(n), &mut w);
    let h2 = h.clone();
    let t = spawn(move || h2.abort());
    let r = block_on(f);
    check!(matches!(r, Ok(Err(Aborted))), "not aborted: {r:?}");
    check!(h.is_aborted(), "is_aborted is false");
    join(t);
    Tok::check_all();
}
fn abort_vs_complete() {
    let (f, e) = event(1);
    let (h, reg) = AbortHandle::new_pair();
    let mut fut = Abortable::new(e, reg);
    let t = spawn(move || h.abort());
    let u = spawn(move || f.fire());
    match block_on(&mut fut) {
        Ok(v) => {
            check!(v == 1, "value");
            obs(1);
        }
        Err(Aborted) => {
            check!(fut.is_aborted(), "is_aborted is false");
            obs(2)
        }
    }
    drop(fut);
    join(t);
    join(u);
    Tok::check_all();
}
/// After abort() has returned, the task is never polled again.
fn abort_then_poll() {
    let (f, e) = event(1);
    let (h, reg) = AbortHandle::new_pair();
    let h3 = reg.handle();
    let mut fut = Abortable::new(e, reg);
    let polled = flip();
    if polled {
        check!(poll_once(Pin::new(&mut fut)).is_pending(), "ready");
    }
    let t = spawn(move || {
        if flip() {
            h.abort()
        } else {
            h3.abort()
        }
    });
    if flip() {
        f.fire();
    }
    join(t);
    check!(fut.is_aborted(), "is_aborted is false after abort");
    let n = ev_polls(1);
    check!(poll_once(Pin::new(&mut fut)) == Poll::Ready(Err(Aborted)), "aborted future did not say so");
    check!(ev_polls(1) == n, "aborted task was polled");
    drop((fut, f));
    Tok::check_all();
}
fn abort_stream() {
    let (f, e) = event(1);
    let (st, h) = futures::stream::abortable(futures::stream::once(e).chain(futures::stream::pending()));
    let mut st = Box::pin(st);
    let t = spawn(move || h.abort());
    let u = spawn(move || f.fire());
    let mut n = 0;
    while let Some(v) = block_on(st.next()) {
        check!(v == 1, "value");
        n += 1;
        check!(n == 1, "item twice");
    }
    obs(n);
    check!(st.is_aborted(), "ended without abort");
    check!(block_on(st.next()).is_none(), "item after the aborted stream's end");
    join(t);
    join(u);
    drop(st);
    Tok::check_all();
}
fn abort_migrate() {
    let (_f, e) = event(1);
    let (mut fut, h) = futures::future::abortable(e);
    let t = spawn(move || h.abort());
    match poll_once(Pin::new(&mut fut)) {
        Poll::Ready(r) => {
            check!(r == Err(Aborted), "value out of nowhere");
            drop(fut);
        }
        Poll::Pending => {
            let b = spawn(move || check!(block_on(fut) == Err(Aborted), "not aborted"));
            join(b);
        }
    }
    join(t);
    Tok::check_all();
}
fn no_abort() {
    let (f, e) = event(1);
    let (fut, h) = futures::future::abortable(e);
    let t = spawn(move || {
        drop(h);
        f.fire();
    });
    check!(block_on(fut) == Ok(1), "dropping the handle aborted the future, or the value was lost");
    join(t);
    Tok::check_all();
}
fn abort_two_handles() {
    let (_f, e) = event(1);
    let (h, reg) = AbortHandle::new_pair();
    let fut = Abortable::new(e, reg);
    let h2 = h.clone();
    let t = spawn(move || h2.abort());
    let u = spawn(move || h.abort());
    check!(block_on(fut) == Err(Aborted), "not aborted");
    join(t);
    join(u);
    Tok::check_all();
}

// ---- C13 --------------------------------------------------------------------------------------

fn remote_value() {
    let (f, e) = event(1);
    let (rem, h) = e.map(|v| Tok::new(v + 10)).remote_handle();
    let t = spawn(move || block_on(rem));
    let u = spawn(move || f.fire());
    let v = block_on(h);
    check!(v.0 == 11, "wrong value");
    drop(v);
    join(t);
    join(u);
    Tok::check_all();
}
/// Dropping the handle: the remote future is woken, ends, and its payload is dropped; it is not
/// left waiting for an event that never comes.
fn remote_cancel() {
    let (f, e) = event(1);
    let (rem, mut h) = e.map(|v| Tok::new(v + 10)).remote_handle();
    let fires = flip();
    let t = spawn(move || {
        block_on(rem);
        obs(ev_polls(1));
    });
    let u = fires.then(|| {
        let f = f.clone();
        spawn(move || f.fire())
    });
    if flip() {
        if let Poll::Ready(v) = poll_once(Pin::new(&mut h)) {
            check!(v.0 == 11, "wrong value");
        }
    }
    drop(h);
    join(t);
    if let Some(u) = u {
        join(u);
    }
    drop(f);
    Tok::check_all();
}
/// Once the handle is gone, the remote future is not polled again.
fn remote_cancel_nopoll() {
    let (f, e) = event(1);
    let (mut rem, h) = e.remote_handle();
    if flip() {
        check!(poll_once(Pin::new(&mut rem)).is_pending(), "ready");
    }
    let t = spawn(move || drop(h));
    join(t);
    f.fire();
    let n = ev_polls(1);
    check!(poll_once(Pin::new(&mut rem)).is_ready(), "cancelled remote is pending");
    check!(ev_polls(1) == n, "cancelled remote future was polled");
    drop((rem, f));
    Tok::check_all();
}
/// `forget` lets the remote run to completion.
fn remote_forget() {
    let (f, e) = event(1);
    let (rem, mut h) = e.map(|v| RUNS.quiet_add(v)).remote_handle();
    let t = spawn(move || block_on(rem));
    let u = spawn(move || f.fire());
    if flip() {
        if poll_once(Pin::new(&mut h)).is_ready() {
            check!(RUNS.peek() == 1, "no run");
        }
    }
    h.forget();
    join(t);
    join(u);
    check!(RUNS.peek() == 1, "forgotten remote future did not run to completion");
    Tok::check_all();
}
/// The executor drops the remote: the handle does not hang, it panics.
fn remote_dropped() {
    let (_f, e) = event(1);
    let (mut rem, h) = e.remote_handle();
    let t = spawn(move || {
        if flip() {
            check!(poll_once(Pin::new(&mut rem)).is_pending(), "ready");
        }
        drop(rem)
    });
    check!(catch(|| block_on(h)).is_err(), "value out of nowhere");
    join(t);
    Tok::check_all();
}
/// A panic of the remote future resurfaces, with its payload, where the handle is awaited.
fn remote_panic() {
    let (f, e) = event(1);
    let (rem, h) = e
        .map(|v| {
            if v == 1 {
                std::panic::panic_any(77u64);
            }
        })
        .remote_handle();
    let t = spawn(move || block_on(rem));
    let u = spawn(move || f.fire());
    let r = std::panic::catch_unwind(std::panic::AssertUnwindSafe(|| block_on(h)));
    match r {
        Ok(()) => fail("the panic was swallowed".into()),
        Err(p) => check!(p.downcast_ref::<u64>() == Some(&77), "another payload"),
    }
    join(t);
    join(u);
    Tok::check_all();
}

pub const SCN: &[Scn] = &[
    s("shared_two", "C09 C31 C27", (3, 2), (5, 3), two),
    s("shared_two_stable", "C09 C31 C27", (3, 2), (5, 3), two_stable),
    s("shared_three", "C09 C31 C27", (3, 1), (5, 2), three),
    s("shared_drop_poller", "C09 C31 C27", (3, 2), (5, 3), drop_poller),
    s("shared_all_drop", "C09 C27 C31", (4, 3), (6, 4), all_drop),
    s("shared_peek_weak", "C09 C27 C31", (4, 3), (6, 4), peek_weak),
    s("shared_migrate", "C09 C31 C27", (7, 3), (9, 4), migrate),
    s("shared_seq", "C09 C27", (0, 0), (0, 0), seq),
    s("shared_poisoned", "C09 C31 C27", (0, 0), (0, 0), poisoned),
    s("abort_copy", "C12 C26 C31 C27", (6, 3), (8, 4), abort_copy),
    s("abort_wakes", "C12 C31 C27", (9, 4), (11, 5), abort_wakes),
    s("abort_vs_complete", "C12 C31 C27", (8, 4), (10, 5), abort_vs_complete),
    s("abort_then_poll", "C12 C31 C27", (8, 3), (10, 4), abort_then_poll),
    s("abort_stream", "C12 C31 C27", (8, 3), (10, 4), abort_stream),
    s("abort_migrate", "C12 C31 C27", (8, 3), (10, 4), abort_migrate),
    s("abort_none", "C12 C31 C27", (8, 3), (10, 4), no_abort),
    s("abort_two_handles", "C12 C31 C27", (8, 3), (10, 4), abort_two_handles),
    s("remote_value", "C13 C31 C27", (7, 3), (9, 4), remote_value),
    s("remote_cancel", "C13 C31 C27", (7, 3), (9, 4), remote_cancel),
    s("remote_cancel_nopoll", "C13 C31 C27", (7, 3), (9, 4), remote_cancel_nopoll),
    s("remote_forget", "C13 C31 C27", (6, 3), (8, 4), remote_forget),
    s("remote_dropped", "C13 C31 C27", (7, 2), (9, 3), remote_dropped),
    os("remote_panic", "C13 C31 C27", (5, 2), (7, 3), remote_panic),
];
