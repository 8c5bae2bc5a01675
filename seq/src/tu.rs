//! The test utilities of futures-test (C32).
use crate::ch::*;
use crate::io as xio;
use crate::leaf::*;
use crate::sinks::{ko, run_sink};
use crate::{s, Scn};
use futures::future::FusedFuture;
use futures::io::{AsyncRead, AsyncWrite, AsyncWriteExt};
use futures::sink::Sink;
use futures::stream::{FusedStream, Stream};
use futures::task::{Spawn, SpawnExt};
use futures_test::future::FutureTestExt;
use futures_test::io::{AsyncReadTestExt, AsyncWriteTestExt};
use futures_test::sink::SinkTestExt;
use futures_test::stream::StreamTestExt;
use futures_test::task::*;
use futures_test::{assert_stream_done, assert_stream_next, assert_stream_pending};
use std::future::Future;
use std::mem::MaybeUninit;
use std::io::SeekFrom;
use std::panic::{catch_unwind, AssertUnwindSafe};
use std::pin::Pin;
use std::rc::Rc;
use std::task::{Context, Poll};

/// One poll of something interleaved: every operation is first pending once (and wakes the task at
/// once), then passed on until it is ready.
struct Alt {
    pended: bool,
}
impl Alt {
    fn poll<R>(&mut self, d: &mut Driver, polls: impl Fn() -> u32, f: impl FnOnce(&mut Context<'_>) -> Poll<R>) -> Poll<R> {
        let n0 = polls();
        let r = d.poll(f);
        if !self.pended {
            check!(r.is_pending() && polls() == n0, "the first poll of an operation is passed on");
            check!(d.in_poll == 1, "the interleaved pending poll wakes the task {} times", d.in_poll);
            self.pended = true;
        } else {
            check!(polls() == n0 + 1, "the second poll of an operation is not passed on exactly once");
            if r.is_ready() {
                self.pended = false;
            }
        }
        r
    }
}
fn t_inter_fut(b: u32) {
    budget(b, 1);
    let f = fut(tok(3));
    let i = f.id;
    let mut d = Driver::new(b);
    let mut f = Box::pin(f.interleave_pending());
    let mut a = Alt { pended: false };
    loop {
        check!(!f.is_terminated(), "terminated early");
        match a.poll(&mut d, || polls(i), |cx| f.as_mut().poll(cx)) {
            Poll::Ready(t) => {
                check!(t.0 == 3, "wrong result");
                break;
            }
            Poll::Pending => {
                d.wait();
            }
        }
    }
    check!(f.is_terminated(), "not terminated");
    obs(d.polls);
}
fn t_inter_stream(b: u32) {
    budget(b, 1);
    let st = src(0, 3).any_hint().tolerant();
    let (i, n) = (st.id, st.left());
    let _ = i;
    let mut d = Driver::new(b);
    let mut st = Box::pin(st.interleave_pending());
    let mut a = Alt { pended: false };
    let mut got = 0;
    let mut h = vec![];
    loop {
        h.push((got, st.size_hint()));
        check!(!st.is_terminated(), "terminated early");
        match a.poll(&mut d, || w(|w| w.srcs[0].polls), |cx| st.as_mut().poll_next(cx)) {
            Poll::Ready(Some(x)) => {
                check!(x as usize == got, "item {x} instead of {got}");
                got += 1;
            }
            Poll::Ready(None) => break,
            Poll::Pending => {
                d.wait();
            }
        }
    }
    check!(got == n && st.is_terminated(), "ended after {got} of {n}");
    for (g, (lo, hi)) in h {
        check!(lo <= n - g && hi.map_or(true, |h| h >= n - g), "size_hint is wrong");
    }
    obs(d.polls);
}
fn t_inter_rest(b: u32) {
    match choose(3) {
        0 => {
            budget(b, 1);
            let mut d = Driver::new(0);
            run_sink(&mut d, snk(1).interleave_pending_sink(), ko(2, 0), |e| e.0, |a| vec![a.to_vec()]);
        }
        1 => xio::tu_read(b, |r| AsyncReadTestExt::interleave_pending(r)),
        _ => xio::cp_write(b, |r| Box::pin(r.interleave_pending_write())),
    }
}
/// Seeking through the wrappers: the inner position moves as asked, once per operation.
fn t_seek(b: u32) {
    xio::shared(b);
    let inter = flip();
    let (st, r) = xio::seekable(4, b);
    let mut f: Pin<Box<dyn futures::io::AsyncSeek>> = if inter { Box::pin(AsyncReadTestExt::interleave_pending(r)) } else { Box::pin(AsyncReadTestExt::assert_unmoved(r)) };
    let mut d = Driver::new(0);
    let mut pos = 0u64;
    for _ in 0..3 {
        let to = [SeekFrom::Start(1), SeekFrom::Current(1), SeekFrom::Current(-2), SeekFrom::End(-1)][choose(4)];
        let want = match to {
            SeekFrom::Start(x) => Some(x),
            SeekFrom::Current(x) => pos.checked_add_signed(x),
            SeekFrom::End(x) => 4u64.checked_add_signed(x),
        };
        let mut first = inter;
        loop {
            check!(st() == pos, "the inner reader is at {} and not at {pos}", st());
            match d.poll(|cx| f.as_mut().poll_seek(cx, to)) {
                Poll::Ready(r) => {
                    check!(!first, "the first poll of an operation is passed on");
                    match (r, want) {
                        (Ok(p), Some(q)) => {
                            check!(p == q && st() == q, "{to:?} at {pos} of 4 gives {p}, the inner reader is at {}", st());
                            pos = q;
                        }
                        (Err(_), None) => {}
                        (r, w) => {
                            check!(false, "{to:?} at {pos} gives {r:?} instead of {w:?}");
                        }
                    }
                    break;
                }
                Poll::Pending => {
                    if first {
                        check!(d.in_poll == 1, "the interleaved pending poll wakes the task {} times", d.in_poll);
                    }
                    first = false;
                    d.wait();
                }
            }
        }
    }
    obs(d.polls);
}
/// In between other operations of the same object, every operation is pending first.
fn t_inter_sink(b: u32) {
    budget(b, 1);
    let k = snk(0);
    let (r, f, c) = k.ids();
    let mut k = Box::pin(k.interleave_pending_sink());
    let mut d = Driver::new(0);
    let mut a = Alt { pended: false };
    let mut sent = 0;
    let mut cur: Option<usize> = None;
    let mut left = 3;
    loop {
        let op = cur.take().unwrap_or_else(|| if left == 0 { 2 } else { choose(3) });
        let before = (polls(r), polls(f), polls(c));
        let n0 = d.polls;
        let _ = (before, n0);
        let p0 = a.pended;
        let res = d.poll(|cx| match op {
            0 => k.as_mut().poll_ready(cx),
            1 => k.as_mut().poll_flush(cx),
            _ => k.as_mut().poll_close(cx),
        });
        if !p0 {
            check!(res.is_pending() && d.in_poll == 1, "an operation is not pending first");
            check!(before == (polls(r), polls(f), polls(c)), "an operation is passed on at its first poll");
            a.pended = true;
        } else if res.is_ready() {
            a.pended = false;
        }
        match res {
            Poll::Pending => {
                cur = Some(op);
                d.wait();
            }
            Poll::Ready(r) => {
                check!(r.is_ok(), "error");
                left -= 1;
                match op {
                    0 => {
                        sent += 1;
                        check!(k.as_mut().start_send(sent).is_ok(), "start_send failed");
                    }
                    1 => check!(slog(0).flushed == sent as usize, "not flushed"),
                    _ => {
                        check!(slog(0).closed && slog(0).items == (1..=sent).collect::<Vec<_>>(), "not closed or items lost");
                        break;
                    }
                }
                if left < 0 {
                    break;
                }
            }
        }
    }
    obs(d.polls);
}
fn t_pending_once(b: u32) {
    budget(b, 1);
    let f = fut(tok(3));
    let i = f.id;
    let mut d = Driver::new(b);
    let mut f = Box::pin(f.pending_once());
    check!(!f.is_terminated(), "terminated early");
    let r = d.poll(|cx| f.as_mut().poll(cx));
    check!(r.is_pending() && d.in_poll == 1 && polls(i) == 0, "the first poll is not just pending");
    loop {
        let n = polls(i);
        let r = d.poll(|cx| f.as_mut().poll(cx));
        check!(polls(i) == n + 1, "a later poll is not passed on");
        check!(r.is_ready() == isfin(i), "the result is not that of the future");
        check!(f.is_terminated() == isfin(i), "is_terminated is not that of the future");
        if r.is_ready() {
            break;
        }
        d.wait();
    }
    obs(d.polls);
}
fn t_track_sink(b: u32) {
    budget(b, 1);
    let k = snk(1);
    let mut k = Box::pin(SinkTestExt::track_closed(k));
    let mut d = Driver::new(0);
    let mut sent = 0;
    for _ in 0..3 + b {
        let op = choose(3);
        check!(k.is_closed() == slog(0).closed, "is_closed is wrong");
        let e0 = slog(0).errors;
        if k.is_closed() {
            let r = catch_unwind(AssertUnwindSafe(|| {
                d.poll(|cx| match op {
                    0 => k.as_mut().poll_ready(cx),
                    1 => k.as_mut().poll_flush(cx),
                    _ => k.as_mut().poll_close(cx),
                })
            }));
            check!(r.is_err(), "using a closed sink is not caught");
            let r = catch_unwind(AssertUnwindSafe(|| k.as_mut().start_send(9)));
            check!(r.is_err(), "start_send on a closed sink is not caught");
            check!(k.is_closed(), "not closed any more");
            return;
        }
        let r = loop {
            match d.poll(|cx| match op {
                0 => k.as_mut().poll_ready(cx),
                1 => k.as_mut().poll_flush(cx),
                _ => k.as_mut().poll_close(cx),
            }) {
                Poll::Ready(r) => break r,
                Poll::Pending => {
                    check!(!k.is_closed(), "closed while closing is pending");
                    d.wait();
                }
            }
        };
        let r = if op == 0 && r.is_ok() {
            sent += 1;
            k.as_mut().start_send(sent)
        } else {
            r
        };
        check!(r.is_err() == (slog(0).errors > e0), "errors are not passed on");
        if r.is_err() {
            check!(!k.is_closed(), "closed after an error");
            return;
        }
        check!(slog(0).items == (1..=sent).collect::<Vec<_>>(), "items are not passed on");
        check!((op == 2) == k.is_closed(), "is_closed does not follow poll_close");
    }
}
fn t_track_write(b: u32) {
    xio::tu_track(b);
}
fn t_limited(b: u32) {
    xio::tu_limited(b);
}

// ---- AssertUnmoved ----------------------------------------------------------------------------------

struct Slots<T> {
    s: [MaybeUninit<T>; 2],
    at: usize,
}
impl<T> Slots<T> {
    fn new(t: T) -> Box<Slots<T>> {
        Box::new(Slots { s: [MaybeUninit::new(t), MaybeUninit::uninit()], at: 0 })
    }
    fn mv(&mut self) {
        let o = 1 - self.at;
        let v = unsafe { self.s[self.at].assume_init_read() };
        self.s[o].write(v);
        self.at = o;
    }
    fn pin(&mut self) -> Pin<&mut T> {
        unsafe { Pin::new_unchecked(self.s[self.at].assume_init_mut()) }
    }
    fn get(&self) -> &T {
        unsafe { self.s[self.at].assume_init_ref() }
    }
    fn destroy(&mut self) {
        unsafe { self.s[self.at].assume_init_drop() }
    }
}
/// Every sequence of moves, polls and clones: caught exactly if something polled was moved.
fn t_unmoved(b: u32) {
    #[derive(Clone)]
    struct Never(Rc<()>);
    impl Future for Never {
        type Output = ();
        fn poll(self: Pin<&mut Self>, _: &mut Context<'_>) -> Poll<()> {
            Poll::Pending
        }
    }
    let alive = Rc::new(());
    // (object, address of its first poll)
    let mut v = vec![(Slots::new(Never(alive.clone()).assert_unmoved()), None::<usize>)];
    let mut d = Driver::fixed(0);
    for _ in 0..2 + b {
        let i = choose(v.len());
        // cloning one that was polled is `t_unmoved_clone`
        match choose(if v.len() < 2 && v[i].1.is_none() { 3 } else { 2 }) {
            0 => {
                note(|| format!("poll {i}"));
                let (o, first) = &mut v[i];
                let here = o.at;
                let r = catch_unwind(AssertUnwindSafe(|| d.poll(|cx| o.pin().poll(cx))));
                let moved = first.map_or(false, |f| f != here);
                check!(r.is_err() == moved, "polling after {} {}", if moved { "a move" } else { "no move" }, if r.is_err() { "panics" } else { "does not panic" });
                first.get_or_insert(here);
            }
            1 => {
                note(|| format!("move {i}"));
                v[i].0.mv();
            }
            _ => {
                note(|| format!("clone {i}"));
                let c = v[i].0.get().clone();
                v.push((Slots::new(c), None));
            }
        }
    }
    for (mut o, first) in v {
        let moved = first.map_or(false, |f| f != o.at);
        let r = catch_unwind(AssertUnwindSafe(|| o.destroy()));
        check!(r.is_err() == moved, "dropping after {} {}", if moved { "a move" } else { "no move" }, if r.is_err() { "panics" } else { "does not panic" });
    }
    check!(Rc::strong_count(&alive) == 1, "the wrapped future was not dropped exactly once");
}
/// A clone of one that was polled has itself neither been polled nor moved.
fn t_unmoved_clone(_: u32) {
    #[derive(Clone)]
    struct Never;
    impl Future for Never {
        type Output = ();
        fn poll(self: Pin<&mut Self>, _: &mut Context<'_>) -> Poll<()> {
            Poll::Pending
        }
    }
    let mut d = Driver::fixed(0);
    let mut o = Slots::new(Never.assert_unmoved());
    d.poll(|cx| drop(o.pin().poll(cx)));
    let mut c = Slots::new(o.get().clone());
    let polled = catch_unwind(AssertUnwindSafe(|| d.poll(|cx| drop(c.pin().poll(cx))))).is_err();
    let dropped = catch_unwind(AssertUnwindSafe(|| c.destroy())).is_err();
    o.destroy();
    check!(!polled && !dropped, "poll, clone: the clone panics (polled: {polled}, dropped: {dropped})");
}
/// Unmoved, it changes nothing.
fn t_unmoved_pass(b: u32) {
    match choose(5) {
        0 => {
            budget(b, 1);
            strict();
            let mut d = Driver::new(1);
            let f = fut(tok(1));
            let i = f.id;
            run_fut(&mut d, FutureTestExt::assert_unmoved(f), |t| t.0, ffused, move || isfin(i).then(|| 1));
        }
        1 => {
            budget(b, 1);
            strict();
            let mut d = Driver::new(1);
            run_stream(&mut d, StreamTestExt::assert_unmoved(src(0, 3)), |x| x, fused, || Model { out: items(0), fin: ended(0) }, SO);
        }
        2 => {
            budget(b, 1);
            let mut d = Driver::new(0);
            run_sink(&mut d, snk(1).assert_unmoved_sink(), ko(2, 0), |e| e.0, |a| vec![a.to_vec()]);
        }
        3 => xio::tu_read(b, |r| AsyncReadTestExt::assert_unmoved(r)),
        _ => xio::cp_write(b, |r| Box::pin(r.assert_unmoved_write())),
    }
}

// ---- wakers, spawners, assertions --------------------------------------------------------------------

fn t_counter(b: u32) {
    let (wk, n) = new_count_waker();
    let mut ws = vec![wk];
    let mut want = 0;
    for _ in 0..2 + b {
        if ws.is_empty() {
            break;
        }
        let i = choose(ws.len());
        match choose(4) {
            0 => {
                ws[i].wake_by_ref();
                want += 1;
            }
            1 => {
                ws.remove(i).wake();
                want += 1;
            }
            2 => {
                let c = ws[i].clone();
                ws.push(c);
            }
            _ => drop(ws.remove(i)),
        }
        step();
        check!(n.get() == want && n == want && !(n == want + 1), "counted {} of {want} wake-ups", n.get());
    }
    obs(want as u64);
}
fn t_spawners(_b: u32) {
    budget(1, 0);
    let f = fut(());
    let i = f.id;
    match choose(4) {
        0 => {
            let sp = RecordSpawner::new();
            let n = choose(3);
            check!(sp.spawned().is_empty(), "not empty");
            let mut ids = vec![];
            for _ in 0..n {
                let g = fut(());
                ids.push(g.id);
                check!(sp.spawn(g).is_ok(), "refused");
            }
            check!(sp.spawn(f).is_ok() && sp.spawned().len() == n + 1, "{} recorded", sp.spawned().len());
            check!(!isdropped(i) && polls(i) == 0, "a recorded future was polled or dropped");
            drop(sp);
            check!(isdropped(i) && ids.iter().all(|i| isdropped(*i)), "recorded futures leak");
        }
        1 => {
            let ok = if flip() { NoopSpawner::new().spawn(f).is_ok() } else { noop_spawner_mut().spawn(f).is_ok() };
            check!(ok && isdropped(i) && polls(i) == 0, "the no-op spawner is not one");
        }
        2 => {
            let r = if flip() { catch_unwind(AssertUnwindSafe(|| PanicSpawner::new().spawn(f))) } else { catch_unwind(AssertUnwindSafe(|| panic_spawner_mut().spawn(f))) };
            check!(r.is_err() && isdropped(i), "the panic spawner does not panic");
        }
        _ => {
            drop(f);
            let wk = if flip() { panic_waker() } else { panic_waker_ref().clone() };
            let c = wk.clone();
            let r = match choose(3) {
                0 => catch_unwind(AssertUnwindSafe(|| c.wake())),
                1 => catch_unwind(AssertUnwindSafe(|| c.wake_by_ref())),
                _ => catch_unwind(|| panic_context().waker().wake_by_ref()),
            };
            check!(r.is_err(), "the panic waker does not panic");
            noop_context().waker().wake_by_ref();
            noop_waker().wake();
        }
    }
}
fn t_assert(_b: u32) {
    budget(1, 0);
    let mut st = src(5, 2);
    let n = st.left();
    let which = choose(4);
    let r = catch_unwind(AssertUnwindSafe(|| match which {
        0 => {
            assert_stream_pending!(st);
        }
        1 => assert_stream_next!(st, 5),
        2 => assert_stream_next!(st, 6),
        _ => assert_stream_done!(st),
    }));
    let pend = !waiting().is_empty();
    let want = match which {
        0 => pend,
        1 => !pend && n > 0,
        2 => false,
        _ => !pend && n == 0,
    };
    check!(r.is_ok() == want, "assertion {which} {} with {n} items, pending {pend}", if r.is_ok() { "holds" } else { "fails" });
    check!(w(|w| w.srcs[0].polls) == 1, "polled {} times", w(|w| w.srcs[0].polls));
}

pub const SCN: &[Scn] = &[
    s("tu_inter_fut", "C32 C31", 3, 4, t_inter_fut),
    s("tu_inter_stream", "C32 C31", 3, 4, t_inter_stream),
    s("tu_inter_sink", "C32 C31", 3, 4, t_inter_sink),
    s("tu_inter_rest", "C32", 2, 3, t_inter_rest),
    s("tu_pending_once", "C32", 3, 4, t_pending_once),
    s("tu_track_sink", "C32 !", 3, 4, t_track_sink),
    s("tu_track_write", "C32 !", 3, 4, t_track_write),
    s("tu_limited", "C32", 2, 3, t_limited),
    s("tu_seek", "C32 !", 2, 4, t_seek),
    s("tu_unmoved", "C32 !", 3, 5, t_unmoved),
    s("tu_unmoved_clone", "C32 !", 1, 1, t_unmoved_clone),
    s("tu_unmoved_pass", "C32", 2, 3, t_unmoved_pass),
    s("tu_counter", "C32 !", 4, 5, t_counter),
    s("tu_spawners", "C32 !", 1, 1, t_spawners),
    s("tu_assert", "C32 !", 1, 1, t_assert),
];
