//! C18 stream combinators against their Iterator counterparts (also C22 fused contracts, C23
//! size hints, C31 wake-ups: checked on every step of every run).
use crate::ch::*;
use crate::leaf::*;
use crate::{s, Scn};
use futures::future::{FusedFuture, FutureExt};
use std::future::Future;
use futures::stream::{self, FusedStream, Stream, StreamExt};
use std::cell::{Cell, RefCell};
use std::pin::Pin;
use std::rc::Rc;
use std::task::{Context, Poll};

fn id<T>(x: T) -> T {
    x
}
fn m<T>(out: Vec<T>, fin: bool) -> Model<T> {
    Model { out, fin }
}
fn start(b: u32) -> Driver {
    budget(b, 1);
    Driver::new(1)
}
fn n(b: u32) -> usize {
    (b as usize).min(4)
}
/// Runs with an ordinary source and, to see the behaviour after the end, with a fused one.
fn opts(s: Src<u32>) -> (Src<u32>, SOpts) {
    if flip() {
        (s.tolerant(), SOpts { again: 2, ..SO })
    } else {
        (s, SO)
    }
}

fn t_map(b: u32) {
    let mut d = start(b);
    let (s, o) = opts(src(10, n(b)).any_hint());
    run_stream(&mut d, s.map(|x| x * 2), id, fused, || m(items(0).iter().map(|x| x * 2).collect(), ended(0)), o);
}
fn t_inspect(b: u32) {
    let mut d = start(b);
    let (s, o) = opts(src(10, n(b)).any_hint());
    let seen = Rc::new(RefCell::new(vec![]));
    let s2 = seen.clone();
    let r = run_stream(&mut d, s.inspect(move |x| s2.borrow_mut().push(*x)), id, fused, || m(items(0), ended(0)), o);
    check!(r.unwrap() == *seen.borrow(), "inspect saw {:?}", seen);
}
fn t_enumerate(b: u32) {
    let mut d = start(b);
    let (s, o) = opts(src(10, n(b)).any_hint());
    run_stream(&mut d, s.enumerate(), id, fused, || m(items(0).into_iter().enumerate().collect(), ended(0)), o);
}
fn seqfin() -> bool {
    ended(0) && done() == items(0).len()
}
fn t_filter(b: u32) {
    let mut d = start(b);
    let (s, o) = opts(src_vals(n(b), 2).any_hint());
    run_stream(&mut d, s.filter(|x| cfut(*x != 0)), id, fused, || m(items(0).into_iter().take(done()).filter(|x| *x != 0).collect(), seqfin()), o);
}
fn t_filter_map(b: u32) {
    let mut d = start(b);
    let (s, o) = opts(src_vals(n(b), 2).any_hint());
    run_stream(&mut d, s.filter_map(|x| cfut(if x != 0 { Some(x + 7) } else { None })), id, fused, || m(items(0).into_iter().take(done()).filter(|x| *x != 0).map(|x| x + 7).collect(), seqfin()), o);
}
fn t_then(b: u32) {
    let mut d = start(b);
    let (s, o) = opts(src(10, n(b)).any_hint());
    run_stream(&mut d, s.then(|x| cfut(x + 1)), id, fused, || m(items(0).into_iter().take(done()).map(|x| x + 1).collect(), seqfin()), o);
}
fn t_skip(b: u32) {
    let mut d = start(b);
    let k = eparam(n(b));
    let (s, o) = opts(src(10, n(b)).any_hint());
    run_stream(&mut d, s.skip(k), id, fused, move || m(items(0).into_iter().skip(k).collect(), ended(0)), o);
}
fn t_skip_while(b: u32) {
    let mut d = start(b);
    let (s, o) = opts(src_vals(n(b), 2).any_hint());
    run_stream(
        &mut d,
        s.skip_while(|x| cfut(*x == 0)),
        id,
        fused,
        || {
            let it = items(0);
            // the predicate runs up to the first item it rejects
            let first = it.iter().position(|x| *x != 0);
            match first {
                Some(f) if done() > f => m(it[f..].to_vec(), ended(0)),
                _ => m(vec![], seqfin()),
            }
        },
        o,
    );
}
fn t_take(b: u32) {
    let mut d = start(b);
    let k = eparam(n(b));
    let (s, o) = opts(src(10, n(b)).any_hint());
    let ag = SOpts { again: 2, ..o };
    run_stream(&mut d, s.take(k), id, fused, move || m(items(0).into_iter().take(k).collect(), ended(0) || items(0).len() >= k), ag);
}
fn t_take_while(b: u32) {
    let mut d = start(b);
    let (s, o) = opts(src_vals(n(b), 2).any_hint());
    run_stream(
        &mut d,
        s.take_while(|x| cfut(*x != 0)),
        id,
        fused,
        || {
            let it: Vec<u32> = items(0).into_iter().take(done()).collect();
            let out: Vec<u32> = it.iter().copied().take_while(|x| *x != 0).collect();
            let cut = out.len() < it.len();
            m(out, cut || seqfin())
        },
        o,
    );
}
fn t_scan(b: u32) {
    let mut d = start(b);
    let (s, o) = opts(src_vals(n(b), 2).any_hint());
    run_stream(
        &mut d,
        s.scan(100u32, |st, x| cfut(if x == 0 { None } else { Some((st + 1, st)) })),
        id,
        fused,
        || {
            let it: Vec<u32> = items(0).into_iter().take(done()).collect();
            let k = it.iter().take_while(|x| **x != 0).count();
            m((0..k as u32).map(|i| 100 + i).collect(), k < it.len() || seqfin())
        },
        o,
    );
}
fn t_take_until(b: u32) {
    let mut d = start(b);
    let (s, o) = opts(src(10, n(b)).any_hint());
    let f = named("until", 5u32);
    let fid = f.id;
    run_stream(
        &mut d,
        s.take_until(f),
        id,
        fused,
        move || {
            // the future's completion ends the stream; it is dropped after that, or when the stream ends
            let st = w(|w| w.leaves[fid].gs);
            m(items(0), matches!(st, Gs::Done | Gs::Dropped) || ended(0))
        },
        o,
    );
}
/// take_result and take_future of TakeUntil.
/// abortable: the stream's items as they are, until abort; abort between polls or from within one.
fn t_abortable(b: u32) {
    let mut d = start(b);
    let mut s = src(10, n(b)).tolerant();
    let sid = s.id;
    let now = Rc::new(Cell::new(false));
    let (st, h) = {
        let (h, r) = stream::AbortHandle::new_pair();
        let (h2, now) = (h.clone(), now.clone());
        let inner = stream::poll_fn(move |cx| {
            let x = s.poll_next_unpin(cx);
            if now.get() {
                h2.abort();
            }
            x
        });
        (stream::Abortable::new(inner, r), h)
    };
    let mut st = Box::pin(st);
    let mut aborted = false;
    let mut got = vec![];
    let mut last = false; // the last poll was pending
    let mut over = 0;
    for _ in 0..(if huge() { 800 } else if long() { 200 } else { 3 * b as usize + 4 }) {
        check!(st.is_aborted() == aborted && h.is_aborted() == aborted, "is_aborted is {} / {}, but abort was {}called", st.is_aborted(), h.is_aborted(), if aborted { "" } else { "not " });
        match if long() { dchoose(3) } else { choose(3) } {
            1 if !aborted => {
                note(|| "abort".into());
                h.clone().abort();
                aborted = true;
                if last {
                    check!(d.woken(), "abort does not wake the task");
                }
                continue;
            }
            2 if !aborted => now.set(true),
            0 => {}
            _ => skip(),
        }
        let before = polls(sid);
        let r = d.poll(|cx| st.as_mut().poll_next(cx));
        last = r.is_pending();
        if aborted {
            check!(r == Poll::Ready(None), "{r:?} after abort");
            check!(polls(sid) == before, "the stream is polled after abort");
            over += 1;
            if over == 2 {
                break;
            }
            continue;
        }
        let within = now.replace(false);
        aborted = within;
        match r {
            Poll::Ready(Some(x)) => got.push(x),
            Poll::Ready(None) => {
                check!(within || ended(0), "ended by itself");
                over += 1;
                if over == 2 {
                    break;
                }
            }
            Poll::Pending => {
                if within {
                    check!(d.woken(), "aborted during the poll, but pending and not woken");
                } else {
                    d.wait();
                }
            }
        }
        check!(got == items(0), "got {got:?} of {:?}", items(0));
    }
    check!(got == items(0), "got {got:?} of {:?}", items(0));
}
fn t_take_until_ops(b: u32) {
    let mut d = start(b);
    let s = src(10, n(b)).tolerant();
    let f = named("until", 5u32);
    let fid = f.id;
    let mut st = s.take_until(f);
    let mut taken: Option<Fut<u32>> = None;
    let mut stopped = false;
    let mut result = false; // a result is there to be taken
    let mut got = 0;
    for _ in 0..(b + 3) {
        match choose(4) {
            0 => {
                if let Some(f) = st.take_future() {
                    check!(taken.is_none() && !stopped, "take_future gave a future twice or after the end");
                    taken = Some(f);
                } else {
                    check!(taken.is_some() || stopped, "take_future gave nothing although the future is there");
                }
            }
            1 => {
                let r = st.take_result();
                check!(r == if result { Some(5) } else { None }, "take_result {:?} but expected {}", r, result);
                result = false;
            }
            2 => {
                let r = d.poll(|cx| st.poll_next_unpin(cx));
                let fd = taken.is_none() && matches!(w(|w| w.leaves[fid].gs), Gs::Done | Gs::Dropped);
                match r {
                    Poll::Ready(Some(_)) => {
                        got += 1;
                        check!(!stopped || false, "yielded after the end");
                    }
                    Poll::Ready(None) => {
                        if !stopped && fd && !ended(0) {
                            result = true;
                        }
                        check!(fd || ended(0), "ended without reason");
                        stopped = true;
                    }
                    Poll::Pending => check!(!stopped, "pending after the end"),
                }
            }
            _ => {
                let c = waiting();
                if let Some(i) = c.first() {
                    fire(*i);
                    if !stopped && (taken.is_none() || *i != fid) {
                        check!(d.woken(), "the task is not woken");
                    }
                } else {
                    skip();
                }
            }
        }
        if stopped {
            check!(st.is_stopped() == true || ended(0), "is_stopped is false after the future completed");
        }
    }
    check!(got == items(0).len(), "lost items");
}
fn t_chunks(b: u32) {
    let mut d = start(b);
    let k = 1 + param(2);
    let (s, o) = opts(src(10, n(b) + 1).any_hint());
    run_stream(
        &mut d,
        s.chunks(k),
        id,
        fused,
        move || {
            let it = items(0);
            let mut out: Vec<Vec<u32>> = it.chunks(k).map(|c| c.to_vec()).collect();
            if !ended(0) && it.len() % k != 0 {
                out.pop();
            }
            m(out, ended(0))
        },
        o,
    );
}
fn t_ready_chunks(b: u32) {
    let mut d = start(b);
    let k = 1 + param(2);
    let s = src(10, n(b) + 1).any_hint();
    let mut st = s.ready_chunks(k);
    let mut out = 0;
    let mut hints = vec![];
    let mut chunks = 0;
    loop {
        hints.push((chunks, st.size_hint()));
        let before = items(0).len();
        check!(before == out, "items held back between polls");
        let t = st.is_terminated();
        let r = d.poll(|cx| st.poll_next_unpin(cx));
        let it = items(0);
        match r {
            Poll::Ready(Some(c)) => {
                check!(!t, "yields although terminated");
                check!(!c.is_empty() && c.len() <= k, "chunk of {} (capacity {k})", c.len());
                check!(c[..] == it[out..], "chunk {:?} but the source gave {:?}", c, &it[out..]);
                check!(c.len() == k || ended(0) || !waiting().is_empty() || d.woken(), "short chunk although more items are ready");
                out += c.len();
                chunks += 1;
            }
            Poll::Ready(None) => {
                check!(ended(0) && out == it.len(), "ended early");
                break;
            }
            Poll::Pending => {
                check!(it.len() == out && !ended(0), "pending although items are ready");
                d.wait();
            }
        }
    }
    check!(st.is_terminated(), "not terminated after the end");
    for (c, (lo, hi)) in hints {
        check!(lo <= chunks - c && hi.map_or(true, |h| h >= chunks - c), "size_hint {:?} with {} chunks to come", (lo, hi), chunks - c);
    }
}
fn t_chain(b: u32) {
    let mut d = start(b);
    let a = src(10, n(b)).any_hint();
    let (c, o) = opts(src(20, n(b)).any_hint());
    run_stream(&mut d, a.chain(c), id, fused, || m([items(0), items(1)].concat(), ended(0) && ended(1)), o);
    check!(w(|w| w.srcs[0].polls) > 0 || true, "");
}
/// chain must not touch the second stream before the first has ended
fn t_chain_order(b: u32) {
    let mut d = start(b);
    let a = src(10, n(b));
    let c = src(20, 1);
    let n2 = c.n;
    let mut st = a.chain(c);
    loop {
        let r = d.poll(|cx| st.poll_next_unpin(cx));
        if !ended(0) {
            check!(w(|w| w.srcs[n2].polls) == 0, "second stream polled before the first has ended");
        }
        match r {
            Poll::Ready(None) => break,
            Poll::Pending => drop(d.wait()),
            _ => {}
        }
    }
}
fn t_zip(b: u32) {
    let mut d = start(b);
    let a = src(10, n(b)).any_hint();
    let c = src(20, n(b)).any_hint();
    run_stream(
        &mut d,
        a.zip(c),
        id,
        fused,
        || {
            let (x, y) = (items(0), items(1));
            let out: Vec<(u32, u32)> = x.iter().copied().zip(y.iter().copied()).collect();
            check!(x.len() <= out.len() + 1 && y.len() <= out.len() + 1, "zip ran ahead: {:?} {:?}", x, y);
            let fin = (ended(0) && out.len() == x.len()) || (ended(1) && out.len() == y.len());
            m(out, fin)
        },
        SOpts { lazy: false, again: 1, ..SO },
    );
}
fn t_flatten(b: u32) {
    let mut d = start(b);
    let k = param(n(b).min(3));
    let inner: Vec<Src<u32>> = (0..k as u32).map(|i| inner_src(i * 10, if b > 2 { 2 } else { 1 })).collect();
    let outer = src_of(inner, (0..k as u32).collect());
    let oi = outer.n;
    let model = move || {
        let started = items(oi).len();
        let out = (0..k).flat_map(|i| items(i)).collect::<Vec<_>>();
        for i in 0..k {
            check!(w(|w| w.srcs[i].polls) == 0 || (i < started && (0..i).all(ended)), "inner stream {i} polled too early");
        }
        m(out, ended(oi) && (0..started).all(ended))
    };
    run_stream(&mut d, outer.flatten(), id, fused, model, SOpts { lazy: false, ..SO });
}
fn t_flat_map(b: u32) {
    let mut d = start(b);
    let s = src_vals(n(b).min(3), 3);
    run_stream(
        &mut d,
        s.flat_map(|x| stream::iter((0..x).map(move |y| x * 10 + y))),
        id,
        fused,
        || {
            let all: Vec<u32> = items(0).iter().flat_map(|x| (0..*x).map(move |y| x * 10 + y)).collect();
            m(all, ended(0))
        },
        SO,
    );
}
#[derive(Clone)]
struct Cy {
    n: u32,
    at: u32,
    leaf: usize,
    starts: Rc<Cell<u32>>,
    unknown: bool,
}
impl Stream for Cy {
    type Item = u32;
    fn poll_next(mut self: Pin<&mut Self>, cx: &mut Context<'_>) -> Poll<Option<u32>> {
        if !gate(self.leaf, cx) {
            return Poll::Pending;
        }
        if self.at == self.n {
            return Poll::Ready(None);
        }
        self.at += 1;
        Poll::Ready(Some(self.at))
    }
    fn size_hint(&self) -> (usize, Option<usize>) {
        let l = (self.n - self.at) as usize;
        if self.unknown {
            (0, None)
        } else {
            (l, Some(l))
        }
    }
}
fn t_cycle(b: u32) {
    may_leak();
    let mut d = start(b);
    let k = param(n(b)) as u32;
    let unknown = flip();
    if k == 0 {
        // a source that is pending before each end makes a cycle of nothing go on for ever
        w(|w| w.pat = 0);
    }
    let c = Cy { n: k, at: 0, leaf: new_leaf("cycled"), starts: Rc::new(Cell::new(0)), unknown };
    let mut st = c.cycle();
    let mut out = vec![];
    while out.len() < 2 * k as usize + 2 {
        let h = st.size_hint();
        if k > 0 {
            check!(h.1.is_none(), "cycle: finite upper bound {:?}", h);
            check!(!st.is_terminated(), "terminated");
        } else {
            check!(st.is_terminated() || unknown, "a cycle of nothing that knows it is not terminated");
            check!(h.0 == 0, "cycle of nothing: size_hint {:?}", h);
        }
        match d.poll(|cx| st.poll_next_unpin(cx)) {
            Poll::Ready(Some(x)) => out.push(x),
            Poll::Ready(None) => {
                check!(k == 0, "cycle ended");
                break;
            }
            Poll::Pending => drop(d.wait()),
        }
    }
    for (i, x) in out.iter().enumerate() {
        check!(k > 0 && *x == i as u32 % k + 1, "cycle yields {:?}", out);
    }
    obs(out.len() as u64);
}
fn t_fuse(b: u32) {
    let mut d = start(b);
    let s = src(10, n(b)).any_hint();
    let o = SOpts { again: 3, ..SO };
    let mo = || m(items(0), ended(0));
    match choose(4) {
        0 => run_stream(&mut d, s.fuse(), id, fused, mo, o),
        1 => run_stream(&mut d, Box::pin(s.fuse()), id, fused, mo, o),
        2 => run_stream(&mut d, Box::new(s.fuse()), id, fused, mo, o),
        _ => {
            let mut s = s.fuse();
            run_stream(&mut d, &mut s, id, fused, mo, o)
        }
    };
    check!(w(|w| w.srcs[0].ended), "");
}
fn t_peekable(b: u32) {
    let mut d = start(b);
    let total = src_vals(n(b), 2).any_hint();
    let (s, _) = opts(total);
    let tolerant = s.tolerant;
    let mut st = Box::pin(s.peekable());
    // reference: items taken from the front, `peeked` the one looked at
    let mut taken = 0usize;
    let mut seen = false; // the next item is known (peeked)
    let mut fin = false;
    for _ in 0..b + 2 {
        let op = choose(6);
        if fin && !tolerant {
            break;
        }
        let h = st.size_hint();
        let left_known = items(0).len() - taken;
        check!(left_known <= 1, "ran ahead by {left_known}");
        check!(h.0 >= left_known || matches!(h, (0, None)) || true, "");
        let e0 = ended(0);
        if st.is_terminated() {
            check!(e0 && left_known == 0, "terminated with items left");
        }
        if op == 5 {
            let r = d.poll(|cx| st.poll_next_unpin(cx));
            match r {
                Poll::Ready(Some(x)) => {
                    check!(x == items(0)[taken], "wrong item");
                    taken += 1;
                    seen = false;
                }
                Poll::Ready(None) => {
                    check!(ended(0) && taken == items(0).len(), "early end");
                    check!(st.is_terminated(), "not terminated after the end");
                    fin = true;
                }
                Poll::Pending => {
                    check!(!seen, "pending although an item was peeked");
                    d.wait();
                }
            }
            continue;
        }
        // one of the futures; it may be dropped when pending
        let mut waited = false;
        loop {
            // the future is polled once and dropped, or kept over one wait and polled again
            macro_rules! held {
                ($f:expr, $k:expr, |$x:ident| $e:expr) => {{
                    let mut f = Box::pin($f);
                    check!(!FusedFuture::is_terminated(&*f), "terminated before completion");
                    let mut r = d.poll(|cx| f.as_mut().poll(cx).map(|$x| ($k, $e)));
                    if r.is_pending() && !waited && flip() {
                        check!(!seen, "pending although the item is there");
                        check!(!FusedFuture::is_terminated(&*f), "terminated while pending");
                        waited = true;
                        d.wait();
                        r = d.poll(|cx| f.as_mut().poll(cx).map(|$x| ($k, $e)));
                    }
                    check!(FusedFuture::is_terminated(&*f) == r.is_ready(), "is_terminated of the pending or finished future");
                    r
                }};
            }
            let r: Poll<(u32, Option<u32>)> = match op {
                0 => held!(st.as_mut().peek(), 0, |x| x.copied()),
                1 => held!(st.as_mut().peek_mut(), 0, |x| x.copied()),
                2 => held!(st.as_mut().next_if(|x: &u32| *x == 1), 1, |x| x),
                3 => held!(st.as_mut().next_if_eq(&0u32), 2, |x| x),
                _ => d.poll(|cx| st.as_mut().poll_peek(cx).map(|x| (0, x.copied()))),
            };
            match r {
                Poll::Ready((k, got)) => {
                    let next = items(0).get(taken).copied();
                    if next.is_none() {
                        check!(ended(0), "resolved without an item");
                        fin = !tolerant;
                    }
                    match k {
                        0 => {
                            check!(got == next, "peek gave {:?}, next is {:?}", got, next);
                            seen = next.is_some();
                        }
                        _ => {
                            let want = if k == 1 { 1 } else { 0 };
                            if next == Some(want) {
                                check!(got == next, "next_if gave {:?} for {:?}", got, next);
                                taken += 1;
                                seen = false;
                            } else {
                                check!(got.is_none(), "next_if gave {:?} for {:?}", got, next);
                                seen = next.is_some();
                            }
                        }
                    }
                    break;
                }
                Poll::Pending => {
                    check!(!seen, "pending although the item is there");
                    if waited {
                        break;
                    }
                    waited = true;
                    d.wait();
                }
            }
        }
    }
    obs(taken as u64);
}
fn t_fold(b: u32) {
    let mut d = start(b);
    let s = src(1, n(b)).any_hint();
    lazy_until(|| false);
    let f = s.fold(vec![], |mut a, x| {
        a.push(x);
        cfut(a)
    });
    let r = run_future(&mut d, f, ffused).unwrap();
    check!(r == items(0) && ended(0), "fold gave {:?}", r);
}
fn t_for_each(b: u32) {
    let mut d = start(b);
    let s = src(1, n(b)).any_hint();
    lazy_until(|| false);
    let seen = Rc::new(RefCell::new(vec![]));
    let s2 = seen.clone();
    run_future(&mut d, s.for_each(move |x| { s2.borrow_mut().push(x); cfut(()) }), ffused);
    check!(*seen.borrow() == items(0) && seqfin(), "for_each saw {:?}", seen);
}
fn t_all_any(b: u32) {
    let mut d = start(b);
    let s = src_vals(n(b), 2).any_hint();
    if flip() {
        lazy_until(|| items(0).iter().take(done()).any(|x| *x == 0));
        let r = run_future(&mut d, s.all(|x| cfut(x != 0)), ffused).unwrap();
        let it = items(0);
        check!(r == it.iter().all(|x| *x != 0) && (!r || ended(0)) && done() == it.len(), "all gave {r} for {:?}", it);
    } else {
        lazy_until(|| items(0).iter().take(done()).any(|x| *x == 1));
        let r = run_future(&mut d, s.any(|x| cfut(x != 0)), ffused).unwrap();
        let it = items(0);
        check!(r == it.iter().any(|x| *x != 0) && (r || ended(0)) && done() == it.len(), "any gave {r} for {:?}", it);
    }
}
fn t_collect(b: u32) {
    let mut d = start(b);
    let s = src(1, n(b) + 1).any_hint();
    match choose(4) {
        0 => {
            let r: Vec<u32> = run_future(&mut d, s.collect(), ffused).unwrap();
            check!(r == items(0) && ended(0), "collect gave {:?}", r);
        }
        1 => {
            let r = run_future(&mut d, s.count(), ffused).unwrap();
            check!(r == items(0).len() && ended(0), "count gave {r}");
        }
        2 => {
            let r = run_future(&mut d, s.map(|x| vec![x, x]).concat(), ffused).unwrap();
            check!(r == items(0).iter().flat_map(|x| [*x, *x]).collect::<Vec<_>>() && ended(0), "concat gave {:?}", r);
        }
        _ => {
            let r: (Vec<u32>, Vec<u32>) = run_future(&mut d, s.map(|x| (x, x + 1)).unzip(), ffused).unwrap();
            let e: (Vec<u32>, Vec<u32>) = items(0).iter().map(|x| (*x, *x + 1)).unzip();
            check!(r == e && ended(0), "unzip gave {:?}", r);
        }
    }
}
fn t_next(b: u32) {
    let mut d = start(b);
    let (mut s, _) = opts(src(1, n(b)).any_hint());
    for i in 0.. {
        let r = if flip() {
            run_future(&mut d, s.next(), |_| None).unwrap()
        } else {
            let (x, s2) = run_future(&mut d, s.into_future(), ffused).unwrap();
            s = s2;
            x
        };
        match r {
            Some(x) => check!(x == items(0)[i], "wrong item"),
            None => {
                check!(ended(0) && items(0).len() == i, "early end");
                break;
            }
        }
    }
}
fn t_select_next_some(b: u32) {
    let mut d = start(b);
    let k = n(b);
    let s = src(1, k).tolerant();
    let mut s = s.fuse();
    let mut got = vec![];
    loop {
        if s.is_terminated() {
            break;
        }
        let mut f = s.select_next_some();
        let mut r = d.poll(|cx| f.poll_unpin(cx));
        use futures::future::FusedFuture;
        if r.is_pending() {
            if f.is_terminated() {
                check!(ended(0), "terminated early");
                check!(d.woken(), "select_next_some reached the end but its task is not woken");
                break;
            }
            loop {
                d.wait();
                r = d.poll(|cx| f.poll_unpin(cx));
                if r.is_ready() || f.is_terminated() {
                    break;
                }
            }
        }
        match r {
            Poll::Ready(x) => got.push(x),
            Poll::Pending => break,
        }
    }
    check!(got == items(0) && ended(0), "select_next_some gave {:?}", got);
}
fn t_catch_unwind(b: u32) {
    let mut d = start(b);
    allow_panics(1);
    let s = src(1, n(b)).any_hint();
    let mut st = s.catch_unwind();
    let mut got = vec![];
    let mut caught = false;
    let mut hints = vec![];
    loop {
        hints.push((got.len() + caught as usize, st.size_hint().1));
        let term = st.is_terminated();
        let r = d.poll(|cx| st.poll_next_unpin(cx));
        check!(!term || matches!(r, Poll::Ready(None)), "terminated before the end");
        match r {
            Poll::Ready(Some(Ok(x))) => {
                check!(!caught, "item after a panic");
                got.push(x)
            }
            Poll::Ready(Some(Err(e))) => {
                check!(e.is::<LeafPanic>() && !caught, "wrong payload");
                caught = true;
            }
            Poll::Ready(None) => break,
            Poll::Pending => drop(d.wait()),
        }
    }
    check!(got == items(0), "items {:?}", got);
    check!(caught == w(|w| w.panics == 0) && (caught || ended(0)), "panic lost");
    let _ = hints;
    if caught {
        check!(st.is_terminated(), "not terminated after a panic");
        check!(matches!(d.poll(|cx| st.poll_next_unpin(cx)), Poll::Ready(None)), "not ended after a panic");
    }
}
fn t_ctor(b: u32) {
    let mut d = start(b);
    let k = n(b);
    match choose(8) {
        0 => {
            let c = choose(k + 1);
            let s = stream::iter(0..c);
            run_stream(&mut d, s, id, noterm, move || m((0..c).collect(), true), SO);
        }
        1 => {
            let f = cfut(5u32);
            run_stream(&mut d, stream::once(f), id, fused, || m(if done() == 1 { vec![5] } else { vec![] }, done() == 1), SO);
        }
        2 => {
            let s = stream::repeat(4u32).take(k);
            run_stream(&mut d, s, id, noterm, move || m(vec![4; k], true), SO);
            let h = stream::repeat(1u32).size_hint();
            check!(h == (usize::MAX, None), "repeat: {:?}", h);
        }
        3 => {
            let mut c = 0u32;
            let s = stream::repeat_with(move || {
                c += 1;
                c
            })
            .take(k);
            run_stream(&mut d, s, id, fused, move || m((1..=k as u32).collect(), true), SO);
        }
        4 => {
            run_stream(&mut d, stream::empty::<u32>(), id, |_| None, || m(vec![], true), SOpts { again: 2, ..SO });
        }
        5 => {
            let mut p = stream::pending::<u32>();
            check!(d.poll(|cx| p.poll_next_unpin(cx)).is_pending(), "pending stream is ready");
            check!(p.is_terminated(), "pending() is terminated by definition");
        }
        6 => {
            let mut s = src(1, k);
            run_stream(&mut d, stream::poll_fn(move |cx| s.poll_next_unpin(cx)), id, noterm, || m(items(0), ended(0)), SO);
        }
        _ => {
            // unfold: the closure's futures, one at a time
            let c = choose(k + 1) as u32;
            let s = stream::unfold(0u32, move |i| cfut(if i < c { Some((i * 2, i + 1)) } else { None }));
            run_stream(&mut d, s, id, fused, move || m((0..done().min(c as usize) as u32).map(|i| i * 2).collect(), done() == c as usize + 1), SO);
        }
    }
}
fn t_poll_immediate(b: u32) {
    // stream::poll_immediate: never pending; the items in order, Pending in between
    let mut d = start(b);
    let s = src(1, n(b));
    let mut st = stream::poll_immediate(s);
    let mut got = vec![];
    let mut pend = 0;
    let mut hints = vec![];
    loop {
        hints.push(st.size_hint());
        check!(!st.is_terminated(), "terminated before the end");
        match d.poll(|cx| st.poll_next_unpin(cx)) {
            Poll::Ready(Some(Poll::Ready(x))) => got.push(x),
            Poll::Ready(Some(Poll::Pending)) => {
                pend += 1;
                if pend > 6 {
                    skip();
                }
                check!(!waiting().is_empty() || d.woken(), "pending although the source is ready");
                let c = waiting();
                if !c.is_empty() && flip() {
                    fire(c[0]);
                }
            }
            Poll::Ready(None) => break,
            Poll::Pending => fail("poll_immediate is pending".into()),
        }
        check!(got == items(0), "lost items");
    }
    check!(ended(0), "ended early");
    check!(st.is_terminated(), "not terminated after the end");
    check!(st.size_hint() == (0, Some(0)), "size_hint {:?} after the end", st.size_hint());
    let total = got.len() + pend;
    for (k, (lo, hi)) in hints.into_iter().enumerate() {
        let left = total - k;
        check!(lo <= left && hi.map_or(true, |h| h >= left), "size_hint is ({lo}, {hi:?}), but {left} items (pending ones included) follow");
    }
    check!(matches!(d.poll(|cx| st.poll_next_unpin(cx)), Poll::Ready(None)), "not fused");
}

// ---- extreme bounds and parameters -------------------------------------------------------------

/// An endless source (1, 2, 3, ...) with one of the hints that are true of it.
#[derive(Clone)]
struct Endless(u32, usize);
impl Stream for Endless {
    type Item = u32;
    fn poll_next(mut self: Pin<&mut Self>, _: &mut Context<'_>) -> Poll<Option<u32>> {
        step();
        self.0 += 1;
        Poll::Ready(Some(self.0))
    }
    fn size_hint(&self) -> (usize, Option<usize>) {
        [(usize::MAX, None), (usize::MAX, Some(usize::MAX)), (usize::MAX - 1, None), (0, Some(usize::MAX)), (0, None)][self.1]
    }
}
impl FusedStream for Endless {
    fn is_terminated(&self) -> bool {
        false
    }
}
type B = Pin<Box<dyn Stream<Item = u32>>>;
fn boxed(s: impl Stream<Item = u32> + 'static) -> B {
    Box::pin(s)
}
/// Adapters over sources with extreme size hints, and with extreme parameters: no overflow, and the
/// hints stay true; the items are those of the iterator.
fn ex_hint(_b: u32) {
    use futures::future::ready;
    use futures::stream::TryStreamExt;
    let h = choose(5);
    let e = || Endless(0, h);
    let h2 = choose(5);
    let e2 = move || Endless(100, h2);
    let p = [0, 1, 2, usize::MAX - 1, usize::MAX][choose(5)];
    let fin = |x: usize| Some(x);
    let it = || 1u32..;
    // (stream, how many items it yields in all (None: no end), the first few, can be polled)
    let (mut st, total, want, poll): (B, Option<usize>, Vec<u32>, bool) = match choose(41) {
        0 => (boxed(e().map(|x| x + 1)), None, it().map(|x| x + 1).take(5).collect(), true),
        1 => (boxed(e().inspect(|_| ())), None, it().take(5).collect(), true),
        2 => (boxed(e().enumerate().map(|(i, x)| x + i as u32)), None, vec![1, 3, 5, 7, 9], true),
        3 => (boxed(e().filter(|x| ready(x % 2 == 0))), None, vec![2, 4, 6, 8, 10], true),
        4 => (boxed(e().filter_map(|x| ready(if x % 2 == 0 { Some(x) } else { None }))), None, vec![2, 4, 6, 8, 10], true),
        5 => (boxed(e().then(|x| ready(x))), None, it().take(5).collect(), true),
        6 => (boxed(e().skip(p)), None, it().skip(p.min(9)).take(5).collect(), p < 9),
        7 => (boxed(e().skip_while(|x| ready(*x < 3))), None, it().skip(2).take(5).collect(), true),
        8 => (boxed(e().take(p)), fin(p), it().take(p.min(5)).collect(), true),
        9 => (boxed(e().take_while(|x| ready(*x < 4))), fin(3), vec![1, 2, 3], true),
        10 => (boxed(e().take_until(futures::future::pending::<()>())), None, it().take(5).collect(), true),
        11 => (boxed(e().scan(0u32, |a, x| ready(Some((a + x, x))))), None, it().take(5).collect(), true),
        12 => {
            if p == 0 || p > 9 {
                skip()
            }
            (boxed(e().chunks(p).map(|c| c.len() as u32)), None, vec![p as u32; 5], true)
        }
        13 => {
            if p == 0 || p > 9 {
                skip()
            }
            (boxed(e().ready_chunks(p).map(|c| c.len() as u32)), None, vec![p as u32; 5], true)
        }
        14 => (boxed(e().take(2).chain(e2())), None, vec![1, 2, 101, 102, 103], true),
        15 => (boxed(e().chain(e2())), None, it().take(5).collect(), true),
        16 => (boxed(e().zip(e2()).map(|(a, b)| a + b)), None, vec![102, 104, 106, 108, 110], true),
        17 => (boxed(e().zip(e2().take(p)).map(|(a, b)| a + b)), fin(p), vec![102, 104, 106, 108, 110].into_iter().take(p.min(5)).collect(), true),
        18 => (boxed(e().fuse()), None, it().take(5).collect(), true),
        19 => (boxed(e().peekable()), None, it().take(5).collect(), true),
        20 => {
            let mut s = Box::pin(e().peekable());
            let _ = s.as_mut().peek().now_or_never();
            (s as B, None, it().take(5).collect(), true)
        }
        21 => (boxed(e().cycle()), None, it().take(5).collect(), true),
        22 => (boxed(stream::iter(1..=2u32).cycle()), None, vec![1, 2, 1, 2, 1], true),
        23 => (boxed(stream::select(e(), e2())), None, vec![1, 101, 2, 102, 3], true),
        24 => (boxed(stream::select_with_strategy(e(), e2(), |_: &mut ()| stream::PollNext::Left)), None, it().take(5).collect(), true),
        25 => (boxed(stream::select_all(vec![e(), e2()])), None, vec![], true),
        26 => (boxed(stream::iter(vec![e(), e2()]).flatten()), None, it().take(5).collect(), true),
        27 => (boxed(e().flat_map(|x| stream::iter(vec![x, x]))), None, vec![1, 1, 2, 2, 3], true),
        28 => (boxed(e().map(|x| ready(x)).buffered(3)), None, it().take(5).collect(), true),
        29 => (boxed(e().map(|x| ready(x)).buffer_unordered(3)), None, vec![], true),
        30 => (boxed(futures::stream_select!(e(), e2())), None, vec![], true),
        31 => (boxed(e().map(Ok::<u32, ()>).map_ok(|x| x).map_err(|_| ()).map(|x| x.unwrap())), None, it().take(5).collect(), true),
        32 => (boxed(e().map(Ok::<u32, ()>).and_then(|x| ready(Ok(x))).or_else(|_| ready(Ok::<u32, ()>(0))).map(|x| x.unwrap())), None, it().take(5).collect(), true),
        33 => (boxed(e().map(Ok::<u32, ()>).try_filter(|x| ready(x % 2 == 1)).map(|x| x.unwrap())), None, vec![1, 3, 5, 7, 9], true),
        34 => {
            if p == 0 || p > 9 {
                skip()
            }
            (boxed(e().map(Ok::<u32, ()>).try_chunks(p).map(|x| x.unwrap().len() as u32)), None, vec![p as u32; 5], true)
        }
        35 => (boxed(e().map(Ok::<u32, ()>).try_skip_while(|x| ready(Ok(*x < 3))).map(|x| x.unwrap())), None, it().skip(2).take(5).collect(), true),
        36 => (boxed(e().map(Ok::<u32, ()>).try_take_while(|x| ready(Ok(*x < 3))).map(|x| x.unwrap())), fin(2), vec![1, 2], true),
        37 => (boxed(e().map(Ok::<u32, ()>).into_stream().map(|x| x.unwrap())), None, it().take(5).collect(), true),
        38 => (boxed(ready(e()).flatten_stream()), None, it().take(5).collect(), true),
        39 => (boxed(e().catch_unwind().map(|x| x.unwrap())), None, it().take(5).collect(), true),
        _ => (boxed(e().abortable_()), None, it().take(5).collect(), true),
    };
    let mut got: Vec<u32> = vec![];
    let w = futures::task::noop_waker();
    let mut cx = Context::from_waker(&w);
    for k in 0..6 {
        let (lo, hi) = st.size_hint();
        match total {
            Some(t) => {
                let left = t - got.len();
                check!(lo <= left, "size_hint's lower bound is {lo}, but only {left} items are to come (after {k} items)");
                check!(hi.map_or(true, |h| h >= left), "size_hint's upper bound is {hi:?}, but {left} items are to come (after {k} items)");
            }
            // skip(huge) of a source that promises an end
            None if !poll => {}
            None => check!(hi.map_or(true, |h| h > usize::MAX - 16), "size_hint's upper bound is {hi:?} for an endless stream (after {k} items)"),
        }
        check!(hi.map_or(true, |h| lo <= h), "size_hint is ({lo}, {hi:?})");
        if !poll || k == 5 {
            break;
        }
        match st.as_mut().poll_next(&mut cx) {
            Poll::Ready(Some(x)) => got.push(x),
            Poll::Ready(None) => {
                check!(total == Some(got.len()), "ends after {} items", got.len());
                break;
            }
            Poll::Pending => fail("pending, though its source never is".into()),
        }
    }
    if !want.is_empty() && poll {
        check!(got[..] == want[..got.len().min(want.len())] && got.len() >= want.len().min(5), "items {got:?}, not {want:?}");
    }
    obs(got.len() as u64);
}
trait Ab: Stream + Sized {
    fn abortable_(self) -> stream::Abortable<Self> {
        stream::abortable(self).0
    }
}
impl<T: Stream> Ab for T {}

pub const SCN: &[Scn] = &[
    s("ex_hint", "C23 C18 !", 1, 1, ex_hint),
    s("st_map", "C18 C22 C23 C31", 3, 5, t_map),
    s("st_inspect", "C18 C22 C23 C31", 3, 5, t_inspect),
    s("st_enumerate", "C18 C22 C23 C31", 3, 5, t_enumerate),
    s("st_filter", "C18 C22 C23 C31", 3, 4, t_filter),
    s("st_filter_map", "C18 C22 C23 C31", 3, 4, t_filter_map),
    s("st_then", "C18 C22 C23 C31", 3, 4, t_then),
    s("st_skip", "C18 C22 C23 C31", 3, 4, t_skip),
    s("st_skip_while", "C18 C22 C23 C31", 3, 4, t_skip_while),
    s("st_take", "C18 C22 C23 C31", 3, 4, t_take),
    s("st_take_while", "C18 C22 C23 C31", 3, 4, t_take_while),
    s("st_scan", "C18 C22 C23 C31", 3, 4, t_scan),
    s("st_take_until", "C18 C22 C23 C31", 3, 4, t_take_until),
    s("st_abortable", "C12 C18 C31 C22", 3, 4, t_abortable),
    s("st_take_until_ops", "C18 C22 C31 C23", 3, 4, t_take_until_ops),
    s("st_chunks", "C18 C22 C23 C31", 3, 4, t_chunks),
    s("st_ready_chunks", "C18 C22 C23 C31", 3, 4, t_ready_chunks),
    s("st_chain", "C18 C22 C23 C31", 2, 3, t_chain),
    s("st_chain_order", "C18 C31", 3, 4, t_chain_order),
    s("st_zip", "C18 C22 C23 C31", 2, 3, t_zip),
    s("st_flatten", "C18 C22 C23 C31", 3, 4, t_flatten),
    s("st_flat_map", "C18 C22 C23 C31", 3, 4, t_flat_map),
    s("st_cycle", "C18 C22 C23 C31", 3, 4, t_cycle),
    s("st_fuse", "C18 C22 C23 C31", 3, 4, t_fuse),
    s("st_peekable", "C18 C22 C31 C23 C34", 2, 3, t_peekable),
    s("st_fold", "C18 C22 C31", 3, 4, t_fold),
    s("st_for_each", "C18 C22 C31", 3, 4, t_for_each),
    s("st_all_any", "C18 C22 C31", 3, 4, t_all_any),
    s("st_collect", "C18 C22 C31", 3, 4, t_collect),
    s("st_next", "C18 C22 C31", 3, 4, t_next),
    s("st_select_next_some", "C18 C22 C31", 3, 4, t_select_next_some),
    s("st_catch_unwind", "C18 C22 C27 C23", 3, 4, t_catch_unwind),
    s("st_ctor", "C18 C22 C23 C31 C34", 3, 4, t_ctor),
    s("st_poll_immediate", "C18 C22 C23", 3, 4, t_poll_immediate),
];
