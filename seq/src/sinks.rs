//! Sinks: every history of readiness, flushing, closing and errors of the leaf sinks, under every
//! order of the user's operations (C24).
use crate::ch::*;
use crate::leaf::*;
use crate::{s, Scn};
use futures::future::{self, Either, FutureExt, TryFutureExt};
use futures::sink::{self, Sink, SinkExt};
use futures::stream::{FusedStream, Stream, StreamExt, TryStreamExt};
use std::cell::{Cell, RefCell};
use std::collections::VecDeque;
use std::pin::Pin;
use std::rc::Rc;
use std::task::{Context, Poll};

#[derive(Clone)]
pub struct KO {
    items: usize,
    /// how many accepted items the adapter may hold back
    held: usize,
    flushes: u32,
    /// how often the user may turn to another operation while one is pending
    switch: u32,
    /// errors after which the sink remains usable
    soft: Rc<Cell<u32>>,
}
pub fn ko(items: usize, held: usize) -> KO {
    KO { items, held, flushes: 1, switch: 1, soft: Rc::new(Cell::new(0)) }
}
fn nerr() -> u32 {
    SL.with(|s| s.borrow().iter().map(|l| l.errors).sum())
}
#[derive(Clone, Copy, PartialEq, Debug)]
enum Op {
    Send,
    Flush,
    Close,
}
/// Drive a sink; `want` gives, for the items accepted so far, what each leaf sink has to have got
/// in the end.
pub fn run_sink<S: Sink<u32>>(d: &mut Driver, s: S, o: KO, err: impl Fn(S::Error) -> u32, want: impl Fn(&[u32]) -> Vec<Vec<u32>>) {
    let mut s = Box::pin(s);
    let mut acc: Vec<u32> = vec![];
    let mut sw = o.switch;
    let mut fl = o.flushes;
    let mut op = None;
    loop {
        let cur = match op.take() {
            Some(c) => c,
            None => {
                let mut v = vec![];
                if acc.len() < o.items {
                    v.push(Op::Send);
                }
                v.push(Op::Close);
                if fl > 0 {
                    v.push(Op::Flush);
                }
                let c = v[choose(v.len())];
                if c == Op::Flush {
                    fl -= 1;
                }
                c
            }
        };
        let (e0, s0) = (nerr(), o.soft.get());
        note(|| format!("{cur:?}"));
        let r = d.poll(|cx| match cur {
            Op::Send => s.as_mut().poll_ready(cx),
            Op::Flush => s.as_mut().poll_flush(cx),
            Op::Close => s.as_mut().poll_close(cx),
        });
        let mut r = match r {
            Poll::Ready(Ok(())) => Poll::Ready(Ok(())),
            Poll::Ready(Err(e)) => Poll::Ready(Err(err(e))),
            Poll::Pending => Poll::Pending,
        };
        let mut e1 = nerr() + o.soft.get();
        if cur == Op::Send && r == Poll::Ready(Ok(())) && e1 == e0 + s0 {
            let x = 1 + acc.len() as u32;
            let r2 = s.as_mut().start_send(x);
            e1 = nerr() + o.soft.get();
            match r2 {
                Ok(()) => {
                    note(|| format!("accepted {x}"));
                    acc.push(x)
                }
                Err(e) => r = Poll::Ready(Err(err(e))),
            }
        }
        let lerr = e1 - e0 - s0;
        check!(
            (lerr > 0) == matches!(r, Poll::Ready(Err(_))),
            "{cur:?} returned {:?} although {lerr} errors happened below",
            r
        );
        let want = want(&acc);
        for (i, want) in want.iter().enumerate() {
            let l = slog(i);
            check!(
                l.items.len() <= want.len() && l.items[..] == want[..l.items.len()],
                "sink {i} got {:?}, expected (a prefix of) {:?}",
                l.items,
                want
            );
            if lerr == 0 {
                check!(want.len() - l.items.len() <= o.held, "more than {} items are held back: accepted {:?}, sink {i} got {:?}", o.held, acc, l.items);
            }
        }
        match r {
            Poll::Ready(Ok(())) => {
                if cur != Op::Send {
                    for (i, want) in want.iter().enumerate() {
                        let l = slog(i);
                        check!(l.items == *want, "{cur:?} succeeded but sink {i} got only {:?} of {:?}", l.items, want);
                        check!(l.flushed == l.items.len(), "{cur:?} succeeded but sink {i} has not been flushed");
                        if cur == Op::Close {
                            check!(l.closed, "poll_close succeeded but sink {i} has not been closed");
                        }
                    }
                } 
                if cur == Op::Close {
                    obs(d.polls);
                    return;
                }
            }
            Poll::Ready(Err(e)) => {
                note(|| format!("error {e}"));
                if o.soft.get() == s0 || nerr() > e0 {
                    obs(100 + d.polls);
                    return;
                }
            }
            Poll::Pending => {
                op = Some(cur);
                if sw > 0 {
                    let k = choose(3);
                    if k > 0 {
                        sw -= 1;
                        op = Some(match (cur, k) {
                            (Op::Send, 1) => Op::Flush,
                            (Op::Send, _) => Op::Close,
                            (Op::Flush, 1) if acc.len() < o.items => Op::Send,
                            (Op::Flush, _) => Op::Close,
                            // a sink that is being closed can only be closed
                            (Op::Close, _) => skip(),
                        });
                        continue;
                    }
                }
                if !d.wait() {
                    return;
                }
            }
        }
    }
}
fn id1(a: &[u32]) -> Vec<Vec<u32>> {
    vec![a.to_vec()]
}
fn e0(e: SErr) -> u32 {
    e.0
}
fn nitems(b: u32) -> usize {
    if huge() { 300 } else if long() { 20 } else { 1 + (b as usize).min(2) }
}

fn t_ident(b: u32) {
    budget(b, 1);
    let mut d = Driver::new(0);
    let o = ko(nitems(b), 0);
    match choose(6) {
        0 => run_sink(&mut d, snk(1), o, e0, id1),
        1 => run_sink(&mut d, &mut snk(1), o, e0, id1),
        2 => run_sink(&mut d, Box::new(snk(1)), o, e0, id1),
        3 => run_sink(&mut d, Box::pin(snk(1)), o, e0, id1),
        4 => {
            let e: Either<Snk, sink::Drain<u32>> = Either::Left(snk(1));
            let e = match e {
                Either::Left(l) => Either::Left(l),
                Either::Right(_) => Either::Right(snk(0)),
            };
            run_sink(&mut d, e, o, e0, id1)
        }
        _ => {
            let e: Either<Box<Snk>, Snk> = Either::Right(snk(1));
            run_sink(&mut d, e, o, e0, id1)
        }
    }
}
struct E2(u32);
impl From<SErr> for E2 {
    fn from(e: SErr) -> E2 {
        E2(e.0 + 1000)
    }
}
fn t_errs(b: u32) {
    budget(b, 1);
    let mut d = Driver::new(0);
    let o = ko(nitems(b), 0);
    let k = snk(1);
    match choose(2) {
        0 => {
            let n = Rc::new(Cell::new(0));
            let n2 = n.clone();
            run_sink(
                &mut d,
                k.sink_map_err(move |e: SErr| {
                    n2.set(n2.get() + 1);
                    e.0 + 1000
                }),
                o,
                |e| {
                    check!(e > 1000, "the error was not mapped");
                    e
                },
                id1,
            );
            check!(n.get() == nerr(), "the error closure ran {} times for {} errors", n.get(), nerr());
        }
        _ => run_sink(&mut d, k.sink_err_into::<E2>(), o, |e: E2| e.0, id1),
    }
}
fn t_with(b: u32) {
    budget(b, 1);
    let mut d = Driver::new(0);
    let o = ko(nitems(b), 1);
    let dec: Rc<RefCell<Vec<Option<u32>>>> = Default::default();
    let (d2, d3, soft) = (dec.clone(), dec.clone(), o.soft.clone());
    let badn = Rc::new(Cell::new(1));
    let f = move |x: u32| {
        let bad = badn.get() > 0 && flip();
        if bad {
            badn.set(0);
        }
        d2.borrow_mut().push(if bad { None } else { Some(x + 100) });
        let soft = soft.clone();
        fut(()).map(move |()| {
            if bad {
                soft.set(soft.get() + 1);
                Err(SErr(9))
            } else {
                Ok(x + 100)
            }
        })
    };
    run_sink(&mut d, snk(1).with(f), o, e0, move |a| {
        check!(d3.borrow().len() == a.len(), "the closure ran {} times for {} items", d3.borrow().len(), a.len());
        vec![d3.borrow().iter().flatten().cloned().collect()]
    });
}
fn t_with_flat_map(b: u32) {
    budget(b, 1);
    let mut d = Driver::new(0);
    let o = KO { held: 9, ..ko((b as usize).min(2), 9) };
    let dec: Rc<RefCell<Vec<u32>>> = Default::default();
    let (d2, d3, soft) = (dec.clone(), dec.clone(), o.soft.clone());
    let badn = Rc::new(Cell::new(1));
    let bb = b as usize;
    let seen: Rc<RefCell<Vec<u32>>> = Default::default();
    let s2 = seen.clone();
    let f = move |x: u32| {
        s2.borrow_mut().push(x);
        let n = choose(if bb > 2 { 3 } else { 2 });
        let bad = badn.get() > 0 && flip();
        if bad {
            badn.set(0);
        }
        let mut v: Vec<u32> = (0..n as u32).map(|i| x * 10 + i).collect();
        let at = if bad { choose(n + 1) } else { 9999 };
        d2.borrow_mut().extend(v.iter());
        if bad {
            v.insert(at, 0);
        }
        let soft = soft.clone();
        src_of(v.clone(), v).map(move |x| {
            if x == 0 {
                soft.set(soft.get() + 1);
                Err(SErr(9))
            } else {
                Ok(x)
            }
        })
    };
    run_sink(&mut d, snk(1).with_flat_map(f), o, e0, move |a| {
        check!(*seen.borrow() == a, "the closure got {:?}, accepted were {a:?}", seen.borrow());
        vec![d3.borrow().clone()]
    });
}
fn t_buffer(b: u32) {
    budget(b, 1);
    let mut d = Driver::new(0);
    let cap = param(2);
    let o = KO { flushes: 1, ..ko(nitems(b), cap) };
    let k = snk(1);
    let rid = k.rid;
    run_sink(&mut d, BufReady { s: k.buffer(cap), cap, acc: 0, rid }, o, e0, id1);
}
/// Checks that a buffer with room is ready at once.
struct BufReady<S> {
    s: S,
    cap: usize,
    acc: usize,
    rid: usize,
}
impl<S: Sink<u32> + Unpin> Sink<u32> for BufReady<S> {
    type Error = S::Error;
    fn poll_ready(mut self: Pin<&mut Self>, cx: &mut Context<'_>) -> Poll<Result<(), S::Error>> {
        let room = self.acc - slog(0).items.len() < self.cap;
        let r = self.s.poll_ready_unpin(cx);
        if self.cap > 0 {
            let room2 = self.acc - slog(0).items.len() < self.cap;
            check!(!r.is_pending() || !(room || room2), "poll_ready is pending although the buffer has room");
        }
        // items stay in the buffer only while the sink does not take them
        check!(self.acc == slog(0).items.len() || !matches!(r, Poll::Ready(Ok(()))) || asked(self.rid), "an item stays in the buffer although the sink has not refused it");
        r
    }
    fn start_send(mut self: Pin<&mut Self>, x: u32) -> Result<(), S::Error> {
        let r = self.s.start_send_unpin(x);
        if r.is_ok() {
            self.acc += 1;
        }
        r
    }
    fn poll_flush(mut self: Pin<&mut Self>, cx: &mut Context<'_>) -> Poll<Result<(), S::Error>> {
        self.s.poll_flush_unpin(cx)
    }
    fn poll_close(mut self: Pin<&mut Self>, cx: &mut Context<'_>) -> Poll<Result<(), S::Error>> {
        self.s.poll_close_unpin(cx)
    }
}
fn t_fanout(b: u32) {
    budget(b, 1);
    let mut d = Driver::new(0);
    let o = ko(nitems(b).min(2), 0);
    let (mut a, mut c) = match choose(3) {
        0 => (snk(0), snk(0)),
        1 => (snk(1), snk(0)),
        _ => (snk(0), snk(1)),
    };
    a.reclose = true;
    c.reclose = true;
    // the two sinks are driven independently of each other
    on_pending(|| check!(slog(0).last == slog(1).last, "only one of the two sinks was driven"));
    run_sink(&mut d, a.fanout(c), o, e0, |x| if nerr() > 0 { vec![] } else { vec![x.to_vec(), x.to_vec()] });
}
fn t_compose(b: u32) {
    budget(b, 1);
    let mut d = Driver::new(0);
    let n = nitems(b).min(2);
    let m = |x: u32| fut(Ok::<u32, SErr>(x + 100));
    let m100 = |a: &[u32]| vec![a.iter().map(|x| x + 100).collect::<Vec<_>>()];
    match choose(3) {
        0 => run_sink(&mut d, snk(1).with(m).buffer(1), ko(n, 2), e0, m100),
        1 => run_sink(&mut d, snk(1).buffer(1).with(m), ko(n, 2), e0, m100),
        _ => run_sink(&mut d, snk(1).buffer(1).buffer(1), ko(n, 2), e0, id1),
    }
}
fn t_unfold(b: u32) {
    budget(b, 1);
    let mut d = Driver::new(0);
    let o = ko(nitems(b), 9);
    let runs: Rc<RefCell<Vec<(u32, u32)>>> = Default::default();
    let r2 = runs.clone();
    let done = Rc::new(Cell::new(0u32));
    let dn = done.clone();
    let badn = Rc::new(Cell::new(1));
    let dead = Rc::new(Cell::new(false));
    let dd = dead.clone();
    SL.with(|s| s.borrow_mut().push(SinkLog::default()));
    let s = sink::unfold(tok(0), move |t: Tok, x: u32| {
        check!(!dd.get(), "the closure ran after its future had failed");
        r2.borrow_mut().push((t.0, x));
        let bad = badn.get() > 0 && flip();
        if bad {
            badn.set(0);
        }
        let (dn, dd) = (dn.clone(), dd.clone());
        fut(t).map(move |t| {
            if bad {
                dd.set(true);
                SL.with(|s| s.borrow_mut()[0].errors += 1);
                Err(SErr(7))
            } else {
                dn.set(dn.get() + 1);
                Ok(tok(t.0 + x))
            }
        })
    });
    let s = Unf { s: Box::pin(s), done, acc: 0 };
    run_sink(&mut d, s, o, e0, |_| vec![]);
    let mut sum = 0;
    for (i, (st, x)) in runs.borrow().iter().enumerate() {
        check!(*st == sum && *x == i as u32 + 1, "run {i} of the closure got state {st} and item {x}, expected {sum}");
        sum += x;
    }
}
struct Unf<S> {
    s: Pin<Box<S>>,
    done: Rc<Cell<u32>>,
    acc: u32,
}
impl<S: Sink<u32, Error = SErr>> Unf<S> {
    /// Flushing or closing after the error touches nothing that has completed.
    fn failed(&mut self, cx: &mut Context<'_>, r: &Poll<Result<(), SErr>>) {
        if let Poll::Ready(Err(_)) = r {
            let _ = if flip() { self.s.as_mut().poll_flush(cx) } else { self.s.as_mut().poll_close(cx) };
        }
    }
}
impl<S: Sink<u32, Error = SErr>> Sink<u32> for Unf<S> {
    type Error = SErr;
    fn poll_ready(mut self: Pin<&mut Self>, cx: &mut Context<'_>) -> Poll<Result<(), SErr>> {
        let r = self.s.as_mut().poll_ready(cx);
        if let Poll::Ready(Ok(())) = r {
            check!(self.done.get() == self.acc, "ready although the previous item is still being processed");
        }
        self.failed(cx, &r);
        r
    }
    fn start_send(mut self: Pin<&mut Self>, x: u32) -> Result<(), SErr> {
        self.acc += 1;
        self.s.as_mut().start_send(x)
    }
    fn poll_flush(mut self: Pin<&mut Self>, cx: &mut Context<'_>) -> Poll<Result<(), SErr>> {
        let r = self.s.as_mut().poll_flush(cx);
        if let Poll::Ready(Ok(())) = r {
            check!(self.done.get() == self.acc, "flushed although an item is still being processed");
        }
        self.failed(cx, &r);
        r
    }
    fn poll_close(mut self: Pin<&mut Self>, cx: &mut Context<'_>) -> Poll<Result<(), SErr>> {
        let r = self.s.as_mut().poll_close(cx);
        if let Poll::Ready(Ok(())) = r {
            check!(self.done.get() == self.acc, "closed although an item is still being processed");
        }
        self.failed(cx, &r);
        r
    }
}
fn t_flatten_sink(b: u32) {
    budget(b, 1);
    let mut d = Driver::new(0);
    let bad = flip();
    let k = snk(if bad { 0 } else { 1 });
    let f = fut(());
    let fid = w(|w| w.leaves.len() - 1);
    let e = Rc::new(Cell::new(0));
    let e2 = e.clone();
    let f = f.map(move |()| {
        if bad {
            SL.with(|s| s.borrow_mut()[0].errors += 1);
            e2.set(1);
            Err(SErr(5))
        } else {
            Ok(k)
        }
    });
    let o = ko(nitems(b).min(2), 0);
    // flush and close before the future has resolved have nothing to do
    let s = FlatS { s: Box::pin(f.flatten_sink()), fid };
    run_sink(&mut d, s, o, e0, move |a| if isfin(fid) { id1(a) } else { vec![] });
}
/// flatten_stream of a future that gives a stream that is a sink as well.
fn t_flatten_duplex(b: u32) {
    budget(b, 1);
    let mut d = Driver::new(0);
    let k = Duplex(snk(1));
    let f = fut(());
    let fid = w(|w| w.leaves.len() - 1);
    let o = ko(nitems(b).min(2), 0);
    let s = FlatS { s: Box::pin(f.map(move |()| k).flatten_stream()), fid };
    run_sink(&mut d, s, o, e0, move |a| if isfin(fid) { id1(a) } else { vec![] });
}
struct Duplex(Snk);
impl futures::Stream for Duplex {
    type Item = u32;
    fn poll_next(self: Pin<&mut Self>, _: &mut Context<'_>) -> Poll<Option<u32>> {
        fail("the stream half was polled".into());
        Poll::Ready(None)
    }
}
impl Sink<u32> for Duplex {
    type Error = SErr;
    fn poll_ready(mut self: Pin<&mut Self>, cx: &mut Context<'_>) -> Poll<Result<(), SErr>> {
        Pin::new(&mut self.0).poll_ready(cx)
    }
    fn start_send(mut self: Pin<&mut Self>, x: u32) -> Result<(), SErr> {
        Pin::new(&mut self.0).start_send(x)
    }
    fn poll_flush(mut self: Pin<&mut Self>, cx: &mut Context<'_>) -> Poll<Result<(), SErr>> {
        Pin::new(&mut self.0).poll_flush(cx)
    }
    fn poll_close(mut self: Pin<&mut Self>, cx: &mut Context<'_>) -> Poll<Result<(), SErr>> {
        Pin::new(&mut self.0).poll_close(cx)
    }
}
struct FlatS<S> {
    s: Pin<Box<S>>,
    fid: usize,
}
impl<S: Sink<u32, Error = SErr>> Sink<u32> for FlatS<S> {
    type Error = SErr;
    fn poll_ready(mut self: Pin<&mut Self>, cx: &mut Context<'_>) -> Poll<Result<(), SErr>> {
        self.s.as_mut().poll_ready(cx)
    }
    fn start_send(mut self: Pin<&mut Self>, x: u32) -> Result<(), SErr> {
        self.s.as_mut().start_send(x)
    }
    fn poll_flush(mut self: Pin<&mut Self>, cx: &mut Context<'_>) -> Poll<Result<(), SErr>> {
        if !isfin(self.fid) {
            let r = self.s.as_mut().poll_flush(cx);
            check!(r == Poll::Ready(Ok(())), "nothing to flush yet, but poll_flush returned {:?}", r);
            return r;
        }
        self.s.as_mut().poll_flush(cx)
    }
    fn poll_close(mut self: Pin<&mut Self>, cx: &mut Context<'_>) -> Poll<Result<(), SErr>> {
        self.s.as_mut().poll_close(cx)
    }
}
fn t_collections(_: u32) {
    let mut d = Driver::fixed(0);
    let n = choose(4) as u32;
    macro_rules! go {
        ($s:expr) => {{
            let mut s = $s;
            for x in 0..n {
                check!(d.poll(|cx| SinkExt::<u32>::poll_ready_unpin(&mut s, cx)).is_ready(), "not ready");
                check!(SinkExt::<u32>::start_send_unpin(&mut s, x).is_ok(), "start_send failed");
                check!(d.poll(|cx| SinkExt::<u32>::poll_flush_unpin(&mut s, cx)).is_ready(), "flush pending");
            }
            check!(d.poll(|cx| SinkExt::<u32>::poll_close_unpin(&mut s, cx)).is_ready(), "close pending");
            s
        }};
    }
    let want: Vec<u32> = (0..n).collect();
    let v = go!(Vec::<u32>::new());
    check!(v == want, "Vec as a sink holds {:?}", v);
    let v = go!(VecDeque::<u32>::new());
    check!(v.iter().copied().collect::<Vec<_>>() == want, "VecDeque as a sink holds {:?}", v);
    go!(sink::drain::<u32>());
}

/// A leaf that is both a stream and a sink.
pub struct Dup<T> {
    pub s: Src<T>,
    pub k: Snk,
}
impl<T> Stream for Dup<T> {
    type Item = T;
    fn poll_next(mut self: Pin<&mut Self>, cx: &mut Context<'_>) -> Poll<Option<T>> {
        Pin::new(&mut self.s).poll_next(cx)
    }
    fn size_hint(&self) -> (usize, Option<usize>) {
        self.s.size_hint()
    }
}
impl<T> FusedStream for Dup<T> {
    fn is_terminated(&self) -> bool {
        self.s.is_terminated()
    }
}
impl<T> Sink<u32> for Dup<T> {
    type Error = SErr;
    fn poll_ready(mut self: Pin<&mut Self>, cx: &mut Context<'_>) -> Poll<Result<(), SErr>> {
        Pin::new(&mut self.k).poll_ready(cx)
    }
    fn start_send(mut self: Pin<&mut Self>, x: u32) -> Result<(), SErr> {
        Pin::new(&mut self.k).start_send(x)
    }
    fn poll_flush(mut self: Pin<&mut Self>, cx: &mut Context<'_>) -> Poll<Result<(), SErr>> {
        Pin::new(&mut self.k).poll_flush(cx)
    }
    fn poll_close(mut self: Pin<&mut Self>, cx: &mut Context<'_>) -> Poll<Result<(), SErr>> {
        Pin::new(&mut self.k).poll_close(cx)
    }
}
fn dup() -> Dup<u32> {
    Dup { s: src_of(vec![7, 8], vec![7, 8]), k: snk(1) }
}
fn dupr() -> Dup<Result<u32, SErr>> {
    Dup { s: src_of(vec![Ok(7), Ok(8)], vec![7, 8]), k: snk(1) }
}
/// Stream adapters pass the sink of what they wrap through.
fn t_through(b: u32) {
    budget(b.min(2), 0);
    let mut d = Driver::fixed(0);
    let o = KO { switch: 0, ..ko(2, 0) };
    macro_rules! go {
        ($($e:expr),* $(,)?) => {{
            const N: usize = [$(stringify!($e)),*].len();
            let k = choose(N);
            let mut i = 0;
            $(
                if i == k {
                    return run_sink(&mut d, $e, o, e0, id1);
                }
                i += 1;
            )*
            let _ = i;
        }};
    }
    go!(
        dup().map(|x| x),
        dup().inspect(|_| ()),
        dup().enumerate(),
        dup().filter(|_| future::ready(true)),
        dup().filter_map(|x| future::ready(Some(x))),
        dup().then(|x| future::ready(x)),
        dup().skip(1),
        dup().skip_while(|_| future::ready(true)),
        dup().take(1),
        dup().take_while(|_| future::ready(true)),
        dup().take_until(future::ready(())),
        dup().scan(0u32, |s, x| future::ready(Some((s, x)))),
        dup().chunks(2),
        dup().ready_chunks(2),
        dup().fuse(),
        dup().peekable(),
        dup().map(|x| future::ready(x)).buffered(1),
        dup().map(|x| future::ready(x)).buffer_unordered(1),
        dupr().map_ok(|x| x),
        dupr().inspect_ok(|_| ()),
        dupr().and_then(|x| future::ready(Ok(x))),
        dupr().or_else(|e| future::ready(Err::<u32, SErr>(e))),
        dupr().into_stream(),
        dupr().try_filter(|_| future::ready(true)),
        dupr().try_filter_map(|x| future::ready(Ok(Some(x)))),
        dupr().try_skip_while(|_| future::ready(Ok(true))),
        dupr().try_take_while(|_| future::ready(Ok(true))),
        dupr().try_chunks(2),
        dupr().map_ok(|x| future::ready(Ok::<u32, SErr>(x))).try_buffered(1),
        dupr().map_ok(|x| future::ready(Ok::<u32, SErr>(x))).try_buffer_unordered(1),
        dup().map(|x| futures::stream::iter([x])).flatten(),
        dup().flat_map(|x| futures::stream::iter([x])),
        dup().map(|x| futures::stream::iter([x])).flatten_unordered(1),
        dup().flat_map_unordered(1, |x| futures::stream::iter([x])),
        dupr().map_ok(|x| futures::stream::iter([Ok::<u32, SErr>(x)])).try_flatten(),
        dupr().map_ok(|x| futures::stream::iter([Ok::<u32, SErr>(x)])).try_flatten_unordered(1),
        dupr().try_ready_chunks(2),
        dupr().map_err(|e| e),
        dupr().inspect_err(|_| ()),
        TryStreamExt::err_into::<E2>(dupr()),
        dup().left_stream::<Dup<u32>>(),
        dup().right_stream::<Dup<u32>>(),
        SinkExt::<u32>::left_sink::<Dup<u32>>(dup()),
        SinkExt::<u32>::right_sink::<Dup<u32>>(dup()),
    );
}
/// ... and sink adapters the stream.
fn t_through_stream(b: u32) {
    budget(b, 1);
    let mut d = Driver::new(0);
    let mk = || Dup { s: src(10, 2).any_hint(), k: snk(0) };
    let m = || Model { out: items(0), fin: ended(0) };
    let _ = match choose(6) {
        0 => run_stream(&mut d, mk().with(|x: u32| future::ready(Ok::<u32, SErr>(x))), |x| x, fused, m, SO),
        1 => run_stream(&mut d, mk().with_flat_map(|x: u32| futures::stream::iter([Ok::<u32, SErr>(x)])), |x| x, fused, m, SO),
        2 => run_stream(&mut d, SinkExt::<u32>::buffer(mk(), 1), |x| x, fused, m, SO),
        3 => run_stream(&mut d, SinkExt::<u32>::sink_map_err(mk(), |e: SErr| e), |x| x, fused, m, SO),
        4 => run_stream(&mut d, SinkExt::<u32>::sink_err_into::<E2>(mk()), |x| x, fused, m, SO),
        _ => {
            let (k, st) = StreamExt::split::<u32>(Dup { s: src(10, 2), k: snk(0) });
            let keep = Rc::new(RefCell::new(Some(k)));
            if flip() {
                keep.borrow_mut().take();
            }
            let r = run_stream(&mut d, st, |x| x, noterm, m, SO);
            drop(keep);
            r
        }
    };
}
fn t_split(b: u32) {
    budget(b, 1);
    let mut d = Driver::new(0);
    let o = ko(nitems(b).min(2), 1);
    let (k, st) = StreamExt::split::<u32>(Dup { s: src_of(vec![7], vec![7]), k: snk(1) });
    check!(k.is_pair_of(&st) && st.is_pair_of(&k), "is_pair_of is false for a pair");
    match choose(3) {
        0 => {
            drop(st);
            run_sink(&mut d, k, o, e0, id1);
        }
        1 => {
            run_sink(&mut d, k, o, e0, id1);
            drop(st);
        }
        _ => {
            // a half of another object does not fit
            let (k2, st2) = StreamExt::split::<u32>(Dup { s: src_of(vec![9], vec![9]), k: snk(0) });
            check!(!k.is_pair_of(&st2) && !st2.is_pair_of(&k), "is_pair_of is true for strangers");
            let (k, st2) = match if flip() { k.reunite(st2) } else { st2.reunite(k) } {
                Ok(_) => fail("reunited two halves of different objects".into()),
                Err(e) => (e.0, e.1),
            };
            check!(k.is_pair_of(&st) && k2.is_pair_of(&st2), "reunite's error mixed up the halves");
            let whole = match if flip() { k.reunite(st) } else { st.reunite(k) } {
                Ok(x) => x,
                Err(_) => fail("a pair cannot be reunited".into()),
            };
            check!(whole.k.n == 0, "reunite returned another object");
            run_sink(&mut d, whole, ko(1, 0), e0, |a| vec![a.to_vec(), vec![]][..1].to_vec());
            drop((k2, st2));
        }
    }
}

/// The futures of SinkExt, in any order.
fn t_futs(b: u32) {
    budget(b, 1);
    let mut d = Driver::new(0);
    let mut k = snk(1);
    let (_, fid, cid) = k.ids();
    strict();
    exempt(move |i| i == fid && !polled_now(fid));
    let mut want: Vec<u32> = vec![];
    let mut next = 1u32;
    for step in 0..3 {
        let (f0, c0, e0) = (polls(fid), polls(cid), nerr());
        let op = choose(5);
        let fl0 = slog(0).flushed;
        note(|| format!("step {step}: {}", ["send", "feed", "flush", "close", "send_all"][op]));
        let mut srcerr = false;
        let r = match op {
            0 => {
                want.push(next);
                next += 1;
                run_future(&mut d, k.send(next - 1), fnoterm)
            }
            1 => {
                want.push(next);
                next += 1;
                let r = run_future(&mut d, k.feed(next - 1), fnoterm);
                check!(polls(fid) == f0, "feed flushed the sink");
                r
            }
            2 => run_future(&mut d, SinkExt::<u32>::flush(&mut k), fnoterm),
            3 => run_future(&mut d, SinkExt::<u32>::close(&mut k), fnoterm),
            _ => {
                let n = choose(3) as u32;
                let bad = if flip() { Some(choose(n as usize + 1) as u32) } else { None };
                let v: Vec<u32> = (0..n).map(|i| next + i).collect();
                want.extend(v.iter().take(bad.unwrap_or(99) as usize));
                next += n;
                let mut v2 = v.clone();
                if let Some(x) = bad {
                    v2.insert(x as usize, 9999);
                }
                let srcs = w(|w| w.srcs.len());
                let st = src_of(v2.clone(), v2).map(|x| if x == 9999 { Err(SErr(99)) } else { Ok(x) });
                let sid = w(|w| w.leaves.len() - 1);
                srcerr = bad.is_some();
                let base = slog(0).items.len();
                on_pending(move || {
                    let took = w(|w| w.srcs[srcs].items.len());
                    let l = slog(0);
                    let held = took as isize - (l.items.len() - base) as isize;
                    check!(held <= 1, "{held} items are held back");
                    if held == 0 && polled_now(sid) {
                        check!(l.flushed == l.items.len() || polled_now(fid), "waits for the stream without flushing what was sent");
                    }
                });
                let mut st = st;
                let r = run_future(&mut d, k.send_all(&mut st), fnoterm);
                on_pending(|| ());
                r
            }
        };
        let r = match r {
            Some(r) => r,
            None => return,
        };
        if op != 3 {
            check!(polls(cid) == c0, "the sink was closed by an operation that is not close");
        }
        let l = slog(0);
        match r {
            Err(SErr(99)) => {
                check!(srcerr && l.errors == e0, "an error of the stream from nowhere");
                check!(l.items == want, "before the stream's error the sink got {:?}, expected {:?}", l.items, want);
                // what follows the error in the stream is not taken
            }
            Err(e) => {
                check!(nerr() > e0, "error {:?} from nowhere", e);
                check!(l.items.len() <= want.len() && l.items[..] == want[..l.items.len()], "the sink got {:?} of {:?}", l.items, want);
                return;
            }
            Ok(()) => {
                check!(nerr() == e0, "the sink's error was swallowed");
                check!(!srcerr, "the stream's error was swallowed");
                check!(l.items == want, "the sink got {:?}, expected {:?}", l.items, want);
                check!(op == 1 || l.flushed == l.items.len(), "not flushed ({} before)", fl0);
                if op == 3 {
                    check!(l.closed, "not closed");
                    return;
                }
            }
        }
        obs(op as u64);
    }
}
fn t_forward(b: u32) {
    budget(b, 1);
    let mut d = Driver::new(0);
    strict();
    let k = snk(1);
    let (rid, fid, cid) = k.ids();
    // a flush begun while waiting for the stream is no longer waited for once there is an item
    exempt(move |i| i == fid && !polled_now(fid));
    let n = count(if b > 2 { 4 } else { 3 } - 1);
    let v: Vec<u32> = (1..=n as u32).collect();
    let bad = flip();
    let at = if bad { choose(n + 1) } else { 9999 };
    let mut v2 = v.clone();
    if bad {
        v2.insert(at, 9999);
    }
    let src = src_of(v2.clone(), v2);
    let sid = w(|w| w.leaves.len() - 1);
    on_pending(move || {
        let took = w(|w| w.srcs[0].items.iter().filter(|x| **x != 9999).count());
        let l = slog(0);
        check!(took - l.items.len() <= 1, "{} items are held back", took - l.items.len());
        if took > l.items.len() {
            check!(asked(rid), "an item is held back but the sink was not asked");
        } else if polled_now(sid) && !ended(0) {
            check!(l.flushed == l.items.len() || polled_now(fid), "waits for the stream without flushing what was sent");
        }
    });
    let _ = cid;
    let r = if flip() {
        let st = src.map(|x| if x == 9999 { Err(SErr(99)) } else { Ok(x) });
        run_future(&mut d, st.try_forward(k), |f| if bad || nerr() > 0 { None } else { ffused(f) })
    } else {
        if bad {
            skip()
        }
        run_future(&mut d, src.forward(k), |f| if nerr() > 0 { None } else { ffused(f) })
    };
    let r = match r {
        Some(r) => r,
        None => return,
    };
    let l = slog(0);
    let exp: Vec<u32> = v.iter().take(at).cloned().collect();
    match r {
        Err(SErr(99)) => {
            check!(bad && l.errors == 0, "an error of the stream from nowhere");
            check!(l.items == exp, "before the stream's error the sink got {:?}, expected {:?}", l.items, exp);
        }
        Err(_) => {
            check!(l.errors > 0, "error from nowhere");
            check!(l.items[..] == exp[..l.items.len().min(exp.len())], "the sink got {:?} of {:?}", l.items, exp);
        }
        Ok(()) => {
            check!(l.errors == 0 && !bad, "an error was swallowed");
            check!(l.items == exp && l.flushed == l.items.len() && l.closed, "forward succeeded but the sink is {:?}", l);
        }
    }
    obs(d.polls);
}

pub const SCN: &[Scn] = &[
    s("sk_ident", "C24 C31 C34", 2, 3, t_ident),
    s("sk_errs", "C24 C31", 2, 3, t_errs),
    s("sk_with", "C24 C31", 2, 3, t_with),
    s("sk_with_flat_map", "C24 C31", 2, 3, t_with_flat_map),
    s("sk_buffer", "C24 C31", 2, 3, t_buffer),
    s("sk_fanout", "C24 C31", 2, 3, t_fanout),
    s("sk_compose", "C24 C31", 2, 3, t_compose),
    s("sk_unfold", "C24 C31", 2, 3, t_unfold),
    s("sk_flatten_sink", "C24 C31", 2, 3, t_flatten_sink),
    s("sk_flatten_duplex", "C24 C31", 2, 3, t_flatten_duplex),
    s("sk_collections", "C24 C34 !", 1, 1, t_collections),
    s("sk_through", "C24 C31", 2, 3, t_through),
    s("sk_through_stream", "C24 C18 C22 C23 C31", 2, 3, t_through_stream),
    s("sk_split", "C24 C08 C31", 2, 3, t_split),
    s("sk_futs", "C24 C31", 2, 3, t_futs),
    s("sk_forward", "C24 C22 C31", 2, 3, t_forward),
];
