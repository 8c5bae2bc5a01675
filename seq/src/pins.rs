//! Pinning (C33): a future or stream that must not move is polled at one address only, and
//! dropped there, whatever adapter owns it; adapters that are `Unpin` are themselves moved between
//! polls.
use crate::ch::*;
use crate::leaf::*;
use crate::task::pfut;
use crate::{s, Scn};
use futures::future::{self, Either, FusedFuture, FutureExt, TryFutureExt};
use futures::sink::{Sink, SinkExt};
use futures::stream::{self, FusedStream, FuturesOrdered, FuturesUnordered, Stream, StreamExt, TryStreamExt};
use std::future::Future;
use std::marker::PhantomPinned;
use std::pin::Pin;
use std::task::{Context, Poll};

/// A leaf that must not move once polled.
pub struct P<X> {
    x: X,
    at: usize,
    _p: PhantomPinned,
}
pub fn p<X>(x: X) -> P<X> {
    P { x, at: 0, _p: PhantomPinned }
}
impl<X> P<X> {
    fn here(self: Pin<&mut Self>) -> &mut X {
        let t = unsafe { self.get_unchecked_mut() };
        let a = t as *const _ as usize;
        check!(t.at == 0 || t.at == a, "something pinned was moved between polls");
        t.at = a;
        &mut t.x
    }
}
impl<X> Drop for P<X> {
    fn drop(&mut self) {
        if self.at != 0 && self.at != self as *const _ as usize {
            fail_soft("something pinned was moved before it was dropped".into());
        }
    }
}
impl<X: Stream + Unpin> Stream for P<X> {
    type Item = X::Item;
    fn poll_next(self: Pin<&mut Self>, cx: &mut Context<'_>) -> Poll<Option<X::Item>> {
        Pin::new(self.here()).poll_next(cx)
    }
    fn size_hint(&self) -> (usize, Option<usize>) {
        self.x.size_hint()
    }
}
impl<X: FusedStream + Unpin> FusedStream for P<X> {
    fn is_terminated(&self) -> bool {
        self.x.is_terminated()
    }
}
impl<X: Sink<u32> + Unpin> Sink<u32> for P<X> {
    type Error = X::Error;
    fn poll_ready(self: Pin<&mut Self>, cx: &mut Context<'_>) -> Poll<Result<(), X::Error>> {
        Pin::new(self.here()).poll_ready(cx)
    }
    fn start_send(self: Pin<&mut Self>, i: u32) -> Result<(), X::Error> {
        Pin::new(self.here()).start_send(i)
    }
    fn poll_flush(self: Pin<&mut Self>, cx: &mut Context<'_>) -> Poll<Result<(), X::Error>> {
        Pin::new(self.here()).poll_flush(cx)
    }
    fn poll_close(self: Pin<&mut Self>, cx: &mut Context<'_>) -> Poll<Result<(), X::Error>> {
        Pin::new(self.here()).poll_close(cx)
    }
}

type R<T> = Result<T, u32>;
fn ps(n: u32) -> P<Src<u32>> {
    let v: Vec<u32> = (0..n).collect();
    p(src_of(v.clone(), v))
}
/// Ok items, or an error in the last place
fn prs(n: u32) -> P<Src<R<u32>>> {
    let e = flip();
    let v: Vec<R<u32>> = (0..n).map(|i| if e && i + 1 == n { Err(i) } else { Ok(i) }).collect();
    p(src_of(v, (0..n).collect()))
}
fn prf() -> crate::task::PFut<R<u32>> {
    pfut(if flip() { Ok(1) } else { Err(2) })
}
fn drv() -> Driver {
    let mut d = Driver::new(1);
    d.cancel = true;
    d
}
fn gf<F: Future>(f: F) -> bool {
    let mut f = Box::pin(f);
    let mut d = drv();
    if flip() {
        return false;
    }
    let r = drive(&mut d, f.as_mut()).is_some();
    obs(d.polls);
    r
}
/// The future is moved before every poll.
fn gfu<F: Future + Unpin>(f: F) -> bool {
    let mut f = Box::new(f);
    let mut d = drv();
    loop {
        // (the old place stays allocated until the new one exists: the address does change)
        let mut g: Box<Option<F>> = Box::new(None);
        *g = Some(*f);
        f = Box::new(g.take().unwrap());
        drop(g);
        match d.poll(|cx| Pin::new(&mut *f).poll(cx)) {
            Poll::Ready(_) => return true,
            Poll::Pending => {
                if !d.wait() {
                    return false;
                }
            }
        }
    }
}
fn gs<S: Stream>(s: S) {
    let mut s = Box::pin(s);
    let mut d = drv();
    loop {
        match d.poll(|cx| s.as_mut().poll_next(cx)) {
            Poll::Ready(None) => break,
            Poll::Ready(_) => {}
            Poll::Pending => {
                if !d.wait() {
                    break;
                }
            }
        }
    }
    obs(d.polls);
}
fn gsu<S: Stream + Unpin>(s: S) {
    let mut s = Box::new(s);
    let mut d = drv();
    loop {
        let mut g: Box<Option<S>> = Box::new(None);
        *g = Some(*s);
        s = Box::new(g.take().unwrap());
        drop(g);
        match d.poll(|cx| Pin::new(&mut *s).poll_next(cx)) {
            Poll::Ready(None) => break,
            Poll::Ready(_) => {}
            Poll::Pending => {
                if !d.wait() {
                    break;
                }
            }
        }
    }
    obs(d.polls);
}
fn gk<K: Sink<u32>>(k: K) {
    let mut k = Box::pin(k);
    let mut d = drv();
    for i in 0..3 {
        loop {
            let r = d.poll(|cx| if i < 2 { k.as_mut().poll_ready(cx) } else { k.as_mut().poll_close(cx) });
            match r {
                Poll::Ready(Ok(())) => {
                    if i < 2 && k.as_mut().start_send(i).is_err() {
                        return;
                    }
                    break;
                }
                Poll::Ready(Err(_)) => return,
                Poll::Pending => {
                    if !d.wait() {
                        return;
                    }
                }
            }
        }
    }
    obs(d.polls);
}
macro_rules! table {
    ($($e:expr;)*) => {{
        let t: &[fn()] = &[$(|| { let _ = $e; }),*];
        t[choose(t.len())]()
    }};
}
fn t_futures(b: u32) {
    budget(1 + b, 1);
    table! {
        gf(pfut(1).map(|x| x));
        gf(pfut(1).then(|x| pfut(x)));
        gf(pfut(1).inspect(|_| ()));
        gf(pfut(1).map(|_| pfut(2)).flatten());
        gs(pfut(1).into_stream());
        gf(pfut(1).fuse());
        gf(pfut(1).unit_error());
        gf(pfut(1).never_error());
        gf(std::panic::AssertUnwindSafe(pfut(1)).catch_unwind());
        gf(if flip() { Either::Left(pfut(1)) } else { Either::Right(pfut(2)) });
        gf(future::join(pfut(1), pfut(2)));
        gf(future::try_join(prf(), prf()));
        gf(future::select(Box::pin(pfut(1)), Box::pin(pfut(2))).map(|e| match e { Either::Left((_, o)) => o, Either::Right((_, o)) => o }).then(|o| o));
        gf(future::try_select(Box::pin(prf()), Box::pin(prf())).map(|_| ()));
        gf(future::maybe_done(pfut(1)));
        gf(future::try_maybe_done(prf()));
        gf(future::OptionFuture::from(Some(pfut(1))));
        gf(future::poll_immediate(pfut(1)));
        gf(future::abortable(pfut(1)).0);
        gf(prf().and_then(|_| prf()));
        gf(prf().or_else(|_| prf()));
        gf(prf().map_ok(|x| x));
        gf(prf().map_err(|x| x));
        gf(prf().map_ok_or_else(|x| x, |x| x));
        gf(prf().unwrap_or_else(|x| x));
        gf(prf().inspect_ok(|_| ()));
        gf(prf().inspect_err(|_| ()));
        gf(prf().ok_into::<u64>());
        gf(prf().err_into::<u64>());
        gf(prf().into_future());
        gf(prf().map_ok(|_| prf()).try_flatten());
        gf(async { futures::join!(pfut(1), pfut(2), pfut(3)) });
        gf(async { futures::try_join!(prf(), prf()) });
        gf(async { let f = pfut(1).fuse(); let g = pfut(2).fuse(); let mut f = std::pin::pin!(f); let mut g = std::pin::pin!(g); loop { futures::select! { _ = f => {}, _ = g => {}, complete => break } } });
        gf(async { let f = pfut(1).fuse(); let g = pfut(2).fuse(); let mut f = std::pin::pin!(f); let mut g = std::pin::pin!(g); loop { futures::select_biased! { _ = f => {}, _ = g => {}, complete => break } } });
        gf(async { let f = pfut(1); let f = std::pin::pin!(f); f.await });
        gf(pfut(1).remote_handle().0);
        gf({ let (r, h) = pfut(1).remote_handle(); h.forget(); r });
    }
}
/// Adapters that may be moved although what they own may not.
fn t_unpin(b: u32) {
    budget(1 + b, 1);
    table! {
        gfu(pfut(1).boxed_local());
        gfu(pfut(1).boxed());
        gfu(pfut(1).shared());
        gfu({ let a = pfut(1).shared(); let c = a.clone(); drop(a); c });
        gfu({ let a = pfut(1).shared(); let c = a.clone(); future::join(a, c) });
        gfu(future::join_all([pfut(1), pfut(2)]));
        { budget(1, 0); gfu(future::join_all((0..31).map(|i| pfut(i))).map(|_| ())) };
        gfu(future::try_join_all([prf(), prf()]));
        gfu(future::select_all([Box::pin(pfut(1)), Box::pin(pfut(2))]).map(|(_, _, r)| r).then(|r| async move { for f in r { f.await; } }).boxed_local());
        gfu(future::select_ok([Box::pin(prf()), Box::pin(prf())]));
        gsu([pfut(1), pfut(2)].into_iter().collect::<FuturesUnordered<_>>());
        gsu({ let mut f = FuturesUnordered::new(); f.push(pfut(1)); f.push(pfut(2)); f.push(pfut(3)); f });
        gsu([pfut(1), pfut(2)].into_iter().collect::<FuturesOrdered<_>>());
        gsu({ let mut f = FuturesOrdered::new(); f.push_back(pfut(1)); f.push_front(pfut(2)); f.push_back(pfut(3)); f });
        gsu(ps(2).boxed_local());
        gsu(stream::select_all([ps(1).boxed_local(), ps(2).boxed_local()]));
        gsu(ps(2).boxed_local().fuse());
        gfu(futures::task::LocalFutureObj::new(Box::new(pfut(1))));
        gfu(futures::task::LocalFutureObj::new(Box::pin(pfut(1))));
        gsu(pfut(1).boxed_local().into_stream());
    }
}
fn t_iter_mut(b: u32) {
    // the iterators of FuturesUnordered hand out pinned references, into_iter only Unpin ones
    budget(1 + b, 1);
    let mut f: FuturesUnordered<crate::task::PFut<u32>> = [pfut(1), pfut(2), pfut(3)].into_iter().collect();
    let mut d = drv();
    let mut got = 0;
    let (it, clear) = (choose(4), choose(4));
    let mut np = 0;
    loop {
        if it & 1 == 1 {
            let n = Pin::new(&mut f).iter_pin_mut().count();
            check!(n == f.len() && n == 3 - got, "iter_pin_mut covers {n} of {}", f.len());
        }
        if it & 2 == 2 {
            let n = Pin::new(&f).iter_pin_ref().count();
            check!(n == f.len(), "iter_pin_ref covers {n} of {}", f.len());
        }
        match d.poll(|cx| Pin::new(&mut f).poll_next(cx)) {
            Poll::Ready(None) => break,
            Poll::Ready(Some(_)) => got += 1,
            Poll::Pending => {
                np += 1;
                if np == clear {
                    note(|| "clear".into());
                    f.clear();
                    check!(f.is_empty(), "not empty after clear");
                    break;
                }
                if !d.wait() {
                    break;
                }
            }
        }
    }
    obs(got as u64);
}
fn t_streams(b: u32) {
    budget(1 + b, 1);
    table! {
        gs(ps(2).map(|x| x));
        gs(ps(2).then(|x| pfut(x)));
        gs(ps(2).filter(|_| pfut(true)));
        gs(ps(2).filter_map(|x| pfut(Some(x))));
        gs(ps(2).skip_while(|x| pfut(*x == 0)));
        gs(ps(2).take_while(|x| pfut(*x == 0)));
        gs(ps(2).take_until(pfut(1)));
        gs(ps(2).scan(0, |a, x| pfut(Some((a, x)))));
        gs(ps(2).map(|_| ps(2)).flatten());
        gs(ps(2).flat_map(|_| ps(1)));
        gs(ps(2).flat_map_unordered(2, |_| ps(1).boxed_local()));
        gs(ps(2).map(|_| ps(1).boxed_local()).flatten_unordered(None));
        gs(ps(3).chunks(2));
        gs(ps(3).ready_chunks(2));
        gs(ps(2).peekable());
        gs(ps(2).zip(ps(2)));
        gs(ps(2).chain(ps(1)));
        gs(stream::select(ps(1), ps(2)));
        gs(stream::select_with_strategy(ps(1), ps(2), |_: &mut ()| stream::PollNext::Right));
        gs(ps(2).fuse());
        gs(ps(2).enumerate());
        gs(ps(2).inspect(|_| ()));
        gs(ps(2).skip(1));
        gs(ps(2).take(1));
        gs(ps(2).step());
        gs(ps(2).map(|x| pfut(x)).buffered(2));
        gs(ps(2).map(|x| pfut(x)).buffer_unordered(2));
        gs(std::panic::AssertUnwindSafe(ps(2)).catch_unwind());
        gs(stream::unfold(0, |i| pfut(if i < 2 { Some((i, i + 1)) } else { None })));
        gs(stream::try_unfold(0, |i| pfut(if i < 2 { Ok(Some((i, i + 1))) } else { Err(()) })));
        gs(stream::once(pfut(1)));
        gs(stream::poll_immediate(pfut(1).into_stream()).take(3));
        gs(stream::abortable(ps(2)).0);
        gs(pfut(1).map(|_| ps(2)).flatten_stream());
        gs(pfut(1).into_stream());
        gs(if flip() { ps(1).left_stream() } else { ps(2).right_stream() });
        gs(ps(2).cycle_once());
    }
}
// two helpers so that the table stays uniform
trait Ext: Stream + Sized {
    fn step(self) -> stream::Map<stream::Skip<Self>, fn(Self::Item) -> Self::Item> {
        self.skip(1).map((|x| x) as fn(_) -> _)
    }
    fn cycle_once(self) -> stream::Take<stream::Fuse<Self>> {
        self.fuse().take(2)
    }
}
impl<S: Stream> Ext for S {}
fn t_trys(b: u32) {
    budget(1 + b, 1);
    table! {
        gs(prs(2).and_then(|_| prf()));
        gs(prs(2).or_else(|_| prf()));
        gs(prs(2).map_ok(|x| x));
        gs(prs(2).map_err(|x| x));
        gs(prs(2).try_filter(|_| pfut(true)));
        gs(prs(2).try_filter_map(|x| pfut(Ok(Some(x)))));
        gs(prs(2).try_skip_while(|x| pfut(Ok(*x == 0))));
        gs(prs(2).try_take_while(|x| pfut(Ok(*x == 0))));
        gs(prs(2).map_ok(|_| prs(1)).try_flatten());
        gs(prs(2).map_ok(|_| Box::pin(prs(1))).try_flatten_unordered(2));
        gs(prs(2).map_ok(|x| pfut(Ok(x))).try_buffered(2));
        gs(prs(2).map_ok(|x| pfut(Ok(x))).try_buffer_unordered(2));
        gs(prs(2).inspect_ok(|_| ()));
        gs(prs(2).inspect_err(|_| ()));
        gs(prs(2).into_stream());
        gs(prs(2).try_chunks(2));
        gs(prs(2).try_ready_chunks(2));
        gs(prf().map_ok(|_| prs(2)).try_flatten_stream());
        gf(prs(2).try_for_each(|_| prf().map_ok(|_| ())));
        gf(prs(2).try_for_each_concurrent(2, |_| pfut(Ok::<(), u32>(()))));
        gf(prs(2).try_fold(0, |_, x: R<u32>| pfut(x)));
        gf(prs(2).try_collect::<Vec<_>>());
        gf(prs(2).map_ok(|x| vec![x]).try_concat());
        gf(prs(2).try_all(|_| pfut(true)));
        gf(prs(2).try_any(|_| pfut(false)));
        gf(prs(2).map_err(|_| std::io::Error::from(std::io::ErrorKind::Other)).map_ok(|_| vec![1u8]).boxed_local().into_async_read().read_all_());
    }
}
trait RAll {
    fn read_all_(self) -> futures::future::LocalBoxFuture<'static, ()>;
}
impl<T: futures::io::AsyncRead + Unpin + 'static> RAll for T {
    fn read_all_(mut self) -> futures::future::LocalBoxFuture<'static, ()> {
        async move {
            let mut v = vec![];
            let _ = futures::io::AsyncReadExt::read_to_end(&mut self, &mut v).await;
        }
        .boxed_local()
    }
}
fn t_consume(b: u32) {
    budget(1 + b, 1);
    table! {
        gf(ps(2).fold(0, |a, x| pfut(a + x)));
        gf(ps(2).for_each(|_| pfut(())));
        gf(ps(2).for_each_concurrent(2, |_| pfut(())));
        gf(ps(2).for_each_concurrent(None, |_| pfut(())));
        gf(ps(2).collect::<Vec<_>>());
        gf(ps(2).count());
        gf(ps(2).map(|x| vec![x]).concat());
        gf(ps(2).all(|_| pfut(true)));
        gf(ps(2).any(|_| pfut(false)));
        gf(ps(2).map(|x| (x, x)).unzip::<u32, u32, Vec<_>, Vec<_>>());
        gf(ps(2).forward(snk(1)));
        gf(ps(2).forward(snk(1).buffer(1)));
        gf(ps(2).boxed_local().into_future());
        gf(async { let s = ps(2).peekable(); let mut s = std::pin::pin!(s); s.as_mut().peek().await; s.as_mut().next_if(|x| *x == 0).await; s.as_mut().peek().await; s.next().await; });
        gf(async { let s = ps(2).fuse(); let mut s = std::pin::pin!(s); s.select_next_some().await; });
        gk(p(snk(1)).with(|x: u32| pfut(Ok::<u32, SErr>(x))));
        gk(p(snk(1)).with_flat_map(|x: u32| p(src_of(vec![Ok::<u32, SErr>(x)], vec![x]))));
        gk(p(snk(1)).buffer(1));
        gk(p(reclosable(1)).fanout(p(reclosable(0))));
        gk(p(snk(1)).sink_map_err(|e| e));
        gk(p(snk(1)).sink_err_into::<SErr>());
        gk(prf().map_err(|_| SErr(9)).map_ok(|_| p(snk(1))).flatten_sink());
        gk(futures::sink::unfold((), |_, _: u32| pfut(Ok::<(), u32>(()))));
        gk(if flip() { p(snk(0)).left_sink() } else { p(snk(1)).right_sink() });
    }
}
fn reclosable(e: u32) -> Snk {
    let mut k = snk(e);
    k.reclose = true;
    k
}
impl From<SErr> for u32 {
    fn from(e: SErr) -> u32 {
        e.0
    }
}

pub const SCN: &[Scn] = &[
    s("pin_futures", "C33", 3, 4, t_futures),
    s("pin_unpin", "C33", 2, 3, t_unpin),
    s("pin_iter", "C33", 3, 4, t_iter_mut),
    s("pin_streams", "C33", 3, 4, t_streams),
    s("pin_trys", "C33", 3, 4, t_trys),
    s("pin_consume", "C33", 3, 4, t_consume),
];
