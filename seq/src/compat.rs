//! Bridges to futures 0.1 (C29).  Each direction is checked on its own against a plain
//! re-implementation of the other one, and both together as a round trip.
use crate::ch::*;
use crate::io as xio;
use crate::leaf::*;
use crate::sinks::{ko, run_sink};
use crate::{s, Scn};
use futures::compat::{Compat, Compat01As03, Compat01As03Sink, CompatSink, Executor01CompatExt, Executor01Future};
use futures::future::FutureExt;
use futures::io::{AsyncRead, AsyncWrite};
use futures::sink::Sink;
use futures::stream::Stream;
use futures::task::{FutureObj, Spawn, SpawnError, SpawnExt};
use futures01::executor::{Notify, NotifyHandle, Spawn as Spawn01};
use futures01::{Async, AsyncSink, Future as F01, Sink as K01, Stream as S01};
use std::cell::{Cell, RefCell};
use std::future::Future;
use std::pin::Pin;
use std::rc::Rc;
use std::sync::Arc;
use std::task::{Context, Poll, Wake, Waker};

// ---- the reference bridges -----------------------------------------------------------------------

struct TW(futures01::task::Task);
impl Wake for TW {
    fn wake(self: Arc<Self>) {
        self.0.notify()
    }
}
/// A 0.3 leaf as a 0.1 object.
struct In01<X>(X);
impl<X: Unpin> In01<X> {
    fn cx<R>(&mut self, f: impl FnOnce(Pin<&mut X>, &mut Context<'_>) -> R) -> R {
        let w: Waker = Arc::new(TW(futures01::task::current())).into();
        f(Pin::new(&mut self.0), &mut Context::from_waker(&w))
    }
}
fn p01<T, E>(p: Poll<Result<T, E>>) -> Result<Async<T>, E> {
    match p {
        Poll::Ready(Ok(x)) => Ok(Async::Ready(x)),
        Poll::Ready(Err(e)) => Err(e),
        Poll::Pending => Ok(Async::NotReady),
    }
}
impl<T, E, X: Future<Output = Result<T, E>> + Unpin> F01 for In01<X> {
    type Item = T;
    type Error = E;
    fn poll(&mut self) -> Result<Async<T>, E> {
        p01(self.cx(|x, cx| x.poll(cx)))
    }
}
struct In01S<X>(In01<X>);
impl<T, E, X: Stream<Item = Result<T, E>> + Unpin> S01 for In01S<X> {
    type Item = T;
    type Error = E;
    fn poll(&mut self) -> Result<Async<Option<T>>, E> {
        p01(self.0.cx(|x, cx| x.poll_next(cx)).map(|o| o.transpose()))
    }
}
struct In01K<X>(In01<X>, bool);
impl<X: Sink<u32, Error = SErr> + Unpin> K01 for In01K<X> {
    type SinkItem = u32;
    type SinkError = SErr;
    fn start_send(&mut self, i: u32) -> Result<AsyncSink<u32>, SErr> {
        check!(!self.1, "start_send after close has begun");
        self.0.cx(|mut x, cx| match x.as_mut().poll_ready(cx) {
            Poll::Ready(Ok(())) => x.start_send(i).map(|_| AsyncSink::Ready),
            Poll::Ready(Err(e)) => Err(e),
            Poll::Pending => Ok(AsyncSink::NotReady(i)),
        })
    }
    fn poll_complete(&mut self) -> Result<Async<()>, SErr> {
        check!(!self.1, "poll_complete after close has begun");
        p01(self.0.cx(|x, cx| x.poll_flush(cx)))
    }
    fn close(&mut self) -> Result<Async<()>, SErr> {
        self.1 = true;
        p01(self.0.cx(|x, cx| x.poll_close(cx)))
    }
}
impl<X> S01 for In01K<X> {
    type Item = ();
    type Error = ();
    fn poll(&mut self) -> Result<Async<Option<()>>, ()> {
        Ok(Async::Ready(None))
    }
}
fn wb<T>(p: Poll<std::io::Result<T>>) -> std::io::Result<T> {
    match p {
        Poll::Ready(r) => r,
        Poll::Pending => Err(std::io::ErrorKind::WouldBlock.into()),
    }
}
impl<X: AsyncRead + Unpin> std::io::Read for In01<X> {
    fn read(&mut self, b: &mut [u8]) -> std::io::Result<usize> {
        wb(self.cx(|x, cx| x.poll_read(cx, b)))
    }
}
impl<X: AsyncRead + Unpin> tokio_io::AsyncRead for In01<X> {}
impl<X: AsyncWrite + Unpin> std::io::Write for In01<X> {
    fn write(&mut self, b: &[u8]) -> std::io::Result<usize> {
        wb(self.cx(|x, cx| x.poll_write(cx, b)))
    }
    fn flush(&mut self) -> std::io::Result<()> {
        wb(self.cx(|x, cx| x.poll_flush(cx)))
    }
}
impl<X: AsyncWrite + Unpin> tokio_io::AsyncWrite for In01<X> {
    fn shutdown(&mut self) -> std::io::Result<Async<()>> {
        p01(self.cx(|x, cx| x.poll_close(cx)))
    }
}

struct NW(Waker, usize);
impl Notify for NW {
    fn notify(&self, id: usize) {
        check!(id == self.1, "notified with id {id} instead of {}", self.1);
        self.0.wake_by_ref()
    }
}
/// A 0.1 object driven natively, with a notify handle and id of its own for every poll.
struct Run01<X>(Spawn01<X>, usize);
fn run01<X>(x: X) -> Run01<X> {
    Run01(futures01::executor::spawn(x), 0)
}
impl<X> Unpin for Run01<X> {}
impl<X> Run01<X> {
    fn enter<R>(&mut self, cx: &mut Context<'_>, f: impl FnOnce(&mut X) -> R) -> R {
        self.1 += 1;
        let h = NotifyHandle::from(Arc::new(NW(cx.waker().clone(), self.1)));
        self.0.poll_fn_notify(&h, self.1, f)
    }
}
fn p03<T, E>(r: Result<Async<T>, E>) -> Poll<Result<T, E>> {
    match r {
        Ok(Async::Ready(x)) => Poll::Ready(Ok(x)),
        Ok(Async::NotReady) => Poll::Pending,
        Err(e) => Poll::Ready(Err(e)),
    }
}
impl<X: F01> Future for Run01<X> {
    type Output = Result<X::Item, X::Error>;
    fn poll(mut self: Pin<&mut Self>, cx: &mut Context<'_>) -> Poll<Self::Output> {
        p03(self.enter(cx, |x| x.poll()))
    }
}
struct Run01S<X>(Run01<X>);
impl<X: S01> Stream for Run01S<X> {
    type Item = Result<X::Item, X::Error>;
    fn poll_next(mut self: Pin<&mut Self>, cx: &mut Context<'_>) -> Poll<Option<Self::Item>> {
        p03(self.0.enter(cx, |x| x.poll())).map(|r| r.transpose())
    }
}
/// A 0.1 sink used natively: items are offered until accepted.
struct Run01K<X>(Run01<X>, Option<u32>);
impl<X: K01<SinkItem = u32>> Run01K<X> {
    fn push(&mut self, cx: &mut Context<'_>) -> Poll<Result<(), X::SinkError>> {
        match self.1.take() {
            None => Poll::Ready(Ok(())),
            Some(i) => match self.0.enter(cx, |x| x.start_send(i)) {
                Ok(AsyncSink::Ready) => Poll::Ready(Ok(())),
                Ok(AsyncSink::NotReady(j)) => {
                    check!(j == i, "start_send handed back {j} instead of {i}");
                    self.1 = Some(j);
                    Poll::Pending
                }
                Err(e) => Poll::Ready(Err(e)),
            },
        }
    }
}
impl<X: K01<SinkItem = u32>> Sink<u32> for Run01K<X> {
    type Error = X::SinkError;
    fn poll_ready(mut self: Pin<&mut Self>, cx: &mut Context<'_>) -> Poll<Result<(), X::SinkError>> {
        self.push(cx)
    }
    fn start_send(mut self: Pin<&mut Self>, i: u32) -> Result<(), X::SinkError> {
        self.1 = Some(i);
        Ok(())
    }
    fn poll_flush(mut self: Pin<&mut Self>, cx: &mut Context<'_>) -> Poll<Result<(), X::SinkError>> {
        match self.push(cx) {
            Poll::Ready(Ok(())) => p03(self.0.enter(cx, |x| x.poll_complete())),
            o => o,
        }
    }
    fn poll_close(mut self: Pin<&mut Self>, cx: &mut Context<'_>) -> Poll<Result<(), X::SinkError>> {
        match self.push(cx) {
            Poll::Ready(Ok(())) => p03(self.0.enter(cx, |x| x.close())),
            o => o,
        }
    }
}
struct Run01Io<X>(Run01<X>);
fn nb<T>(r: std::io::Result<T>) -> Poll<std::io::Result<T>> {
    match r {
        Err(e) if e.kind() == std::io::ErrorKind::WouldBlock => Poll::Pending,
        r => Poll::Ready(r),
    }
}
impl<X: tokio_io::AsyncRead> AsyncRead for Run01Io<X> {
    fn poll_read(mut self: Pin<&mut Self>, cx: &mut Context<'_>, b: &mut [u8]) -> Poll<std::io::Result<usize>> {
        if flip_cheap(b.len()) {
            p03(self.0.enter(cx, |x| x.poll_read(b)))
        } else {
            nb(self.0.enter(cx, |x| x.read(b)))
        }
    }
}
fn flip_cheap(n: usize) -> bool {
    n % 2 == 0
}
impl<X: tokio_io::AsyncWrite> AsyncWrite for Run01Io<X> {
    fn poll_write(mut self: Pin<&mut Self>, cx: &mut Context<'_>, b: &[u8]) -> Poll<std::io::Result<usize>> {
        if flip_cheap(b.len()) {
            p03(self.0.enter(cx, |x| x.poll_write(b)))
        } else {
            nb(self.0.enter(cx, |x| x.write(b)))
        }
    }
    fn poll_flush(mut self: Pin<&mut Self>, cx: &mut Context<'_>) -> Poll<std::io::Result<()>> {
        nb(self.0.enter(cx, |x| x.flush()))
    }
    fn poll_close(mut self: Pin<&mut Self>, cx: &mut Context<'_>) -> Poll<std::io::Result<()>> {
        p03(self.0.enter(cx, |x| x.shutdown()))
    }
}

// ---- futures and streams ----------------------------------------------------------------------------

fn t_future(b: u32) {
    budget(1 + b, 1);
    strict();
    let ok = flip();
    let f = fut(if ok { Ok(tok(1)) } else { Err(tok(2)) });
    let i = f.id;
    let mut d = Driver::new(b);
    let key = |r: Result<Tok, Tok>| r.map(|t| t.0).map_err(|t| t.0);
    let model = move || isfin(i).then(|| if ok { Ok(1) } else { Err(2) });
    match choose(4) {
        0 => run_fut(&mut d, Compat01As03::new(Compat::new(f)), key, fnoterm, model),
        1 => run_fut(&mut d, Compat01As03::new(In01(f)), key, fnoterm, model),
        2 => run_fut(&mut d, run01(Compat::new(f)), key, fnoterm, model),
        _ => {
            use futures::compat::Future01CompatExt;
            use futures::future::TryFutureExt;
            run_fut(&mut d, Future01CompatExt::compat(TryFutureExt::compat(f)), key, fnoterm, model)
        }
    };
}
fn t_stream(b: u32) {
    budget(b, 1);
    strict();
    let n = choose(3);
    let v: Vec<Result<u32, u32>> = (0..n as u32).map(|i| if flip() { Ok(i) } else { Err(i) }).collect();
    let mut d = Driver::new(1);
    let mut st = src_of(v.clone(), (0..n as u32).collect());
    st.hint = Hint::Exact;
    let model = move || Model { out: items(0).iter().map(|i| v[*i as usize]).collect::<Vec<_>>(), fin: ended(0) };
    let o = SOpts { lazy: true, ..SO };
    match choose(5) {
        0 => run_stream(&mut d, Compat01As03::new(S01Only(Compat::new(st))), |x| x, noterm, model, o),
        1 => run_stream(&mut d, Compat01As03::new(In01S(In01(st))), |x| x, noterm, model, o),
        2 => run_stream(&mut d, Run01S(run01(Compat::new(st))), |x| x, noterm, model, o),
        3 => run_stream(&mut d, futures::compat::Stream01CompatExt::compat(S01Only(futures::stream::TryStreamExt::compat(st))), |x| x, noterm, model, o),
        _ => run_stream(&mut d, Compat01As03Sink::<_, u32>::new(S01Only(Compat::new(st))), |x| x, noterm, model, o),
    };
}
/// Hides everything but the stream.
struct S01Only<X>(X);
impl<X: S01> S01 for S01Only<X> {
    type Item = X::Item;
    type Error = X::Error;
    fn poll(&mut self) -> Result<Async<Option<X::Item>>, X::Error> {
        self.0.poll()
    }
}
fn t_sink(b: u32) {
    budget(b, 1);
    let k = snk(1);
    let mut d = Driver::new(0);
    let want = |a: &[u32]| vec![a.to_vec()];
    let n = 1 + b.min(2) as usize;
    match choose(4) {
        0 => run_sink(&mut d, Compat01As03Sink::new(CompatSink::<_, u32>::new(k)), ko(n, 1), |e| e.0, want),
        1 => run_sink(&mut d, Compat01As03Sink::new(In01K(In01(k), false)), ko(n, 1), |e| e.0, want),
        2 => run_sink(&mut d, Run01K(run01(CompatSink::<_, u32>::new(k)), None), ko(n, 1), |e| e.0, want),
        _ => run_sink(&mut d, futures::compat::Sink01CompatExt::sink_compat(futures::sink::SinkExt::compat(k)), ko(n, 1), |e| e.0, want),
    };
}
fn t_read(b: u32) {
    xio::cp_read(b, |r| match choose(4) {
        0 => Box::pin(Compat01As03::new(Compat::new(r))),
        1 => Box::pin(Compat01As03::new(In01(r))),
        2 => Box::pin(Run01Io(run01(Compat::new(r)))),
        _ => Box::pin(futures::compat::AsyncRead01CompatExt::compat(futures::io::AsyncReadExt::compat(r))),
    });
}
fn t_write(b: u32) {
    xio::cp_write(b, |r| match choose(4) {
        0 => Box::pin(Compat01As03::new(Compat::new(r))),
        1 => Box::pin(Compat01As03::new(In01(r))),
        2 => Box::pin(Run01Io(run01(Compat::new(r)))),
        _ => Box::pin(futures::compat::AsyncWrite01CompatExt::compat(futures::io::AsyncWriteExt::compat_write(r))),
    });
}

// ---- wakers -------------------------------------------------------------------------------------------

/// Every sequence of operations on the wakers a bridged leaf is given: each wake reaches the task,
/// each reference is released.
struct Ops {
    keep: Rc<RefCell<Vec<Waker>>>,
    n: u32,
    wakes: Rc<Cell<u64>>,
    polls: u32,
}
impl Unpin for Ops {}
impl Ops {
    fn ops(&mut self, w0: &Waker) {
        for _ in 0..self.n {
            let k = self.keep.borrow().len();
            let mut v: Vec<(u32, usize)> = vec![(0, 0), (1, 0)];
            if k < 2 {
                v.push((6, 0));
            }
            for i in 0..k {
                v.extend([(2, i), (3, i), (4, i)]);
                if k < 2 {
                    v.push((5, i));
                }
            }
            let (o, i) = v[choose(v.len())];
            note(|| format!("  waker op {o} {i}"));
            step();
            match o {
                0 => return,
                1 => w0.wake_by_ref(),
                6 => {
                    let c = w0.clone();
                    self.keep.borrow_mut().push(c);
                    continue;
                }
                2 => {
                    let x = self.keep.borrow_mut().remove(i);
                    x.wake()
                }
                3 => self.keep.borrow()[i].wake_by_ref(),
                4 => {
                    let x = self.keep.borrow_mut().remove(i);
                    drop(x);
                    continue;
                }
                _ => {
                    let x = self.keep.borrow()[i].clone();
                    self.keep.borrow_mut().push(x);
                    continue;
                }
            }
            self.wakes.set(self.wakes.get() + 1);
        }
    }
}
impl Future for Ops {
    type Output = Result<(), ()>;
    fn poll(mut self: Pin<&mut Self>, cx: &mut Context<'_>) -> Poll<Result<(), ()>> {
        self.polls += 1;
        self.ops(cx.waker());
        if self.polls == 2 {
            Poll::Ready(Ok(()))
        } else {
            Poll::Pending
        }
    }
}
fn t_wakers(b: u32) {
    let keep = Rc::new(RefCell::new(vec![]));
    let wakes = Rc::new(Cell::new(0));
    let fl = flag();
    {
        let o = Ops { keep: keep.clone(), n: b, wakes: wakes.clone(), polls: 0 };
        let wk: Waker = fl.clone().into();
        let mut cx = Context::from_waker(&wk);
        let mut f: Pin<Box<dyn Future<Output = Result<(), ()>>>> = match choose(3) {
            0 => Box::pin(Compat01As03::new(Compat::new(o))),
            1 => Box::pin(Compat01As03::new(In01(o))),
            _ => Box::pin(run01(Compat::new(o))),
        };
        let r = f.as_mut().poll(&mut cx);
        check!(r.is_pending(), "completed early");
        check!(fl.n.load(std::sync::atomic::Ordering::SeqCst) == wakes.get(), "{} wake-ups arrived, {} were sent", fl.n.load(std::sync::atomic::Ordering::SeqCst), wakes.get());
        if flip() {
            let r = f.as_mut().poll(&mut cx);
            check!(r == Poll::Ready(Ok(())), "did not complete");
        }
    }
    // the wakers outlive the task
    let mut n = wakes.get();
    for x in keep.borrow_mut().drain(..) {
        if flip() {
            x.wake();
            n += 1;
        }
    }
    check!(fl.n.load(std::sync::atomic::Ordering::SeqCst) == n, "{} wake-ups arrived, {n} were sent", fl.n.load(std::sync::atomic::Ordering::SeqCst));
    check!(Arc::strong_count(&fl) == 1, "{} references to the task are left", Arc::strong_count(&fl) - 1);
    obs(n);
}

// ---- executors ------------------------------------------------------------------------------------------

type Q = Arc<std::sync::Mutex<(Vec<Executor01Future>, bool)>>;
#[derive(Clone)]
struct Ex(Q);
impl futures01::future::Executor<Executor01Future> for Ex {
    fn execute(&self, f: Executor01Future) -> Result<(), futures01::future::ExecuteError<Executor01Future>> {
        let mut q = self.0.lock().unwrap();
        if q.1 {
            return Err(futures01::future::ExecuteError::new(futures01::future::ExecuteErrorKind::Shutdown, f));
        }
        q.0.push(f);
        Ok(())
    }
}
struct Sp3(std::sync::Mutex<Vec<FutureObj<'static, ()>>>);
impl Spawn for &Sp3 {
    fn spawn_obj(&self, f: FutureObj<'static, ()>) -> Result<(), SpawnError> {
        self.0.lock().unwrap().push(f);
        Ok(())
    }
}
fn t_exec(b: u32) {
    budget(1 + b, 1);
    strict();
    let mut d = Driver::new(1);
    if flip() {
        // a 0.1 executor as a 0.3 spawner
        let q: Q = Default::default();
        let ex = Ex(q.clone()).compat();
        let down = flip();
        q.lock().unwrap().1 = down;
        let f = fut(());
        let id = f.id;
        let r = ex.spawn(f);
        check!(r.is_ok() != down, "spawn's result is not the executor's");
        check!(r.err().map_or(true, |e| e.is_shutdown()), "not reported as shutdown");
        check!(isdropped(id) == down, "a refused future is kept or an accepted one dropped");
        let v = std::mem::take(&mut q.lock().unwrap().0);
        check!(v.len() == !down as usize, "{} futures were executed", v.len());
        for f in v {
            run_fut(&mut d, run01(f), |r| r.is_ok(), fnoterm, move || isfin(id).then(|| true));
        }
    } else {
        let sp = Compat::new(Sp3(Default::default()));
        let f = fut(if flip() { Ok(()) } else { Err(()) });
        let id = f.id;
        let r = futures01::future::Executor::execute(&sp, Compat::new(f));
        check!(r.is_ok(), "execute failed");
        let v = std::mem::take(&mut *sp.get_ref().0.lock().unwrap());
        check!(v.len() == 1, "{} futures were spawned", v.len());
        for f in v {
            run_fut(&mut d, f, |_| (), fnoterm, move || isfin(id).then(|| ()));
        }
    }
}
/// get_ref, get_mut and into_inner reach the wrapped object.
fn t_access(_b: u32) {
    let mut c = Compat::new(fut(Ok::<u32, u32>(1)));
    let i = c.get_ref().id;
    check!(c.get_mut().id == i, "get_mut");
    let mut c = Compat01As03::new(c);
    check!(c.get_ref().get_ref().id == i && c.get_mut().get_ref().id == i, "get_ref");
    let f = c.into_inner().into_inner();
    check!(f.id == i && !isdropped(i), "into_inner");
    let k = snk(0);
    let n = k.n;
    let mut c = CompatSink::<_, u32>::new(k);
    check!(c.get_ref().n == n && c.get_mut().n == n, "sink access");
    let mut c = Compat01As03Sink::<_, u32>::new(c.into_inner());
    check!(c.get_ref().n == n && c.get_mut().n == n && c.into_inner().n == n, "sink access");
    let _ = f.boxed_local();
}

pub const SCN: &[Scn] = &[
    s("cp_future", "C29 C31", 3, 5, t_future),
    s("cp_stream", "C29 C31 C23 C22", 3, 4, t_stream),
    s("cp_sink", "C29 C31", 3, 4, t_sink),
    s("cp_read", "C29", 2, 3, t_read),
    s("cp_write", "C29", 2, 3, t_write),
    s("cp_wakers", "C29 !", 3, 4, t_wakers),
    s("cp_exec", "C29", 3, 4, t_exec),
    s("cp_access", "C29 C34 !", 1, 1, t_access),
];
