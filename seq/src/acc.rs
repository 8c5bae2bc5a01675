//! C34: accessors, conversions and constructors: what comes out is what went in, at any point of
//! use.
use crate::ch::*;
use crate::io as lio;
use crate::leaf::*;
use crate::{s, Scn};
use futures::future::{self, ready, Either, FusedFuture, FutureExt, TryFutureExt};
use futures::io::{AllowStdIo, AsyncRead, AsyncReadExt, AsyncSeek, AsyncSeekExt, AsyncWrite, AsyncWriteExt, BufReader, BufWriter, Cursor, IoSlice, LineWriter, SeekFrom};
use futures::sink::{Sink, SinkExt};
use futures::stream::{self, FuturesOrdered, FuturesUnordered, FusedStream, SelectAll, Stream, StreamExt, TryStreamExt};
use std::future::Future;
use std::io::{BufRead, Read, Seek, Write};
use std::pin::Pin;
use std::task::{Context, Poll};

/// Uses the stream for any number of polls, then looks through all four accessors at the source
/// (number `$n` of `$total` items) and drains what is left of it.
macro_rules! acc {
    ($d:expr, $st:expr, $total:expr) => {{
        let total: usize = $total;
        let mut st = Box::pin($st);
        let mut k = choose(4);
        while k > 0 {
            k -= 1;
            if let Poll::Ready(None) = $d.poll(|cx| st.as_mut().poll_next(cx)) {
                break;
            }
        }
        let seen = items(0).len();
        {
            let r = unsafe { st.as_mut().get_unchecked_mut() };
            check!(r.get_ref().n == 0 && r.get_ref().left() == total - seen, "get_ref: another object");
            let at = r.get_ref() as *const _ as usize;
            check!(r.get_mut().n == 0 && r.get_mut() as *const _ as usize == at, "get_mut: another object");
            let p = st.as_mut().get_pin_mut();
            check!(&*p as *const _ as usize == at, "get_pin_mut: another object");
        }
        let inner = unsafe { *Pin::into_inner_unchecked(st) }.into_inner();
        check!(inner.n == 0 && inner.left() == total - seen, "into_inner: {} of {} items left after {seen} were taken", inner.left(), total);
        check!(items(0).len() == seen, "an accessor takes items");
        check!(!isdropped(inner.id), "into_inner gives out a dropped object");
        drop(inner);
        obs(seen as u64);
    }};
}
fn ok(x: u32) -> Result<u32, u32> {
    if x % 3 == 2 { Err(x) } else { Ok(x) }
}
fn streams(b: u32) {
    budget(b, 1);
    let mut d = Driver::fixed(1);
    let n = 3;
    let s0 = || src_of(vec![1u32, 2, 3], vec![1, 2, 3]).tolerant();
    let t0 = || src_of(vec![ok(0), ok(1), ok(2)], vec![1, 2, 3]).tolerant();
    let id = |x: u32| x;
    match choose(42) {
        0 => acc!(d, s0().map(id), n),
        1 => acc!(d, s0().enumerate(), n),
        2 => acc!(d, s0().filter(|x| ready(x % 2 == 1)), n),
        3 => acc!(d, s0().filter_map(|x| ready(if x % 2 == 1 { Some(x) } else { None })), n),
        4 => acc!(d, s0().then(ready), n),
        5 => acc!(d, s0().skip(1), n),
        6 => acc!(d, s0().skip_while(|x| ready(*x < 2)), n),
        7 => acc!(d, s0().take(2), n),
        8 => acc!(d, s0().take_while(|x| ready(*x < 2)), n),
        9 => acc!(d, s0().take_until(future::pending::<()>()), n),
        10 => acc!(d, s0().scan(0u32, |a, x| ready(Some((a + x, x)))), n),
        11 => acc!(d, s0().chunks(2), n),
        12 => acc!(d, s0().ready_chunks(2), n),
        13 => acc!(d, s0().fuse(), n),
        14 => acc!(d, s0().peekable(), n),
        15 => acc!(d, std::panic::AssertUnwindSafe(s0()).catch_unwind_(), n),
        16 => acc!(d, src_of(vec![stream::iter(vec![1u32]), stream::iter(vec![])], vec![1, 2]).tolerant().flatten(), 2),
        17 => acc!(d, src_of(vec![stream::iter(vec![1u32]), stream::iter(vec![])], vec![1, 2]).tolerant().flatten_unordered(1), 2),
        18 => acc!(d, src_of(vec![ready(1u32), ready(2)], vec![1, 2]).tolerant().buffered(1), 2),
        19 => acc!(d, src_of(vec![ready(1u32), ready(2)], vec![1, 2]).tolerant().buffer_unordered(1), 2),
        20 => acc!(d, s0().inspect(|_| ()), n),
        21 => acc!(d, s0().flat_map(|x| stream::iter(vec![x, x])), n),
        22 => acc!(d, s0().flat_map_unordered(1, |x| stream::iter(vec![x, x])), n),
        23 => acc!(d, t0().and_then(|x| ready(ok(x))), n),
        24 => acc!(d, t0().or_else(|x| ready(ok(x))), n),
        25 => acc!(d, t0().try_filter(|x| ready(x % 2 == 1)), n),
        26 => acc!(d, t0().try_filter_map(|x| ready(ok(x).map(Some))), n),
        27 => acc!(d, t0().try_skip_while(|x| ready(Ok(*x < 1))), n),
        28 => acc!(d, t0().try_take_while(|x| ready(Ok(*x < 1))), n),
        29 => acc!(d, src_of(vec![Ok(stream::iter(vec![ok(1)])), Err(1u32)], vec![1, 2]).tolerant().try_flatten(), 2),
        30 => acc!(d, src_of(vec![Ok(ready(ok(1))), Err(1)], vec![1, 2]).tolerant().try_buffered(1), 2),
        31 => acc!(d, src_of(vec![Ok(ready(ok(1))), Err(1)], vec![1, 2]).tolerant().try_buffer_unordered(1), 2),
        32 => acc!(d, t0().try_chunks(2), n),
        33 => acc!(d, t0().try_ready_chunks(2), n),
        34 => acc!(d, t0().into_stream(), n),
        35 => acc!(d, t0().map_ok(id), n),
        36 => acc!(d, t0().map_err(id), n),
        37 => acc!(d, t0().inspect_ok(|_| ()), n),
        38 => acc!(d, t0().inspect_err(|_| ()), n),
        39 => acc!(d, t0().err_into::<u64>(), n),
        40 => acc!(d, src_of(vec![Ok(stream::iter(vec![ok(1)])), Err(1u32)], vec![1, 2]).tolerant().try_flatten_unordered(1), 2),
        _ => {
            // the future of the next item and the rest
            let mut f = s0().into_future();
            check!(f.get_ref().map(|s| s.n) == Some(0) && f.get_mut().map(|s| s.n) == Some(0), "get_ref of StreamFuture");
            check!(Pin::new(&mut f).get_pin_mut().map(|s| s.n) == Some(0), "get_pin_mut of StreamFuture");
            if flip() {
                match d.poll(|cx| f.poll_unpin(cx)) {
                    Poll::Ready((x, rest)) => {
                        check!(x == Some(1) && rest.n == 0 && rest.left() == 2, "StreamFuture's output");
                        check!(f.get_ref().is_none() && f.get_mut().is_none() && Pin::new(&mut f).get_pin_mut().is_none() && f.into_inner().is_none(), "StreamFuture still holds its stream");
                        return;
                    }
                    Poll::Pending => {}
                }
            }
            let i = f.into_inner();
            check!(i.as_ref().map(|s| (s.n, s.left())) == Some((0, 3)), "into_inner of StreamFuture");
        }
    }
}
/// catch_unwind over AssertUnwindSafe, with the accessors seeing through to the source
struct Cu(stream::CatchUnwind<std::panic::AssertUnwindSafe<Src<u32>>>);
trait CuExt {
    fn catch_unwind_(self) -> Cu;
}
impl CuExt for std::panic::AssertUnwindSafe<Src<u32>> {
    fn catch_unwind_(self) -> Cu {
        Cu(self.catch_unwind())
    }
}
impl Stream for Cu {
    type Item = u32;
    fn poll_next(mut self: Pin<&mut Self>, cx: &mut Context<'_>) -> Poll<Option<u32>> {
        Pin::new(&mut self.0).poll_next(cx).map(|x| x.map(|r| r.ok().expect("no panic here")))
    }
}
impl Cu {
    fn get_ref(&self) -> &Src<u32> {
        &self.0.get_ref().0
    }
    fn get_mut(&mut self) -> &mut Src<u32> {
        &mut self.0.get_mut().0
    }
    fn get_pin_mut(self: Pin<&mut Self>) -> Pin<&mut Src<u32>> {
        Pin::new(&mut Pin::new(&mut self.get_mut_().0).get_pin_mut().get_mut().0)
    }
    fn get_mut_(self: Pin<&mut Self>) -> &mut Self {
        Pin::into_inner(self)
    }
    fn into_inner(self) -> Src<u32> {
        self.0.into_inner().0
    }
}
macro_rules! acc2 {
    ($d:expr, $st:expr) => {{
        let mut st = $st;
        let mut k = choose(5);
        while k > 0 {
            k -= 1;
            if let Poll::Ready(None) = $d.poll(|cx| Pin::new(&mut st).poll_next(cx)) {
                break;
            }
        }
        let seen = (items(0).len(), items(1).len());
        {
            let (a, b) = st.get_ref();
            check!(a.n == 0 && b.n == 1, "get_ref: sources {} and {}", a.n, b.n);
            let (a, b) = st.get_mut();
            check!(a.n == 0 && b.n == 1, "get_mut: sources {} and {}", a.n, b.n);
            let (a, b) = Pin::new(&mut st).get_pin_mut();
            check!(a.n == 0 && b.n == 1, "get_pin_mut: sources {} and {}", a.n, b.n);
        }
        let (a, b) = st.into_inner();
        check!(a.n == 0 && b.n == 1 && a.left() == 2 - seen.0 && b.left() == 2 - seen.1, "into_inner: sources {} and {}", a.n, b.n);
    }};
}
fn pairs(b: u32) {
    budget(b, 1);
    let mut d = Driver::fixed(1);
    let x = src_of(vec![1u32, 2], vec![1, 2]).tolerant();
    let y = src_of(vec![11u32, 12], vec![11, 12]).tolerant();
    match choose(3) {
        0 => acc2!(d, stream::select(x, y)),
        1 => acc2!(d, stream::select_with_strategy(x, y, |_: &mut ()| stream::PollNext::Right)),
        _ => acc2!(d, x.zip(y)),
    }
}
/// Sinks, with an item possibly on its way.
fn sinks(b: u32) {
    budget(b, 1);
    let mut d = Driver::fixed(1);
    macro_rules! go {
        ($st:expr) => {{
            let mut st = Box::pin($st);
            if flip() {
                if let Poll::Ready(Ok(())) = d.poll(|cx| st.as_mut().poll_ready(cx)) {
                    let _ = st.as_mut().start_send(1u32);
                }
            }
            let r = unsafe { st.as_mut().get_unchecked_mut() };
            let at = r.get_ref() as *const Snk as usize;
            check!(r.get_ref().n == 0, "get_ref");
            check!(r.get_mut() as *const Snk as usize == at, "get_mut: another object");
            check!(&*st.as_mut().get_pin_mut() as *const Snk as usize == at, "get_pin_mut: another object");
            let i = unsafe { *Pin::into_inner_unchecked(st) }.into_inner();
            check!(i.n == 0, "into_inner");
        }};
    }
    match choose(6) {
        0 => go!(snk(0).with(|x: u32| ready(Ok::<u32, SErr>(x)))),
        1 => go!(snk(0).with_flat_map(|x: u32| stream::iter(vec![Ok::<u32, SErr>(x)]))),
        2 => go!(snk(0).sink_map_err(|e: SErr| e)),
        3 => go!(snk(0).sink_err_into::<E2>()),
        4 => go!(snk(0).buffer(2)),
        _ => {
            let mut st = snk(0).fanout(snk(0));
            if flip() {
                if let Poll::Ready(Ok(())) = d.poll(|cx| st.poll_ready_unpin(cx)) {
                    let _ = st.start_send_unpin(1u32);
                }
            }
            let (x, y) = st.get_ref();
            check!(x.n == 0 && y.n == 1, "get_ref of fanout");
            let (x, y) = st.get_mut();
            check!(x.n == 0 && y.n == 1, "get_mut of fanout");
            let (x, y) = Pin::new(&mut st).get_pin_mut();
            check!(x.n == 0 && y.n == 1, "get_pin_mut of fanout");
            let (x, y) = st.into_inner();
            check!(x.n == 0 && y.n == 1, "into_inner of fanout");
        }
    }
}
fn now<F: Future>(f: F) -> F::Output {
    match f.now_or_never() {
        Some(x) => x,
        None => fail("pending without reason".into()),
    }
}
/// Readers and writers.
fn ios(_b: u32) {
    let data: Vec<u8> = (1..=6).collect();
    match choose(12) {
        0 => {
            let mut r = BufReader::with_capacity(4, Cursor::new(data.clone()));
            let k = choose(7);
            let mut v = vec![0; k];
            now(r.read_exact(&mut v)).unwrap();
            check!(v == data[..k], "read {v:?}");
            let ahead = r.buffer().to_vec();
            let p = r.get_ref().position() as usize;
            check!(data[k..p] == ahead[..], "BufReader's buffer");
            check!(r.get_mut().position() as usize == p && Pin::new(&mut r).get_pin_mut().position() as usize == p, "BufReader's accessors");
            check!(r.into_inner().position() as usize == p, "BufReader::into_inner");
        }
        1 => {
            let mut w = BufWriter::with_capacity(4, Vec::new());
            let k = choose(7);
            now(w.write_all(&data[..k])).unwrap();
            let all: Vec<u8> = w.get_ref().iter().chain(w.buffer()).copied().collect();
            check!(all == data[..k], "BufWriter: {all:?}");
            let n = w.get_ref().len();
            check!(w.get_mut().len() == n && Pin::new(&mut w).get_pin_mut().len() == n, "BufWriter's accessors");
            check!(w.into_inner()[..] == data[..n], "BufWriter::into_inner");
        }
        2 => {
            let mut w = LineWriter::with_capacity(4, Vec::new());
            let k = choose(7);
            now(w.write_all(&data[..k])).unwrap();
            let all: Vec<u8> = w.get_ref().iter().chain(w.buffer()).copied().collect();
            check!(all == data[..k], "LineWriter: {all:?}");
        }
        3 => {
            let lim = choose(8) as u64;
            let mut t = Cursor::new(data.clone()).take(lim);
            let k = choose(7);
            let mut v = vec![0; k];
            let n = now(t.read(&mut v)).unwrap();
            check!(n == k.min(lim as usize).min(6) && v[..n] == data[..n], "take({lim}) reads {n} of {k}");
            check!(t.limit() == lim - n as u64, "limit {} after {n} of {lim}", t.limit());
            check!(t.get_ref().position() == n as u64 && t.get_mut().position() == n as u64, "Take's accessors");
            let lim2 = choose(4) as u64;
            t.set_limit(lim2);
            check!(t.limit() == lim2, "set_limit");
            let mut rest = vec![];
            now(t.read_to_end(&mut rest)).unwrap();
            let e = (n + lim2 as usize).min(6);
            check!(rest == data[n..e], "after set_limit({lim2}): {rest:?}");
            check!(t.into_inner().position() as usize == e, "Take::into_inner");
        }
        4 => {
            let mut c = Cursor::new(data[..2].to_vec()).chain(Cursor::new(data[2..].to_vec()));
            let k = choose(7);
            let mut v = vec![0; k];
            now(c.read_exact(&mut v)).unwrap();
            check!(v == data[..k], "chain reads {v:?}");
            let want = (k.min(2) as u64, k.saturating_sub(2) as u64);
            let (a, b) = c.get_ref();
            check!((a.position(), b.position()) == want, "Chain::get_ref");
            let (a, b) = c.get_mut();
            check!((a.position(), b.position()) == want, "Chain::get_mut");
            let (a, b) = Pin::new(&mut c).get_pin_mut();
            check!((a.position(), b.position()) == want, "Chain::get_pin_mut");
            let (a, b) = c.into_inner();
            check!((a.position(), b.position()) == want, "Chain::into_inner");
        }
        5 => {
            // Cursor, also as a writer in all its forms
            let p = [0, 1, 5, 6, 9][choose(5)] as u64;
            let mut c = Cursor::new(data.clone());
            c.set_position(p);
            check!(c.position() == p && c.get_ref() == &data && c.get_mut() == &data, "Cursor's accessors");
            let mut m = std::io::Cursor::new(data.clone());
            m.set_position(p);
            for _ in 0..2 {
                match choose(6) {
                    0 => {
                        let (mut x, mut y) = ([0; 2], [0; 2]);
                        check!(now(c.read(&mut x)).unwrap() == m.read(&mut y).unwrap() && x == y, "Cursor::read");
                    }
                    1 => check!(now(c.write(&[9, 8])).unwrap() == m.write(&[9, 8]).unwrap(), "Cursor::write"),
                    2 => {
                        let v = [IoSlice::new(&[7]), IoSlice::new(&[]), IoSlice::new(&[6, 5])];
                        check!(now(c.write_vectored(&v)).unwrap() == m.write_vectored(&v).unwrap(), "Cursor::write_vectored");
                    }
                    3 => {
                        let to = [SeekFrom::Start(2), SeekFrom::End(-1), SeekFrom::Current(1), SeekFrom::Current(-100), SeekFrom::End(i64::MIN), SeekFrom::Start(u64::MAX)][choose(6)];
                        let (a, b) = (now(c.seek(to)), m.seek(to));
                        check!(a.as_ref().ok() == b.as_ref().ok(), "Cursor::seek({to:?}): {a:?}, not {b:?}");
                        if c.position() == u64::MAX {
                            return;
                        }
                    }
                    4 => check!(now(c.flush()).is_ok(), "Cursor::flush"),
                    _ => check!(now(c.close()).is_ok(), "Cursor::close"),
                }
                check!(c.position() == m.position() && c.get_ref() == m.get_ref(), "Cursor differs from std's");
            }
            check!(c.into_inner() == m.into_inner(), "Cursor::into_inner");
        }
        6 => {
            // Cursors over slices and arrays do not grow
            let p = choose(8) as u64;
            let mut a = [1u8, 2, 3, 4];
            let mut b = a;
            let buf = [9, 8, 7];
            let k = choose(4);
            let vect = flip();
            let v = [IoSlice::new(&buf[..k]), IoSlice::new(&buf)];
            let mut m = std::io::Cursor::new(&mut b[..]);
            m.set_position(p);
            let want = if vect { m.write_vectored(&v) } else { m.write(&buf[..k]) }.unwrap();
            let wp = m.position();
            let which = choose(3);
            let (got, pos) = match which {
                0 => {
                    let mut c = Cursor::new(&mut a[..]);
                    c.set_position(p);
                    let g = if vect { now(c.write_vectored(&v)) } else { now(c.write(&buf[..k])) };
                    check!(now(c.flush()).is_ok() && now(c.close()).is_ok(), "flush/close");
                    (g.unwrap(), c.position())
                }
                1 => {
                    let x: Box<[u8]> = a.to_vec().into_boxed_slice();
                    let mut c = Cursor::new(x);
                    c.set_position(p);
                    let g = if vect { now(c.write_vectored(&v)) } else { now(c.write(&buf[..k])) };
                    check!(now(c.flush()).is_ok() && now(c.close()).is_ok(), "flush/close");
                    let r = (g.unwrap(), c.position());
                    a.copy_from_slice(&c.into_inner());
                    r
                }
                _ => {
                    let mut x = a.to_vec();
                    let mut c = Cursor::new(&mut x);
                    c.set_position(p);
                    let g = if vect { now(c.write_vectored(&v)) } else { now(c.write(&buf[..k])) }.unwrap();
                    check!(now(c.flush()).is_ok() && now(c.close()).is_ok(), "flush/close");
                    let q = c.position();
                    let all: Vec<u8> = if vect { [&buf[..k], &buf[..]].concat() } else { buf[..k].to_vec() };
                    check!(g == all.len() && q == p + g as u64, "Cursor<&mut Vec>: wrote {g}, at {q}");
                    let mut y = b_of();
                    let mut m = std::io::Cursor::new(&mut y);
                    m.set_position(p);
                    m.write_all(&all).unwrap();
                    check!(x == y, "Cursor<&mut Vec>: {x:?}, not {y:?}");
                    return;
                }
            };
            check!(got == want && pos == wp && a == b, "Cursor over a slice: {got} written, {a:?}, at {pos}; std: {want}, {b:?}, {wp}");
        }
        7 => {
            // AllowStdIo: the blocking traits are passed through
            let mut a = AllowStdIo::new(std::io::Cursor::new(data.clone()));
            let mut m = std::io::Cursor::new(data.clone());
            for _ in 0..3 {
                match choose(11) {
                    0 => {
                        let (mut x, mut y) = ([0; 2], [0; 2]);
                        check!(Read::read(&mut a, &mut x).unwrap() == m.read(&mut y).unwrap() && x == y, "AllowStdIo read");
                    }
                    1 => {
                        let (mut x, mut y) = (vec![1], vec![1]);
                        check!(Read::read_to_end(&mut a, &mut x).unwrap() == m.read_to_end(&mut y).unwrap() && x == y, "AllowStdIo read_to_end");
                    }
                    2 => {
                        let (mut x, mut y) = (String::new(), String::new());
                        check!(Read::read_to_string(&mut a, &mut x).ok() == m.read_to_string(&mut y).ok() && x == y, "AllowStdIo read_to_string");
                    }
                    3 => {
                        let (mut x, mut y) = ([0; 4], [0; 4]);
                        check!(Read::read_exact(&mut a, &mut x).is_ok() == m.read_exact(&mut y).is_ok() && x == y, "AllowStdIo read_exact");
                    }
                    4 => {
                        let (mut x, mut y, mut x2, mut y2) = ([0; 1], [0; 1], [0; 2], [0; 2]);
                        let g = Read::read_vectored(&mut a, &mut [std::io::IoSliceMut::new(&mut x), std::io::IoSliceMut::new(&mut x2)]).unwrap();
                        let h = m.read_vectored(&mut [std::io::IoSliceMut::new(&mut y), std::io::IoSliceMut::new(&mut y2)]).unwrap();
                        check!(g == h && x == y && x2 == y2, "AllowStdIo read_vectored");
                    }
                    5 => check!(Write::write(&mut a, &[9]).unwrap() == m.write(&[9]).unwrap(), "AllowStdIo write"),
                    6 => {
                        let v = [IoSlice::new(&[7]), IoSlice::new(&[6, 5])];
                        check!(Write::write_vectored(&mut a, &v).unwrap() == m.write_vectored(&v).unwrap(), "AllowStdIo write_vectored");
                    }
                    7 => {
                        Write::write_all(&mut a, &[3, 3]).unwrap();
                        m.write_all(&[3, 3]).unwrap();
                        write!(&mut a, "{}", 12).unwrap();
                        write!(&mut m, "{}", 12).unwrap();
                        Write::flush(&mut a).unwrap();
                    }
                    8 => {
                        let to = [SeekFrom::Start(2), SeekFrom::End(-1), SeekFrom::Current(-100)][choose(3)];
                        check!(Seek::seek(&mut a, to).ok() == m.seek(to).ok(), "AllowStdIo seek");
                    }
                    9 => {
                        let to = [SeekFrom::Start(2), SeekFrom::End(-1), SeekFrom::Current(-100)][choose(3)];
                        check!(now(AsyncSeekExt::seek(&mut a, to)).ok() == m.seek(to).ok(), "AllowStdIo poll_seek");
                        check!(now(AsyncWriteExt::close(&mut a)).is_ok() && now(AsyncWriteExt::flush(&mut a)).is_ok(), "AllowStdIo close");
                    }
                    _ => {
                        let (x, y) = (BufRead::fill_buf(&mut a).unwrap().to_vec(), m.fill_buf().unwrap().to_vec());
                        check!(x == y, "AllowStdIo fill_buf");
                        if !x.is_empty() {
                            BufRead::consume(&mut a, 1);
                            m.consume(1);
                        }
                    }
                }
                check!(a.get_ref() == &m && a.get_mut() == &m, "AllowStdIo differs from what it wraps");
            }
            check!(a.into_inner() == m, "AllowStdIo::into_inner");
        }
        8 => {
            // Vec<u8> as a writer
            let mut v = vec![1u8];
            let w = [IoSlice::new(&[2]), IoSlice::new(&[]), IoSlice::new(&[3, 4])];
            match choose(3) {
                0 => check!(now(AsyncWriteExt::write(&mut v, &[2, 3, 4])).unwrap() == 3, "Vec write"),
                1 => check!(now(AsyncWriteExt::write_vectored(&mut v, &w)).unwrap() == 3, "Vec write_vectored"),
                _ => now(AsyncWriteExt::write_all(&mut v, &[2, 3, 4])).unwrap(),
            }
            check!(now(AsyncWriteExt::flush(&mut v)).is_ok() && now(AsyncWriteExt::close(&mut v)).is_ok() && v == [1, 2, 3, 4], "Vec: {v:?}");
        }
        9 => {
            let mut w = futures::io::Window::new(data.clone());
            check!((w.start(), w.end()) == (0, 6) && w.as_ref() == &data[..], "a new Window");
            let (mut lo, mut hi) = (0, 6);
            for _ in 0..2 {
                let (a, z) = (choose(7), choose(7));
                if a > z {
                    skip();
                }
                match choose(4) {
                    0 => {
                        w.set(a..z);
                        (lo, hi) = (a, z);
                    }
                    1 if z < 6 => {
                        w.set(a..=z);
                        (lo, hi) = (a, z + 1);
                    }
                    2 => {
                        w.set(a..);
                        (lo, hi) = (a, 6);
                    }
                    _ => {
                        w.set(..z);
                        (lo, hi) = (0, z);
                    }
                }
                check!((w.start(), w.end()) == (lo, hi) && w.as_ref() == &data[lo..hi], "Window is {}..{}, set to {lo}..{hi}", w.start(), w.end());
                w.as_mut().iter_mut().for_each(|x| *x += 0);
            }
            check!(w.get_ref() == &data && w.get_mut() == &data && w.into_inner() == data, "Window's buffer");
        }
        10 => {
            // Either of two seekable readers and writers
            let l = flip();
            let mut e = if l { Either::Left(Cursor::new(data.clone())) } else { Either::Right(Cursor::new(data.clone())) };
            check!(now(e.seek(SeekFrom::Start(3))).unwrap() == 3, "Either seek");
            let mut b = [0];
            now(e.read_exact(&mut b)).unwrap();
            check!(b[0] == 4, "Either read");
            now(e.write_all(&[9])).unwrap();
            check!(now(e.flush()).is_ok() && now(e.close()).is_ok(), "Either flush");
            check!(e.into_inner().into_inner() == [1, 2, 3, 4, 9, 6], "Either::into_inner");
        }
        _ => {
            use futures_test::io::{AsyncReadTestExt, AsyncWriteTestExt};
            let mut r = Cursor::new(data.clone()).limited(2);
            check!(r.get_ref().position() == 0 && r.get_mut().position() == 0 && Pin::new(&mut r).get_pin_mut().position() == 0 && r.into_inner().position() == 0, "limited's accessors");
            let mut r = AsyncReadTestExt::interleave_pending(Cursor::new(data.clone()));
            check!(r.get_ref().position() == 0 && r.get_mut().position() == 0 && Pin::new(&mut r).get_pin_mut().position() == 0 && r.into_inner().position() == 0, "interleave_pending's accessors");
            let mut r = AsyncWriteTestExt::track_closed(Cursor::new(data.clone()));
            check!(r.get_ref().position() == 0 && r.get_mut().position() == 0 && Pin::new(&mut r).get_pin_mut().position() == 0 && r.into_inner().position() == 0, "track_closed's accessors");
        }
    }
}
fn b_of() -> Vec<u8> {
    vec![1, 2, 3, 4]
}
/// Either, Box, AssertUnwindSafe, and other plumbing.
fn plumbing(_b: u32) {
    let l = flip();
    match choose(12) {
        0 => {
            let e: Either<u32, u64> = if l { Either::Left(1) } else { Either::Right(2) };
            let mut e = Box::pin(e);
            check!(matches!((l, e.as_ref().as_pin_ref()), (true, Either::Left(x)) if *x == 1) || matches!((l, e.as_ref().as_pin_ref()), (false, Either::Right(x)) if *x == 2), "as_pin_ref");
            match e.as_mut().as_pin_mut() {
                Either::Left(mut x) => {
                    check!(l && *x == 1, "as_pin_mut");
                    *x = 5;
                }
                Either::Right(mut x) => {
                    check!(!l && *x == 2, "as_pin_mut");
                    *x = 5;
                }
            }
            check!(matches!(*e, Either::Left(5) | Either::Right(5)), "as_pin_mut: not the value itself");
        }
        1 => {
            let e: Either<(u8, u32), (u8, u64)> = if l { Either::Left((1, 2)) } else { Either::Right((3, 4)) };
            let (x, r) = e.factor_first();
            check!(if l { x == 1 && matches!(r, Either::Left(2)) } else { x == 3 && matches!(r, Either::Right(4)) }, "factor_first");
            let e: Either<(u32, u8), (u64, u8)> = if l { Either::Left((2, 1)) } else { Either::Right((4, 3)) };
            let (r, x) = e.factor_second();
            check!(if l { x == 1 && matches!(r, Either::Left(2)) } else { x == 3 && matches!(r, Either::Right(4)) }, "factor_second");
            let e: Either<u8, u8> = if l { Either::Left(1) } else { Either::Right(2) };
            check!(e.into_inner() == if l { 1 } else { 2 }, "Either::into_inner");
            let a = ready(1).left_future::<future::Ready<i32>>();
            let b = ready(2).right_future::<future::Ready<i32>>();
            check!(matches!(a, Either::Left(_)) && matches!(b, Either::Right(_)) && now(a) == 1 && now(b) == 2, "left_future/right_future");
            let a = stream::iter(vec![1]).left_stream::<stream::Empty<i32>>();
            let b = stream::iter(vec![1]).right_stream::<stream::Empty<i32>>();
            check!(matches!(a, Either::Left(_)) && matches!(b, Either::Right(_)), "left_stream/right_stream");
        }
        2 => {
            // FusedFuture and FusedStream through pointers and wrappers
            let mut f = Box::new(future::ready(1).fuse());
            check!(!FusedFuture::is_terminated(&f), "Box: terminated at once");
            check!(now(&mut f) == 1 && FusedFuture::is_terminated(&f) && (&mut *f).is_terminated(), "Box: not terminated");
            let mut f = std::panic::AssertUnwindSafe(future::ready(1).fuse());
            check!(!FusedFuture::is_terminated(&f), "AssertUnwindSafe: terminated at once");
            check!(now(&mut f) == 1 && FusedFuture::is_terminated(&f), "AssertUnwindSafe: not terminated");
            let mut f = Box::pin(future::ready(1).fuse());
            check!(!FusedFuture::is_terminated(&f) && now(&mut f) == 1 && FusedFuture::is_terminated(&f), "Pin<Box>");
        }
        3 => {
            let k = choose(3);
            let mut st = Box::new(stream::iter(0..k).fuse());
            let mut ua = std::panic::AssertUnwindSafe(stream::iter(0..k));
            for i in 0..=k {
                check!(Stream::size_hint(&st) == (k - i, Some(k - i)) && Stream::size_hint(&ua) == (k - i, Some(k - i)), "size_hint through Box or AssertUnwindSafe");
                check!(!FusedStream::is_terminated(&st), "Box: terminated");
                let want = if i < k { Some(i) } else { None };
                check!(now(st.next()) == want && now(ua.next()) == want, "Box or AssertUnwindSafe: items");
            }
            check!(FusedStream::is_terminated(&st), "Box: not terminated");
        }
        4 => {
            check!(!stream::repeat(1).is_terminated() && !stream::repeat_with(|| 1).is_terminated(), "repeat is terminated");
            check!(stream::empty::<()>().is_terminated() && stream::empty::<()>().clone().size_hint() == (0, Some(0)), "empty");
            let mut p = stream::pending::<()>();
            check!(p.size_hint() == (0, Some(0)) || p.size_hint() == (0, None), "pending's hint {:?}", p.size_hint());
            check!(p.next().now_or_never().is_none() && p.clone().next().now_or_never().is_none(), "pending yields");
            check!(future::pending::<()>().clone().now_or_never().is_none(), "pending resolves");
            check!(future::pending::<()>().is_terminated(), "pending is not terminated");
            let mut a = future::always_ready(|| 7);
            check!(now(&mut a) == 7 && now(&mut a) == 7 && now(a.clone()) == 7, "always_ready");
        }
        5 => {
            // collections from iterators, by Extend, Default; iteration
            let k = choose(4);
            let mut fu: FuturesUnordered<_> = (0..k).map(ready).collect();
            let mut fo: FuturesOrdered<_> = (0..k).map(ready).collect();
            let mut f2 = FuturesUnordered::default();
            let mut o2 = FuturesOrdered::default();
            if l {
                fu.extend((k..k + 2).map(ready));
                fo.extend((k..k + 2).map(ready));
                f2.extend((0..k + 2).map(ready));
                o2.extend((0..k + 2).map(ready));
            } else {
                f2.extend((0..k).map(ready));
                o2.extend((0..k).map(ready));
            }
            let n = if l { k + 2 } else { k };
            check!(fu.len() == n && fo.len() == n && f2.len() == n && o2.len() == n, "lengths");
            check!(fu.is_empty() == (n == 0) && fo.is_empty() == (n == 0), "is_empty");
            let mut a: Vec<_> = now(fu.collect::<Vec<_>>());
            let mut c: Vec<_> = now(f2.collect::<Vec<_>>());
            a.sort();
            c.sort();
            let all: Vec<usize> = (0..n).collect();
            check!(a == all && c == all, "FuturesUnordered from an iterator: {a:?}");
            check!(now(fo.collect::<Vec<_>>()) == all && now(o2.collect::<Vec<_>>()) == all, "FuturesOrdered from an iterator");
        }
        6 => {
            let k = choose(4);
            let mut sa: SelectAll<_> = (0..k).map(|i| stream::iter(vec![i])).collect();
            if l {
                sa.extend((k..k + 2).map(|i| stream::iter(vec![i])));
            }
            let n = if l { k + 2 } else { k };
            let d: SelectAll<stream::Empty<()>> = SelectAll::default();
            check!(sa.len() == n && sa.iter().count() == n && sa.iter_mut().count() == n && (&sa).into_iter().count() == n && (&mut sa).into_iter().count() == n && sa.is_empty() == (n == 0) && d.is_empty(), "SelectAll from an iterator");
            if choose(2) == 0 {
                let mut v: Vec<usize> = now(sa.collect());
                v.sort();
                check!(v == (0..n).collect::<Vec<_>>(), "SelectAll's items {v:?}");
            } else {
                let it = sa.into_iter();
                check!(it.count() == n, "SelectAll::into_iter");
            }
        }
        7 => {
            let k = choose(4);
            let j: future::JoinAll<_> = (0..k).map(ready).collect();
            check!(now(j) == (0..k).collect::<Vec<_>>(), "JoinAll from an iterator");
            let j: future::TryJoinAll<_> = (0..k).map(|x| ready(Ok::<_, ()>(x))).collect();
            check!(now(j) == Ok((0..k).collect::<Vec<_>>()), "TryJoinAll from an iterator");
            if k > 0 {
                let s: future::SelectAll<_> = (0..k).map(|i| future::poll_fn(move |_| if i == k - 1 { Poll::Ready(i) } else { Poll::Pending })).collect();
                let (x, i, rest) = now(s);
                check!(x == k - 1 && i == k - 1 && rest.len() == k - 1, "SelectAll (futures) from an iterator");
                let s: future::SelectAll<_> = (0..k).map(ready).collect();
                let v: Vec<_> = s.into_inner().into_iter().map(|f| f.into_inner()).collect();
                check!(v == (0..k).collect::<Vec<_>>(), "SelectAll::into_inner");
                let s: future::SelectOk<_> = (0..k).map(|x| ready(if x == k - 1 { Ok(x) } else { Err(x) })).collect();
                check!(matches!(now(s), Ok((x, r)) if x == k - 1 && r.is_empty()), "SelectOk from an iterator");
            }
        }
        8 => {
            // Shared: identity
            let a = future::poll_fn(|_| if true { Poll::Ready(1) } else { Poll::Pending }).shared();
            let b = a.clone();
            let c = future::poll_fn(|_| if true { Poll::Ready(1) } else { Poll::Pending }).shared();
            let _ = &c;
            check!(a.ptr_eq(&b) && b.ptr_eq(&a), "clones are not equal");
            let h = |x: &dyn Fn(&mut std::collections::hash_map::DefaultHasher)| {
                use std::hash::Hasher;
                let mut h = std::collections::hash_map::DefaultHasher::new();
                x(&mut h);
                h.finish()
            };
            check!(h(&|s| a.ptr_hash(s)) == h(&|s| b.ptr_hash(s)), "clones hash differently");
            check!(a.strong_count() == Some(2) && a.weak_count() == Some(0), "counts {:?}/{:?}", a.strong_count(), a.weak_count());
            let w = a.downgrade();
            check!(a.weak_count() == Some(1) && w.as_ref().and_then(|w| w.clone().upgrade()).map_or(false, |u| u.ptr_eq(&a)), "downgrade/upgrade");
            let mut a2 = a.clone();
            check!(now(&mut a2) == 1 && a2.is_terminated() && a2.peek().is_none() && a2.downgrade().is_none() && a2.strong_count().is_none(), "after completion");
            check!(!a2.ptr_eq(&b) && !b.ptr_eq(&a2), "a completed handle equals a live one");
            check!(b.peek() == Some(&1) && !b.is_terminated(), "peek");
        }
        9 => {
            let mut o: future::OptionFuture<future::Fuse<future::Ready<u32>>> = if l { Some(ready(3).fuse()).into() } else { Default::default() };
            check!(o.is_terminated() != l, "OptionFuture's is_terminated");
            check!(now(&mut o) == if l { Some(3) } else { None } && o.is_terminated(), "OptionFuture");
        }
        10 => {
            let (f, h) = future::abortable(future::pending::<()>());
            let g = h.clone();
            check!(!f.is_aborted() && !h.is_aborted(), "aborted at once");
            if l {
                g.abort();
            }
            check!(f.is_aborted() == l && h.is_aborted() == l && g.is_aborted() == l, "is_aborted");
            check!(f.now_or_never() == if l { Some(Err(future::Aborted)) } else { None }, "abort");
            let (h, reg) = future::AbortHandle::new_pair();
            let h2 = reg.handle();
            if l {
                h2.abort();
            }
            check!(h.is_aborted() == l, "the registration's handle is another one");
            check!(future::Abortable::new(ready(1), reg).now_or_never() == Some(if l { Err(future::Aborted) } else { Ok(1) }), "Abortable::new");
        }
        _ => {
            let it = vec![1, 2, 3].into_iter();
            let mut s = stream::iter(it);
            let k = choose(4);
            for i in 0..k {
                check!(now(s.next()) == Some(i as i32 + 1), "iter's items");
            }
            check!(s.get_ref().len() == 3 - k && s.get_mut().len() == 3 - k, "Iter's accessors");
            check!(s.into_inner().collect::<Vec<_>>() == (k as i32 + 1..4).collect::<Vec<_>>(), "Iter::into_inner");
            let m = futures::lock::Mutex::from(4);
            check!(*m.try_lock().unwrap() == 4 && m.into_inner() == 4, "Mutex::from");
            let mut m = futures::lock::Mutex::<u32>::default();
            check!(*m.get_mut() == 0, "Mutex::default");
            let r = ready(5);
            check!(r.into_inner() == 5, "Ready::into_inner");
            let mut it = stream::iter(vec![1, 2, 3]);
            let first: Vec<i32> = now(it.by_ref().take(k).collect());
            let rest: Vec<i32> = now(it.boxed().collect());
            check!(first.len() == k && rest.len() == 3 - k, "by_ref");
        }
    }
}
pub const SCN: &[Scn] = &[
    s("acc_either", "C30 C34 !", 1, 1, acc_either),
    s("acc_clone", "C34 C24 C30 !", 1, 1, acc_clone),
    s("acc_streams", "C34 !", 2, 3, streams),
    s("acc_pairs", "C34 !", 2, 3, pairs),
    s("acc_sinks", "C34 !", 1, 2, sinks),
    s("acc_io", "C34 C25 C26 !", 1, 1, ios),
    s("acc_plumbing", "C34 C22 C23 C30 !", 1, 1, plumbing),
];

#[derive(Debug)]
pub struct E2;
impl From<SErr> for E2 {
    fn from(_: SErr) -> E2 {
        E2
    }
}

/// Either: what is inside comes out again, on its own side.
/// A clone continues from where the original stood, and the two do not disturb each other.
fn acc_clone(_b: u32) {
    let k = choose(4);
    match choose(8) {
        0 => {
            // messages of both handles arrive, each once, in each handle's order
            let (tx, mut rx) = futures::channel::mpsc::unbounded::<u32>();
            let mut a = tx.with(|x: u32| ready(Ok::<u32, futures::channel::mpsc::SendError>(x + 100)));
            for i in 0..k {
                now(a.send(i as u32)).unwrap();
            }
            let mut b = a.clone();
            let order = choose(4);
            for i in 0..2u32 {
                if order >> i & 1 == 0 {
                    now(a.send(10 + i)).unwrap();
                    now(b.send(20 + i)).unwrap();
                } else {
                    now(b.send(20 + i)).unwrap();
                    now(a.send(10 + i)).unwrap();
                }
            }
            let first_dies = choose(2) == 0;
            if first_dies {
                drop(a);
                now(b.send(30)).unwrap();
            } else {
                drop(b);
                now(a.send(30)).unwrap();
            }
            let mut got = vec![];
            while let Ok(m) = rx.try_recv() {
                got.push(m - 100);
            }
            let mut want: Vec<u32> = (0..k as u32).collect();
            for i in 0..2 {
                want.extend(if order >> i & 1 == 0 { [10 + i, 20 + i] } else { [20 + i, 10 + i] });
            }
            want.push(30);
            check!(got == want, "With and its clone: {got:?} arrive, {want:?} were sent");
        }
        1 => {
            let (tx, mut rx) = futures::channel::mpsc::unbounded::<u32>();
            let mut a = tx.sink_map_err(|_| 7);
            let mut b = a.clone();
            now(a.send(1)).unwrap();
            now(b.send(2)).unwrap();
            check!(rx.try_recv().ok() == Some(1) && rx.try_recv().ok() == Some(2), "sink_map_err's clone sends elsewhere");
            drop(rx);
            check!(now(a.send(3)) == Err(7) && now(b.send(4)) == Err(7), "sink_map_err's clone maps errors differently");
        }
        2 => {
            let mut a = futures::sink::drain::<u32>();
            let mut b = a.clone();
            check!(now(a.send(1)).is_ok() && now(b.send(1)).is_ok(), "drain's clone");
        }
        3 => {
            let mut a = stream::iter(vec![1, 2, 3, 4]);
            for _ in 0..k {
                now(a.next());
            }
            let b: Vec<i32> = now(a.clone().collect());
            let a: Vec<i32> = now(a.collect());
            check!(a == b && a.len() == 4 - k, "iter's clone is elsewhere: {a:?} {b:?}");
        }
        4 => {
            let mut a = Cursor::new(vec![1u8, 2, 3, 4]);
            let mut buf = vec![0; k];
            now(a.read_exact(&mut buf)).unwrap();
            let mut b = a.clone();
            let (mut x, mut y) = (vec![], vec![]);
            now(a.read_to_end(&mut x)).unwrap();
            now(b.read_to_end(&mut y)).unwrap();
            check!(x == y && x.len() == 4 - k, "Cursor's clone is elsewhere: {x:?} {y:?}");
        }
        5 => {
            let mut a = future::OptionFuture::from((k > 0).then(|| ready(k)));
            if choose(2) == 0 && k > 0 {
                now(&mut a);
            }
            let b = a.clone();
            check!(a.is_terminated() == b.is_terminated(), "OptionFuture's clone is elsewhere");
            if !a.is_terminated() {
                check!(now(a) == now(b), "OptionFuture's clone resolves to something else");
            }
        }
        6 => {
            let mut a = stream::repeat_with({
                let mut n = 0;
                move || {
                    n += 1;
                    n
                }
            });
            for _ in 0..k {
                now(a.next());
            }
            let mut b = a.clone();
            check!(now(b.next()) == Some(k + 1) && now(b.next()) == Some(k + 2), "repeat_with's clone");
            check!(now(a.next()) == Some(k + 1), "repeat_with is moved by its clone");
            let r = stream::repeat(5);
            check!(now(r.clone().take(k).collect::<Vec<_>>()) == vec![5; k], "repeat's clone");
        }
        _ => {
            let mut a = ready(4);
            let taken = choose(2) == 0;
            if taken {
                now(&mut a);
            }
            let b = a.clone();
            check!(a.is_terminated() == taken && b.is_terminated() == taken, "Ready's clone is elsewhere");
            if !taken {
                check!(now(b) == 4 && now(a) == 4, "Ready's clone");
            }
        }
    }
}
fn acc_either(_b: u32) {
    use futures::future::Either;
    let left = choose(2) == 0;
    let (a, b) = (tok(1), tok(2));
    match choose(5) {
        0 => {
            let e: Either<(Tok, u32), (Tok, u64)> = if left { Either::Left((a, 7)) } else { Either::Right((b, 8)) };
            let (t, r) = e.factor_first();
            check!(t.0 == if left { 1 } else { 2 }, "factor_first takes out another value");
            check!(matches!((left, r), (true, Either::Left(7)) | (false, Either::Right(8))), "factor_first leaves another value");
        }
        1 => {
            let e: Either<(u32, Tok), (u64, Tok)> = if left { Either::Left((7, a)) } else { Either::Right((8, b)) };
            let (r, t) = e.factor_second();
            check!(t.0 == if left { 1 } else { 2 }, "factor_second takes out another value");
            check!(matches!((left, r), (true, Either::Left(7)) | (false, Either::Right(8))), "factor_second leaves another value");
        }
        2 => {
            let e = if left { Either::Left(a) } else { Either::Right(b) };
            check!(e.into_inner().0 == if left { 1 } else { 2 }, "into_inner of Either");
        }
        3 => {
            let e: Either<Tok, (u8, Tok)> = if left { Either::Left(a) } else { Either::Right((0, b)) };
            match Pin::new(&e).as_pin_ref() {
                Either::Left(x) => check!(left && x.0 == 1, "as_pin_ref of Either"),
                Either::Right(x) => check!(!left && x.1 .0 == 2, "as_pin_ref of Either"),
            }
        }
        _ => {
            let mut e: Either<Tok, (u8, Tok)> = if left { Either::Left(a) } else { Either::Right((0, b)) };
            let at = match &e {
                Either::Left(x) => x as *const _ as usize,
                Either::Right(x) => x as *const _ as usize,
            };
            match Pin::new(&mut e).as_pin_mut() {
                Either::Left(x) => check!(left && x.0 == 1 && &*x as *const _ as usize == at, "as_pin_mut of Either"),
                Either::Right(x) => check!(!left && x.1 .0 == 2 && &*x as *const _ as usize == at, "as_pin_mut of Either"),
            }
        }
    }
}
