//! Readers and writers: every history of short reads and writes, pending polls, errors and
//! user operations (C25, C26).
use crate::ch::*;
use crate::leaf::*;
use crate::{s, Scn};
use futures::future::Either;
use futures::io::{
    self, AllowStdIo, AsyncBufRead, AsyncBufReadExt, AsyncRead, AsyncReadExt, AsyncSeek, AsyncSeekExt, AsyncWrite, AsyncWriteExt, BufReader, BufWriter, Cursor, IoSlice, IoSliceMut,
    LineWriter, SeekFrom,
};
use futures::sink::SinkExt;
use futures::stream::{StreamExt, TryStreamExt};
use std::cell::RefCell;
use std::future::Future;
use std::io::{Error, ErrorKind, Result};
use std::pin::Pin;
use std::task::{Context, Poll};

// ---- leaves -------------------------------------------------------------------------------

#[derive(Default, Clone)]
struct RLog {
    data: Vec<u8>,
    pos: u64,
    /// errors raised so far
    raised: u32,
    eof: u32,
}
#[derive(Default, Clone)]
struct WLog {
    got: Vec<u8>,
    flushed: usize,
    closing: bool,
    closed: bool,
    raised: u32,
    zeros: u32,
    shorts: u32,
    pos: usize,
}
#[derive(Default)]
struct Io {
    r: Vec<RLog>,
    w: Vec<WLog>,
    /// short reads, errors and pending polls draw on one budget
    shared: bool,
    /// what a leaf raised in the current poll and nobody has reported
    err: Option<u32>,
    nerr: u32,
    /// WouldBlock means pending here (futures 0.1)
    bridged: bool,
}
thread_local! { static IO: RefCell<Io> = RefCell::new(Io::default()); }
pub fn reset_io() {
    IO.with(|i| *i.borrow_mut() = Io::default());
}
fn io_<R>(f: impl FnOnce(&mut Io) -> R) -> R {
    IO.with(|i| f(&mut i.borrow_mut()))
}
/// Is there budget left for a disturbance?
fn may() -> bool {
    !io_(|i| i.shared) || w(|w| w.pend > 0)
}
fn spend() {
    if io_(|i| i.shared) {
        w(|w| w.pend -= 1);
    }
}
pub fn shared(n: u32) {
    budget(n, 0);
    io_(|i| i.shared = true);
}
fn rlog(i: usize) -> RLog {
    io_(|x| x.r[i].clone())
}
fn wlog(i: usize) -> WLog {
    io_(|x| x.w[i].clone())
}
fn raise() -> Error {
    let n = io_(|i| {
        i.nerr += 1;
        i.err = Some(i.nerr);
        i.nerr
    });
    note(|| format!("  error {n} raised"));
    let kinds = [ErrorKind::Interrupted, ErrorKind::Other, ErrorKind::UnexpectedEof, ErrorKind::BrokenPipe, ErrorKind::InvalidData, ErrorKind::InvalidInput, ErrorKind::WouldBlock];
    let m = if io_(|i| i.bridged) { 6 } else { 7 };
    let k = kinds[if n == 1 && long() { fchoose(m) } else { (n as usize * 5 + steps() as usize) % m }];
    Error::new(k, format!("e{n}"))
}
/// Does it look like one of the leaves' errors (and not like one of the library's own)?
fn leafs(e: &Error) -> bool {
    let m = e.to_string();
    m.starts_with('e') && m.len() > 1 && m[1..].chars().all(|c| c.is_ascii_digit())
}
/// The error the thing under test reports: must be the one a leaf just raised.
fn surfaced(e: &Error, zero_ok: bool) {
    let m = io_(|i| i.err.take());
    if e.kind() == ErrorKind::WriteZero && zero_ok {
        return;
    }
    let n = match m {
        Some(n) => n,
        None => fail(format!("reports an error nothing raised: {e:?}")),
    };
    check!(e.to_string() == format!("e{n}"), "reports {e:?} instead of error {n}");
}
fn no_err(what: &str) {
    check!(io_(|i| i.err).is_none(), "{what} although an error was raised");
}

/// A leaf reader: any chunking, any pending polls, errors; seekable; buffered.
pub struct Rd {
    id: usize,
    n: usize,
    /// end of the buffered part (for fill_buf)
    fill: u64,
    short: u32,
    errs: u32,
    win: usize,
    /// the end has been reported: from now on it is reported at once
    at_eof: bool,
}
fn rd(data: Vec<u8>, short: u32, errs: u32) -> Rd {
    let n = io_(|i| {
        i.r.push(RLog { data, ..Default::default() });
        i.r.len() - 1
    });
    Rd { id: new_leaf("reader"), n, fill: 0, short, errs, win: 3, at_eof: false }
}
impl Rd {
    fn l<R>(&self, f: impl FnOnce(&mut RLog) -> R) -> R {
        io_(|i| f(&mut i.r[self.n]))
    }
    fn left(&self) -> usize {
        self.l(|l| (l.data.len() as u64).saturating_sub(l.pos) as usize)
    }
    fn err(&mut self) -> bool {
        if self.errs > 0 && may() && flip() {
            self.errs -= 1;
            spend();
            self.l(|l| l.raised += 1);
            return true;
        }
        false
    }
    /// how many bytes to give, of at most `max`
    fn chunk(&mut self, max: usize) -> usize {
        if max <= 1 || self.short == 0 || !may() {
            return max;
        }
        let k = choose(max.min(3));
        if k == 0 {
            max
        } else {
            self.short -= 1;
            spend();
            k
        }
    }
    fn get(&mut self, cx: &mut Context<'_>, max: usize) -> Poll<Result<Vec<u8>>> {
        let pos = self.l(|l| l.pos);
        let buffered = (self.fill - pos.min(self.fill)) as usize;
        let k = if buffered > 0 {
            self.chunk(max.min(buffered))
        } else if self.at_eof {
            0
        } else {
            if !gate(self.id, cx) {
                return Poll::Pending;
            }
            if self.err() {
                return Poll::Ready(Err(raise()));
            }
            let m = max.min(self.left());
            self.at_eof = m == 0;
            self.chunk(m)
        };
        let v = self.l(|l| {
            let p = (l.pos as usize).min(l.data.len());
            let v = l.data[p..p + k].to_vec();
            l.pos += k as u64;
            if k == 0 {
                l.eof += 1;
            }
            v
        });
        self.fill = self.fill.max(self.l(|l| l.pos));
        note(|| format!("  reader{} gives {:?}", self.n, v));
        Poll::Ready(Ok(v))
    }
}
impl AsyncRead for Rd {
    fn poll_read(mut self: Pin<&mut Self>, cx: &mut Context<'_>, buf: &mut [u8]) -> Poll<Result<usize>> {
        if buf.is_empty() {
            return Poll::Ready(Ok(0));
        }
        match self.get(cx, buf.len()) {
            Poll::Ready(Ok(v)) => {
                buf[..v.len()].copy_from_slice(&v);
                Poll::Ready(Ok(v.len()))
            }
            Poll::Ready(Err(e)) => Poll::Ready(Err(e)),
            Poll::Pending => Poll::Pending,
        }
    }
    fn poll_read_vectored(mut self: Pin<&mut Self>, cx: &mut Context<'_>, bufs: &mut [IoSliceMut<'_>]) -> Poll<Result<usize>> {
        let total: usize = bufs.iter().map(|b| b.len()).sum();
        if total == 0 {
            return Poll::Ready(Ok(0));
        }
        match self.get(cx, total) {
            Poll::Ready(Ok(v)) => {
                let mut i = 0;
                for b in bufs {
                    for x in b.iter_mut() {
                        if i < v.len() {
                            *x = v[i];
                            i += 1;
                        }
                    }
                }
                Poll::Ready(Ok(v.len()))
            }
            Poll::Ready(Err(e)) => Poll::Ready(Err(e)),
            Poll::Pending => Poll::Pending,
        }
    }
}
impl AsyncBufRead for Rd {
    fn poll_fill_buf(self: Pin<&mut Self>, cx: &mut Context<'_>) -> Poll<Result<&[u8]>> {
        let this = self.get_mut();
        let pos = this.l(|l| l.pos);
        if this.fill <= pos && !this.at_eof {
            if !gate(this.id, cx) {
                return Poll::Pending;
            }
            if this.err() {
                return Poll::Ready(Err(raise()));
            }
            let m = this.left().min(this.win);
            this.at_eof = m == 0;
            let k = this.chunk(m);
            this.fill = pos + k as u64;
        }
        let (a, b) = (pos, this.fill);
        // the data of a leaf never changes or moves
        let s: &[u8] = this.l(|l| {
            let d: &[u8] = &l.data;
            let d: &'static [u8] = unsafe { std::mem::transmute(d) };
            let n = d.len() as u64;
            &d[a.min(n) as usize..b.min(n) as usize]
        });
        note(|| format!("  reader{} buffer {:?}", this.n, s));
        Poll::Ready(Ok(s))
    }
    fn consume(self: Pin<&mut Self>, amt: usize) {
        let pos = self.l(|l| l.pos);
        check!(pos + amt as u64 <= self.fill.max(pos), "consume({amt}) with only {} bytes given out", self.fill.max(pos) - pos);
        self.l(|l| l.pos += amt as u64);
    }
}
impl AsyncSeek for Rd {
    fn poll_seek(mut self: Pin<&mut Self>, cx: &mut Context<'_>, to: SeekFrom) -> Poll<Result<u64>> {
        if !gate(self.id, cx) {
            return Poll::Pending;
        }
        if self.err() {
            return Poll::Ready(Err(raise()));
        }
        let (p, n) = self.l(|l| (l.pos, l.data.len() as u64));
        match seek_model(p, n, to) {
            Some(q) => {
                self.fill = q;
                self.at_eof = false;
                self.l(|l| l.pos = q);
                note(|| format!("  reader{} seeks to {q}", self.n));
                Poll::Ready(Ok(q))
            }
            None => Poll::Ready(Err(raise())),
        }
    }
}
fn seek_model(p: u64, n: u64, to: SeekFrom) -> Option<u64> {
    match to {
        SeekFrom::Start(x) => Some(x),
        SeekFrom::Current(d) => p.checked_add_signed(d),
        SeekFrom::End(d) => n.checked_add_signed(d),
    }
}
impl Drop for Rd {
    fn drop(&mut self) {
        leaf_dropped(self.id);
    }
}

/// A leaf writer: any short writes, pending polls, errors, zero-length writes; nothing may come
/// after closing has begun.
pub struct Wr {
    wid: usize,
    fid: usize,
    cid: usize,
    n: usize,
    short: u32,
    errs: u32,
    zeros: u32,
    vec: bool,
    full: bool,
    full_after_zero: bool,
}
fn wr(short: u32, errs: u32, zeros: u32) -> Wr {
    let n = io_(|i| {
        i.w.push(WLog::default());
        i.w.len() - 1
    });
    Wr { wid: new_leaf("write"), fid: new_leaf("flush"), cid: new_leaf("close"), n, short, errs, zeros, vec: true, full: false, full_after_zero: false }
}
impl Wr {
    fn l<R>(&self, f: impl FnOnce(&mut WLog) -> R) -> R {
        io_(|i| f(&mut i.w[self.n]))
    }
    fn err(&mut self) -> bool {
        if self.errs > 0 && may() && flip() {
            self.errs -= 1;
            spend();
            self.l(|l| l.raised += 1);
            return true;
        }
        false
    }
    fn put(&mut self, cx: &mut Context<'_>, b: &[u8]) -> Poll<Result<usize>> {
        check!(!self.l(|l| l.closing), "a write after closing has begun");
        if b.is_empty() {
            return Poll::Ready(Ok(0));
        }
        if !gate(self.wid, cx) {
            return Poll::Pending;
        }
        if self.err() {
            return Poll::Ready(Err(raise()));
        }
        if self.full || self.zeros > 0 && flip() {
            self.zeros = self.zeros.saturating_sub(1);
            self.full = self.full_after_zero;
            self.l(|l| l.zeros += 1);
            note(|| format!("  writer{} takes nothing", self.n));
            return Poll::Ready(Ok(0));
        }
        let max = b.len();
        let mut k = max;
        if max > 1 && self.short > 0 {
            let c = choose(max.min(3));
            if c > 0 {
                self.short -= 1;
                self.l(|l| l.shorts += 1);
                k = c;
            }
        }
        note(|| format!("  writer{} takes {:?}", self.n, &b[..k]));
        self.l(|l| {
            for x in &b[..k] {
                if l.pos < l.got.len() {
                    l.got[l.pos] = *x;
                } else {
                    while l.got.len() < l.pos {
                        l.got.push(0);
                    }
                    l.got.push(*x);
                }
                l.pos += 1;
            }
        });
        Poll::Ready(Ok(k))
    }
}
impl AsyncWrite for Wr {
    fn poll_write(mut self: Pin<&mut Self>, cx: &mut Context<'_>, b: &[u8]) -> Poll<Result<usize>> {
        self.put(cx, b)
    }
    fn poll_write_vectored(mut self: Pin<&mut Self>, cx: &mut Context<'_>, bs: &[IoSlice<'_>]) -> Poll<Result<usize>> {
        let v: Vec<u8> = if self.vec { bs.iter().flat_map(|b| b.iter().copied()).collect() } else { bs.iter().find(|b| !b.is_empty()).map(|b| b.to_vec()).unwrap_or_default() };
        self.put(cx, &v)
    }
    fn poll_flush(mut self: Pin<&mut Self>, cx: &mut Context<'_>) -> Poll<Result<()>> {
        check!(!self.l(|l| l.closing), "a flush after closing has begun");
        if self.l(|l| l.flushed == l.got.len()) {
            return Poll::Ready(Ok(()));
        }
        if !gate(self.fid, cx) {
            return Poll::Pending;
        }
        if self.err() {
            return Poll::Ready(Err(raise()));
        }
        note(|| format!("  writer{} flushed", self.n));
        self.l(|l| l.flushed = l.got.len());
        Poll::Ready(Ok(()))
    }
    fn poll_close(mut self: Pin<&mut Self>, cx: &mut Context<'_>) -> Poll<Result<()>> {
        check!(!self.l(|l| l.closed), "closed twice");
        self.l(|l| l.closing = true);
        if !gate(self.cid, cx) {
            return Poll::Pending;
        }
        if self.err() {
            return Poll::Ready(Err(raise()));
        }
        note(|| format!("  writer{} closed", self.n));
        self.l(|l| {
            l.flushed = l.got.len();
            l.closed = true;
        });
        Poll::Ready(Ok(()))
    }
}
impl AsyncSeek for Wr {
    fn poll_seek(mut self: Pin<&mut Self>, cx: &mut Context<'_>, to: SeekFrom) -> Poll<Result<u64>> {
        if !gate(self.fid, cx) {
            return Poll::Pending;
        }
        if self.err() {
            return Poll::Ready(Err(raise()));
        }
        let (p, n) = self.l(|l| (l.pos, l.got.len()));
        match seek_model(p as u64, n as u64, to) {
            Some(q) => {
                self.l(|l| l.pos = q as usize);
                Poll::Ready(Ok(q))
            }
            None => Poll::Ready(Err(raise())),
        }
    }
}
impl Drop for Wr {
    fn drop(&mut self) {
        leaf_dropped(self.wid);
        leaf_dropped(self.fid);
        leaf_dropped(self.cid);
    }
}
/// A duplex leaf.
struct Duplex {
    r: Rd,
    w: Wr,
}
impl AsyncRead for Duplex {
    fn poll_read(mut self: Pin<&mut Self>, cx: &mut Context<'_>, buf: &mut [u8]) -> Poll<Result<usize>> {
        Pin::new(&mut self.r).poll_read(cx, buf)
    }
    fn poll_read_vectored(mut self: Pin<&mut Self>, cx: &mut Context<'_>, bufs: &mut [IoSliceMut<'_>]) -> Poll<Result<usize>> {
        Pin::new(&mut self.r).poll_read_vectored(cx, bufs)
    }
}
impl AsyncBufRead for Duplex {
    fn poll_fill_buf(self: Pin<&mut Self>, cx: &mut Context<'_>) -> Poll<Result<&[u8]>> {
        Pin::new(&mut self.get_mut().r).poll_fill_buf(cx)
    }
    fn consume(mut self: Pin<&mut Self>, amt: usize) {
        Pin::new(&mut self.r).consume(amt)
    }
}
impl AsyncWrite for Duplex {
    fn poll_write(mut self: Pin<&mut Self>, cx: &mut Context<'_>, b: &[u8]) -> Poll<Result<usize>> {
        Pin::new(&mut self.w).poll_write(cx, b)
    }
    fn poll_write_vectored(mut self: Pin<&mut Self>, cx: &mut Context<'_>, bs: &[IoSlice<'_>]) -> Poll<Result<usize>> {
        Pin::new(&mut self.w).poll_write_vectored(cx, bs)
    }
    fn poll_flush(mut self: Pin<&mut Self>, cx: &mut Context<'_>) -> Poll<Result<()>> {
        Pin::new(&mut self.w).poll_flush(cx)
    }
    fn poll_close(mut self: Pin<&mut Self>, cx: &mut Context<'_>) -> Poll<Result<()>> {
        Pin::new(&mut self.w).poll_close(cx)
    }
}
fn bytes(from: u8, n: usize) -> Vec<u8> {
    (0..n as u8).map(|i| from + i).collect()
}
fn upto(from: u8, max: usize) -> Vec<u8> {
    bytes(from, count(max))
}

// ---- driving a reader -----------------------------------------------------------------------

enum Un {
    R(Pin<Box<dyn AsyncRead>>),
    B(Pin<Box<dyn AsyncBufRead>>),
}
fn ur(r: impl AsyncRead + 'static) -> Un {
    Un::R(Box::pin(r))
}
fn ub(r: impl AsyncBufRead + 'static) -> Un {
    Un::B(Box::pin(r))
}
impl Un {
    fn r(&mut self) -> Pin<&mut dyn AsyncRead> {
        match self {
            Un::R(r) => r.as_mut(),
            Un::B(r) => unsafe { r.as_mut().map_unchecked_mut(|x| x as &mut dyn AsyncRead) },
        }
    }
    fn b(&mut self) -> Option<Pin<&mut dyn AsyncBufRead>> {
        match self {
            Un::R(_) => None,
            Un::B(r) => Some(r.as_mut()),
        }
    }
}
#[derive(Clone, Copy, Debug, PartialEq)]
enum ROp {
    Read(usize),
    Vec(usize, usize),
    Fill,
}
/// Read everything with any mix of operations: exactly `data` has to come out, then EOF.
/// Reads until EOF has been reported `eofs` times; `dead`: after an error, the end is due.
fn read_all(d: &mut Driver, mut u: Un, data: &[u8], ops: &[ROp], dead: bool) {
    let mut pos = 0;
    let mut data = data.to_vec();
    let mut eofs = 0;
    let mut fills: u32 = 2;
    let mut empties = 1;
    // how often another operation may follow a pending one, and how often operations may differ
    let mut switch = 1;
    let mut pend: Option<ROp> = None;
    while eofs < 2 {
        let mut o: Vec<ROp> = ops.to_vec();
        if eofs == 1 {
            o.retain(|x| matches!(x, ROp::Read(1) | ROp::Fill));
        }
        if fills == 0 {
            o.retain(|x| *x != ROp::Fill);
        }
        if empties == 0 {
            o.retain(|x| !matches!(x, ROp::Read(0) | ROp::Vec(0, 0)));
        }
        let op = match pend.take() {
            Some(p) if switch == 0 || !flip() => p,
            Some(_) => {
                switch -= 1;
                o[choose(o.len())]
            }
            None => o[choose(o.len())],
        };
        note(|| format!("{op:?}"));
        match op {
            ROp::Read(k) => {
                if k == 0 && empties > 0 {
                    empties -= 1;
                }
                let mut buf = vec![0xEE; k + 1];
                let r = d.poll(|cx| u.r().poll_read(cx, &mut buf[..k]));
                check!(buf[k] == 0xEE, "wrote past the end of the buffer");
                match r {
                    Poll::Pending => {
                        no_err("pending");
                        pend = Some(op);
                        if !d.wait() {
                            return;
                        }
                    }
                    Poll::Ready(Ok(n)) => {
                        no_err("read succeeded");
                        check!(n <= k, "read claims {n} bytes of {k}");
                        check!(pos + n <= data.len() && buf[..n] == data[pos..pos + n], "read gave {:?}, expected a part of {:?}", &buf[..n], &data[pos..]);
                        check!(buf[n..k].iter().all(|b| *b == 0xEE), "read claims {n} bytes but changed more: {:?}", buf);
                        if n == 0 && k > 0 {
                            check!(pos == data.len(), "end of file reported with {} bytes to come", data.len() - pos);
                            eofs += 1;
                        }
                        pos += n;
                    }
                    Poll::Ready(Err(e)) => {
                        surfaced(&e, false);
                        if dead {
                            data.truncate(pos);
                        }
                    }
                }
            }
            ROp::Vec(a, b) => {
                if a + b == 0 && empties > 0 {
                    empties -= 1;
                }
                let (mut x, mut y) = (vec![0xEE; a], vec![0xEE; b]);
                let r = d.poll(|cx| u.r().poll_read_vectored(cx, &mut [IoSliceMut::new(&mut x), IoSliceMut::new(&mut y)]));
                match r {
                    Poll::Pending => {
                        no_err("pending");
                        pend = Some(op);
                        if !d.wait() {
                            return;
                        }
                    }
                    Poll::Ready(Ok(n)) => {
                        no_err("read succeeded");
                        let all: Vec<u8> = x.iter().chain(y.iter()).copied().collect();
                        check!(n <= all.len(), "read claims {n} bytes of {}", all.len());
                        check!(pos + n <= data.len() && all[..n] == data[pos..pos + n], "read_vectored gave {:?}, expected a part of {:?}", &all[..n], &data[pos..]);
                        if n == 0 && a + b > 0 {
                            check!(pos == data.len(), "end of file reported with {} bytes to come", data.len() - pos);
                            eofs += 1;
                        }
                        pos += n;
                    }
                    Poll::Ready(Err(e)) => {
                        surfaced(&e, false);
                        if dead {
                            data.truncate(pos);
                        }
                    }
                }
            }
            ROp::Fill => {
                fills = fills.saturating_sub(1);
                let r = d.poll(|cx| match u.b().unwrap().poll_fill_buf(cx) {
                    Poll::Pending => Poll::Pending,
                    Poll::Ready(Ok(b)) => Poll::Ready(Ok(b.to_vec())),
                    Poll::Ready(Err(e)) => Poll::Ready(Err(e)),
                });
                match r {
                    Poll::Pending => {
                        no_err("pending");
                        pend = Some(op);
                        if !d.wait() {
                            return;
                        }
                    }
                    Poll::Ready(Ok(b)) => {
                        no_err("fill_buf succeeded");
                        let n = b.len();
                        check!(pos + n <= data.len() && b == data[pos..pos + n], "fill_buf gave {:?}, expected a part of {:?}", b, &data[pos..]);
                        if n == 0 {
                            check!(pos == data.len(), "end of file reported with {} bytes to come", data.len() - pos);
                            eofs += 1;
                        }
                        let c = choose(n + 1);
                        note(|| format!("consume {c}"));
                        u.b().unwrap().consume(c);
                        pos += c;
                    }
                    Poll::Ready(Err(e)) => {
                        surfaced(&e, false);
                        if dead {
                            data.truncate(pos);
                        }
                    }
                }
            }
        }
    }
    obs(pos as u64 + d.polls * 16);
}
const ALL: &[ROp] = &[ROp::Read(1), ROp::Read(4), ROp::Read(0), ROp::Vec(1, 1), ROp::Fill];
const RO: &[ROp] = &[ROp::Read(1), ROp::Read(3), ROp::Read(0), ROp::Vec(1, 1), ROp::Vec(0, 0)];

fn io_buf_reader(b: u32) {
    shared(b);
    strict();
    let data = upto(1, 3);
    let r = rd(data.clone(), 2, 1);
    let cap = choose(3) + 1;
    let mut d = Driver::fixed(0);
    read_all(&mut d, ub(BufReader::with_capacity(cap, r)), &data, ALL, false);
}
fn io_leaf_wrap(b: u32) {
    shared(b);
    strict();
    let data = upto(1, 2);
    let r = rd(data.clone(), 1, 1);
    let mut d = Driver::fixed(1);
    let u = match choose(9) {
        0 => ub(Box::new(r)),
        1 => ub(Box::pin(r)),
        2 => {
            let p: *mut Rd = Box::into_raw(Box::new(r));
            let _g = Unleak(p);
            read_all(&mut d, ub(unsafe { &mut *p }), &data, ALL, false);
            return;
        }
        3 => ub(Either::<Rd, Cursor<Vec<u8>>>::Left(r)),
        4 => ub(Either::<Cursor<Vec<u8>>, Rd>::Right(r)),
        5 => ub(BufWriter::new(Duplex { r, w: wr(0, 0, 0) })),
        6 => ur(BufReader::new(r).into_inner()),
        7 => {
            let (x, _y) = Duplex { r, w: wr(0, 0, 0) }.split();
            ur(x)
        }
        _ => ub(r),
    };
    let ops = if u_kind(&u) { ALL } else { RO };
    read_all(&mut d, u, &data, ops, false);
}
fn u_kind(u: &Un) -> bool {
    matches!(u, Un::B(_))
}
fn io_std(b: u32) {
    budget(b, 0);
    let data = upto(1, 3);
    let mut d = Driver::fixed(0);
    let st: &'static [u8] = Vec::leak(data.clone());
    let u = match choose(5) {
        0 => ub(Cursor::new(data.clone())),
        1 => ub(st),
        2 => ub(AllowStdIo::new(st)),
        3 => ub(AllowStdIo::new(std::io::BufReader::with_capacity(2, st))),
        _ => return read_all(&mut d, ub(io::empty()), &[], ALL, false),
    };
    read_all(&mut d, u, &data, ALL, false);
}
fn io_take(b: u32) {
    shared(b);
    strict();
    let data = upto(1, 3);
    let r = rd(data.clone(), 2, 1);
    let lim = [0, 1, 2, 3, 1 << 32, (1 << 32) + 1, u64::MAX][choose(if huge() { 7 } else { 4.min(data.len() + 2) })];
    let exp = data[..data.len().min(lim as usize)].to_vec();
    let mut d = Driver::fixed(1);
    let l2 = exp.len() as u64;
    on_pending(move || check!(io_(|i| i.r[0].pos) <= l2, "took more than the limit from the reader"));
    let t = r.take(lim);
    check!(t.limit() == lim, "limit() wrong");
    read_all(&mut d, ub(t), &exp, ALL, false);
    check!(rlog(0).pos == exp.len() as u64, "the reader is left at {} instead of {}", rlog(0).pos, exp.len());
    if lim as usize <= data.len() {
        check!(rlog(0).eof == 0, "the reader was asked for more after the limit was reached");
    }
}
/// Reading on from the reader inside after the limit.
fn io_take_inner(b: u32) {
    budget(b, 0);
    strict();
    let data = upto(1, 4);
    let r = rd(data.clone(), 2, 0);
    let lim = [0, 1, 2, 3, 1 << 32, (1 << 32) + 1, usize::MAX][choose(7)];
    let mut d = Driver::fixed(1);
    let mut t = r.take(lim as u64);
    let mut v = vec![];
    let n = match drive(&mut d, Pin::new(&mut t.read_to_end(&mut v))) {
        Some(n) => n.unwrap(),
        None => return,
    };
    let exp = data.len().min(lim);
    check!(n == exp && v == data[..exp], "take({lim}) gave {v:?}");
    check!(t.limit() == (lim - n) as u64, "limit() is {} after {n} of {lim} bytes", t.limit());
    let v2 = if flip() {
        let lim2 = [0, 1, 2, 3, 1 << 32, usize::MAX][choose(6)];
        t.set_limit(lim2 as u64);
        let mut v = vec![];
        if drive(&mut d, Pin::new(&mut t.read_to_end(&mut v))).is_none() {
            return;
        }
        let exp2 = (data.len() - exp).min(lim2);
        check!(v == data[exp..exp + exp2], "after set_limit({lim2}): {v:?}");
        v.len()
    } else {
        0
    };
    let mut r = t.into_inner();
    let mut v = vec![];
    if drive(&mut d, Pin::new(&mut r.read_to_end(&mut v))).is_none() {
        return;
    }
    check!(v == data[exp + v2..], "the reader behind take({lim}) goes on with {v:?}");
}
/// Only the required methods: everything else is the trait's default.
struct Df<T>(T);
impl<T: AsyncRead + Unpin> AsyncRead for Df<T> {
    fn poll_read(mut self: Pin<&mut Self>, cx: &mut Context<'_>, buf: &mut [u8]) -> Poll<Result<usize>> {
        Pin::new(&mut self.0).poll_read(cx, buf)
    }
}
impl<T: AsyncBufRead + Unpin> AsyncBufRead for Df<T> {
    fn poll_fill_buf(self: Pin<&mut Self>, cx: &mut Context<'_>) -> Poll<Result<&[u8]>> {
        Pin::new(&mut self.get_mut().0).poll_fill_buf(cx)
    }
    fn consume(mut self: Pin<&mut Self>, n: usize) {
        Pin::new(&mut self.0).consume(n)
    }
}
impl<T: AsyncWrite + Unpin> AsyncWrite for Df<T> {
    fn poll_write(mut self: Pin<&mut Self>, cx: &mut Context<'_>, b: &[u8]) -> Poll<Result<usize>> {
        Pin::new(&mut self.0).poll_write(cx, b)
    }
    fn poll_flush(mut self: Pin<&mut Self>, cx: &mut Context<'_>) -> Poll<Result<()>> {
        Pin::new(&mut self.0).poll_flush(cx)
    }
    fn poll_close(mut self: Pin<&mut Self>, cx: &mut Context<'_>) -> Poll<Result<()>> {
        Pin::new(&mut self.0).poll_close(cx)
    }
}
/// Vectored reads whose first buffers may be empty, through readers that know them and readers that do not.
fn io_vectored(b: u32) {
    budget(b, 0);
    strict();
    let data = upto(1, 2);
    let r = rd(data.clone(), 1, 0);
    let mut d = Driver::fixed(1);
    let u = match choose(9) {
        0 => ur(Df(r)),
        1 => ub(r.take(500)),
        2 => ub(Df(r).take(500)),
        3 => ub(BufReader::with_capacity(2, Df(r))),
        4 => ub(BufReader::with_capacity(4, r)),
        5 => ub(Df(r).chain(Df(rd(vec![], 0, 0)))),
        6 => ur(Box::pin(Df(r))),
        7 => ur(Either::<Df<Rd>, Rd>::Left(Df(r))),
        _ => ub(BufReader::new(r.take(500))),
    };
    read_all(&mut d, u, &data, &[ROp::Vec(0, 2), ROp::Vec(1, 1), ROp::Vec(2, 0), ROp::Read(1)], false);
}
fn io_write_default(b: u32) {
    budget(b, 0);
    strict();
    let data = bytes(1, 12);
    let w = wr(1, 1, 1);
    let mut d = Driver::fixed(0);
    let cap = choose(4);
    let ops = vec![WOp::Vec(0, 2), WOp::Vec(1, 2), WOp::Vec(0, 1), WOp::Write(1), WOp::Flush];
    let o = WO { ops, n: 3, cap: cap.saturating_sub(1), line: false, buffer: None };
    let u: Pin<Box<dyn AsyncWrite>> = match cap {
        0 => Box::pin(Df(w)),
        _ => Box::pin(BufWriter::with_capacity(cap - 1, Df(w))),
    };
    write_all_ops(&mut d, u, &data, o);
}
fn io_chain(b: u32) {
    shared(b);
    strict();
    let (x, y) = (upto(1, 2), upto(11, 2));
    let exp: Vec<u8> = x.iter().chain(&y).copied().collect();
    let (r1, r2) = (rd(x, 1, 1), rd(y, 1, 1));
    let mut d = Driver::fixed(1);
    let c = r1.chain(r2);
    let ops: &[ROp] = if flip() { &[ROp::Read(1), ROp::Read(3), ROp::Fill] } else { &[ROp::Vec(1, 1), ROp::Read(0), ROp::Vec(0, 0), ROp::Read(1)] };
    read_all(&mut d, ub(c), &exp, ops, false);
    check!(rlog(0).eof <= 1, "the first reader is read again after its end");
}
fn io_compose(b: u32) {
    shared(b);
    strict();
    let (x, y) = (upto(1, 2), upto(11, 2));
    let mut exp: Vec<u8> = x.iter().chain(&y).copied().collect();
    let (r1, r2) = (rd(x, 1, 1), rd(y, 1, 0));
    let lim = choose(4);
    exp.truncate(lim);
    let mut d = Driver::fixed(1);
    let ops = &[ROp::Read(1), ROp::Read(3), ROp::Fill];
    let u = match choose(3) {
        0 => ub(BufReader::with_capacity(2, r1.chain(r2)).take(lim as u64)),
        1 => ub(BufReader::with_capacity(2, r1.chain(r2).take(lim as u64))),
        _ => ub(BufReader::with_capacity(1, BufReader::with_capacity(3, r1).chain(r2)).take(lim as u64)),
    };
    read_all(&mut d, u, &exp, ops, false);
}
fn io_into_async_read(b: u32) {
    budget(b, 0);
    strict();
    let n = choose(3);
    let mut exp = vec![];
    let mut items: Vec<Result<Vec<u8>>> = vec![];
    for i in 0..n {
        let c = upto(10 * i as u8 + 1, 2);
        exp.extend(&c);
        items.push(Ok(c));
    }
    let err = flip();
    if err {
        items.push(Err(Error::new(ErrorKind::Other, "e1")));
        items.push(Ok(vec![99]));
    }
    let tags = (0..items.len() as u32).collect();
    let st = src_of(items, tags);
    let mut d = Driver::fixed(1);
    // the error is raised by the stream, not by a Rd
    if err {
        io_(|i| i.err = None);
    }
    let r = st.inspect(|x| if x.is_err() { io_(|i| i.err = Some(1)) }).into_async_read();
    read_all(&mut d, ub(r), &exp, &[ROp::Read(1), ROp::Read(2), ROp::Fill], true);
    if err {
        check!(io_(|i| i.err).is_none(), "the stream's error got lost");
    }
}
fn io_split(b: u32) {
    budget(b, 0);
    strict();
    let data = upto(1, 2);
    let mut d = Driver::fixed(1);
    let (r, mut wh) = Duplex { r: rd(data.clone(), 1, 1), w: wr(1, 1, 0) }.split();
    let (mut u, out) = (r, upto(50, 2));
    // one task drives both halves
    let dat = data.clone();
    let o2 = out.clone();
    let f = async {
        let rf = async {
            let mut v = vec![];
            loop {
                match u.read_to_end(&mut v).await {
                    Ok(_) => break,
                    Err(e) => check!(e.to_string().starts_with('e'), "unexpected error {e}"),
                }
            }
            check!(v == dat, "the read half gave {v:?}");
        };
        let wf = async {
            loop {
                // write_all cannot be resumed after an error, so go byte by byte
                let done = wlog(0).got.len();
                if done == o2.len() {
                    break;
                }
                let _ = wh.write(&o2[done..]).await;
            }
            while wh.flush().await.is_err() {}
            check!(wlog(0).flushed == o2.len(), "flush completed early");
            while wh.close().await.is_err() {}
            check!(wlog(0).closed, "close completed early");
        };
        futures::join!(rf, wf);
    };
    let mut f = Box::pin(f);
    if drive(&mut d, f.as_mut()).is_none() {
        return;
    }
    drop(f);
    check!(wlog(0).got == out, "the write half wrote {:?}", wlog(0).got);
    check!(u.is_pair_of(&wh) && wh.is_pair_of(&u), "the halves do not know each other");
    let t = if flip() { u.reunite(wh) } else { wh.reunite(u) };
    check!(t.is_ok(), "reunite of a pair failed");
}
/// The two halves in two tasks, each with its own waker.
fn io_split_tasks(b: u32) {
    budget(b + 1, 0);
    let data = upto(1, 2);
    let out = bytes(50, choose(3));
    let (mut r, mut wh) = Duplex { r: rd(data.clone(), 1, 0), w: wr(1, 0, 0) }.split();
    let dat = data.clone();
    let o2 = out.clone();
    let mut rf = Some(Box::pin(async move {
        let mut v = vec![];
        r.read_to_end(&mut v).await.unwrap();
        check!(v == dat, "the read half gave {v:?}");
        r
    }));
    let mut wf = Some(Box::pin(async move {
        wh.write_all(&o2).await.unwrap();
        wh.flush().await.unwrap();
        wh
    }));
    let (fa, fb) = (flag(), flag());
    let (mut na, mut nb) = (0, 0);
    let (mut ra, mut rb) = (None, None);
    let (mut pa, mut pb) = (true, true);
    let ld = |f: &std::sync::Arc<Flag>| f.n.load(std::sync::atomic::Ordering::SeqCst);
    while rf.is_some() || wf.is_some() {
        let mut o: Vec<isize> = vec![];
        if rf.is_some() && (pa || ld(&fa) > na) {
            o.push(-1);
        }
        if wf.is_some() && (pb || ld(&fb) > nb) {
            o.push(-2);
        }
        for i in waiting() {
            o.push(i as isize);
        }
        if o.is_empty() {
            fail_kind("stuck", format!("a half waits and nothing will wake it ({})", leaves_desc()));
        }
        step();
        match o[choose(o.len())] {
            -1 => {
                pa = false;
                na = ld(&fa);
                w(|w| w.poll_no += 1);
                let wk = fa.clone().into();
                if let Poll::Ready(x) = rf.as_mut().unwrap().as_mut().poll(&mut Context::from_waker(&wk)) {
                    ra = Some(x);
                    rf = None;
                }
            }
            -2 => {
                pb = false;
                nb = ld(&fb);
                w(|w| w.poll_no += 1);
                let wk = fb.clone().into();
                if let Poll::Ready(x) = wf.as_mut().unwrap().as_mut().poll(&mut Context::from_waker(&wk)) {
                    rb = Some(x);
                    wf = None;
                }
            }
            i => fire(i as usize),
        }
    }
    check!(wlog(0).got == out, "the write half wrote {:?}", wlog(0).got);
    check!(ra.unwrap().reunite(rb.unwrap()).is_ok(), "reunite of a pair failed");
}
fn io_seek(b: u32) {
    budget(b - 1, 0);
    strict();
    let data = bytes(1, 4);
    let n = data.len() as u64;
    let r = rd(data.clone(), 2, 1);
    let cap = if b <= 2 { 1 + 2 * choose(2) } else { choose(3) + 1 };
    let mut br = Box::pin(BufReader::with_capacity(cap, r));
    let mut d = Driver::fixed(0);
    let mut pos = 0u64;
    let rest = |p: u64| data[p.min(n) as usize..].to_vec();
    for _ in 0..b + 2 {
        match choose(4) {
            0 => {
                let k = choose(2) + 1;
                let mut buf = vec![0; k];
                let r = if k == 1 || flip() {
                    drive(&mut d, Pin::new(&mut br.read(&mut buf)))
                } else {
                    let (x, y) = buf.split_at_mut(1);
                    drive(&mut d, Pin::new(&mut br.read_vectored(&mut [IoSliceMut::new(x), IoSliceMut::new(y)])))
                };
                match r {
                    Some(Ok(m)) => {
                        no_err("read");
                        let e = rest(pos);
                        check!(m > 0 || e.is_empty(), "end of file at {pos}");
                        check!(m <= e.len() && buf[..m] == e[..m], "read {:?} at {pos}", &buf[..m]);
                        pos += m as u64;
                    }
                    Some(Err(e)) => surfaced(&e, false),
                    None => return,
                }
            }
            1 => {
                let r = drive(&mut d, Pin::new(&mut br.fill_buf()));
                match r {
                    Some(Ok(x)) => {
                        let x = x.to_vec();
                        no_err("fill_buf");
                        let e = rest(pos);
                        check!(!x.is_empty() || e.is_empty(), "end of file at {pos}");
                        check!(x.len() <= e.len() && x[..] == e[..x.len()], "fill_buf {x:?} at {pos}");
                        let c = x.len().min(1);
                        br.as_mut().consume(c);
                        pos += c as u64;
                    }
                    Some(Err(e)) => surfaced(&e, false),
                    None => return,
                }
            }
            2 => {
                let to = [SeekFrom::Start(1), SeekFrom::Current(0), SeekFrom::Current(-1), SeekFrom::Current(2), SeekFrom::End(-1), SeekFrom::End(1), SeekFrom::Current(i64::MIN)][choose(7)];
                note(|| format!("{to:?}"));
                match drive(&mut d, Pin::new(&mut br.seek(to))) {
                    Some(Ok(p)) => {
                        no_err("seek");
                        let e = seek_model(pos, n, to);
                        check!(Some(p) == e, "{to:?} from {pos} went to {p}");
                        pos = p;
                        check!(rlog(0).pos == pos && br.buffer().is_empty(), "after a seek to {p}, the reader inside is at {}, {} bytes buffered", rlog(0).pos, br.buffer().len());
                    }
                    Some(Err(e)) => surfaced(&e, false),
                    None => return,
                }
            }
            _ => {
                let off = [-1i64, 1, 3, -2, i64::MIN, i64::MAX][choose(6)];
                note(|| format!("seek_relative({off})"));
                match drive(&mut d, Pin::new(&mut br.as_mut().seek_relative(off))) {
                    Some(Ok(())) => {
                        no_err("seek_relative");
                        let e = pos.checked_add_signed(off);
                        check!(e.is_some(), "seek_relative({off}) from {pos} succeeded");
                        pos = e.unwrap();
                    }
                    Some(Err(e)) => surfaced(&e, false),
                    None => return,
                }
            }
        }
        let e = rest(pos);
        let l = br.buffer().len();
        check!(l <= cap && l <= e.len() && br.buffer() == &e[..l], "buffer() is {:?} at {pos}", br.buffer());
    }
    obs(pos);
}

// ---- reading futures ------------------------------------------------------------------------

fn io_read_exact(b: u32) {
    budget(b, 1);
    strict();
    let data = upto(1, 4);
    let mut r = rd(data.clone(), 2, 1);
    let k = choose(4);
    let mut buf = vec![0xEE; k];
    let mut d = Driver::new(1);
    d.cancel = true;
    let res = drive(&mut d, Pin::new(&mut r.read_exact(&mut buf)));
    match res {
        Some(Ok(())) => {
            no_err("read_exact");
            check!(k <= data.len() && buf == data[..k], "read_exact({k}) gave {buf:?}");
            check!(rlog(0).pos == k as u64, "read_exact({k}) took {} bytes", rlog(0).pos);
        }
        Some(Err(e)) if e.kind() == ErrorKind::UnexpectedEof && !leafs(&e) => {
            no_err("UnexpectedEof");
            check!(rlog(0).eof == 1 && data.len() < k, "UnexpectedEof without the end of the file");
        }
        Some(Err(e)) => surfaced(&e, false),
        None => {}
    }
    let p = rlog(0).pos as usize;
    check!(buf[..p.min(k)] == data[..p.min(k)], "the bytes taken are not in the buffer");
    obs(p as u64);
}
fn io_read_to_end(b: u32) {
    budget(b, 1);
    strict();
    let n = [0, 1, 2, 31, 32, 33, 65][choose(7)];
    let data = bytes(1, n);
    let pre = bytes(200, choose(2) * 3);
    let mut r = rd(data.clone(), 2, 1);
    r.win = 40;
    let mut v = Vec::with_capacity([0, 33, 64][choose(3)]);
    v.extend(&pre);
    let mut d = Driver::new(1);
    d.cancel = true;
    let res = drive(&mut d, Pin::new(&mut r.read_to_end(&mut v)));
    let p = rlog(0).pos as usize;
    check!(v[..] == [&pre[..], &data[..p]].concat(), "read_to_end left {v:?} after reading {p} of {n} bytes");
    match res {
        Some(Ok(m)) => {
            no_err("read_to_end");
            check!(p == n && m == n, "read_to_end gave {m} of {n}");
        }
        Some(Err(e)) => surfaced(&e, false),
        None => {}
    }
    obs(p as u64);
}
const ALPHA: [&[u8]; 5] = [b"a", b"\n", b"\r", "\u{e9}".as_bytes(), &[0xFF]];
fn text(max: usize, k: usize) -> Vec<u8> {
    let n = count(max);
    (0..n).flat_map(|_| ALPHA[dchoose(k)].to_vec()).collect()
}
fn io_read_to_string(b: u32) {
    budget(1, 0);
    strict();
    let data = text(b as usize + 1, 5);
    let pre = ["", "pr"][choose(2)];
    let mut r = rd(data.clone(), 2, 1);
    let mut st = String::from(pre);
    let mut d = Driver::fixed(1);
    d.cancel = true;
    let res = drive(&mut d, Pin::new(&mut r.read_to_string(&mut st)));
    let p = rlog(0).pos as usize;
    match res {
        Some(Ok(m)) => {
            no_err("read_to_string");
            check!(std::str::from_utf8(&data).is_ok(), "invalid UTF-8 accepted: {data:?} gives {st:?}");
            check!(m == data.len() && p == m && st.as_bytes() == [pre.as_bytes(), &data].concat(), "read_to_string gave {m}, {st:?} for {data:?}");
        }
        Some(Err(e)) if e.kind() == ErrorKind::InvalidData && !leafs(&e) => {
            no_err("InvalidData");
            check!(std::str::from_utf8(&data).is_err() && p == data.len(), "InvalidData for {data:?}");
            check!(st == pre, "after invalid data the string is {st:?}, it was {pre:?}");
        }
        r => {
            check!(std::str::from_utf8(st.as_bytes()).is_ok(), "interrupted, read_to_string leaves invalid UTF-8 in the string");
            check!(r.is_some() || st == pre, "cancelled, read_to_string leaves {st:?}; it was {pre:?}");
            if let Some(Err(e)) = r {
                surfaced(&e, false)
            }
            check!(st.starts_with(pre) && data[..p].starts_with(st[pre.len()..].as_bytes()), "interrupted, read_to_string leaves {st:?}; it was {pre:?}, read {:?}", &data[..p]);
        }
    }
    obs(p as u64);
}
fn io_read_until(b: u32) {
    budget(b, 0);
    strict();
    let data = text(3, 2);
    let mut r = rd(data.clone(), 2, 1);
    r.win = 3;
    let mut d = Driver::fixed(1);
    let mut pos = 0;
    for _ in 0..2 {
        let mut v = vec![7];
        d.cancel = true;
        let res = drive(&mut d, Pin::new(&mut r.read_until(b'\n', &mut v)));
        let p = rlog(0).pos as usize;
        let end = data[pos..].iter().position(|x| *x == b'\n').map_or(data.len(), |i| pos + i + 1);
        check!(v == [&[7], &data[pos..p]].concat(), "read_until left {v:?} after reading up to {p} of {data:?}");
        check!(p <= end, "read_until read past the delimiter");
        match res {
            Some(Ok(n)) => {
                no_err("read_until");
                check!(p == end && n == p - pos, "read_until gave {n} bytes, stopped at {p} instead of {end}");
            }
            Some(Err(e)) => surfaced(&e, false),
            None => {}
        }
        pos = p;
    }
}
fn io_read_line(b: u32) {
    budget(1, 0);
    strict();
    let data = text(b as usize + 1, 5);
    let mut r = rd(data.clone(), 2, 1);
    let mut d = Driver::fixed(1);
    let mut pos = 0;
    for i in 0..2 {
        d.cancel = i == 0;
        let pre = ["", "pr"][choose(2)];
        let mut st = String::from(pre);
        let res = drive(&mut d, Pin::new(&mut r.read_line(&mut st)));
        let p = rlog(0).pos as usize;
        let end = data[pos..].iter().position(|x| *x == b'\n').map_or(data.len(), |i| pos + i + 1);
        check!(p <= end, "read_line read past the end of the line");
        match res {
            Some(Ok(n)) => {
                no_err("read_line");
                check!(p == end && n == p - pos, "read_line gave {n}, stopped at {p} of {data:?}");
                check!(st.as_bytes() == [pre.as_bytes(), &data[pos..p]].concat(), "read_line gave {st:?} for {:?}", &data[pos..p]);
            }
            Some(Err(e)) if e.kind() == ErrorKind::InvalidData && !leafs(&e) => {
                no_err("InvalidData");
                check!(p == end && std::str::from_utf8(&data[pos..p]).is_err(), "InvalidData for {:?}", &data[pos..p]);
                check!(st == pre, "after invalid data the string is {st:?}, it was {pre:?}");
            }
            r => {
                check!(std::str::from_utf8(st.as_bytes()).is_ok(), "interrupted, read_line leaves invalid UTF-8 in the string");
                check!(r.is_some() || st == pre, "cancelled, read_line leaves {st:?}; it was {pre:?}");
                if let Some(Err(e)) = r {
                    surfaced(&e, false)
                }
                check!(st.starts_with(pre) && data[pos..p].starts_with(st[pre.len()..].as_bytes()), "interrupted, read_line leaves {st:?}; it was {pre:?}, read {:?}", &data[pos..p]);
            }
        }
        pos = p;
    }
    obs(pos as u64);
}
fn io_lines(b: u32) {
    budget(1, 0);
    strict();
    let data = text(b as usize + 1, 5);
    let r = rd(data.clone(), 1, 1);
    let mut d = Driver::fixed(1);
    let mut l = Box::pin(r.lines());
    let mut pos = 0;
    loop {
        let e = loop {
            match d.poll(|cx| futures::Stream::poll_next(l.as_mut(), cx)) {
                Poll::Ready(e) => break e,
                Poll::Pending => {
                    no_err("pending");
                    if !d.wait() {
                        return;
                    }
                }
            }
        };
        let rest = &data[pos..];
        let end = rest.iter().position(|x| *x == b'\n').map_or(rest.len(), |i| i + 1);
        match e {
            None => {
                no_err("end");
                check!(rest.is_empty(), "lines ended with {rest:?} to come");
                break;
            }
            Some(Ok(line)) => {
                no_err("a line");
                check!(!rest.is_empty(), "a line {line:?} after the end");
                let raw = &rest[..end];
                let t = std::str::from_utf8(raw);
                check!(t.is_ok(), "invalid UTF-8 accepted: {line:?} for {raw:?}");
                let t = t.unwrap();
                let t = t.strip_suffix('\n').map(|t| t.strip_suffix('\r').unwrap_or(t)).unwrap_or(t);
                check!(line == t, "line {line:?}, expected {t:?} of {data:?}");
                pos += end;
            }
            Some(Err(e)) if e.kind() == ErrorKind::InvalidData && !leafs(&e) => {
                no_err("InvalidData");
                check!(std::str::from_utf8(&rest[..end]).is_err(), "InvalidData for {:?}", &rest[..end]);
                pos += end;
            }
            // an error in mid-line: the line goes on afterwards
            Some(Err(e)) => surfaced(&e, false),
        }
    }
    obs(pos as u64);
}
fn io_fill_buf(b: u32) {
    budget(b, 1);
    strict();
    let data = upto(1, 3);
    let mut r = rd(data.clone(), 2, 1);
    let mut d = Driver::new(1);
    let mut pos = 0;
    for _ in 0..3 {
        let x = match drive(&mut d, Pin::new(&mut r.fill_buf())) {
            Some(Ok(x)) => x.to_vec(),
            Some(Err(e)) => {
                surfaced(&e, false);
                continue;
            }
            None => return,
        };
        no_err("fill_buf");
        check!(x.is_empty() == (pos == data.len()) && data[pos..].starts_with(&x), "fill_buf gave {x:?} at {pos}");
        let c = choose(x.len() + 1);
        r.consume_unpin(c);
        pos += c;
    }
}
fn io_ext(b: u32) {
    budget(b, 0);
    strict();
    let data = upto(1, 3);
    let mut t = Duplex { r: rd(data.clone(), 1, 1), w: wr(1, 1, 1) };
    let mut d = Driver::new(1);
    let mut pos = 0;
    let mut out = vec![];
    for _ in 0..3 {
        match choose(6) {
            0 => {
                let mut buf = [0; 2];
                match drive(&mut d, Pin::new(&mut t.read(&mut buf))) {
                    Some(Ok(n)) => {
                        no_err("read");
                        check!((n == 0) == (pos == data.len()) && data[pos..].starts_with(&buf[..n]), "read gave {:?}", &buf[..n]);
                        pos += n;
                    }
                    Some(Err(e)) => surfaced(&e, false),
                    None => return,
                }
            }
            1 => {
                let (mut x, mut y) = ([0; 1], [0; 1]);
                let r = drive(&mut d, Pin::new(&mut t.read_vectored(&mut [IoSliceMut::new(&mut x), IoSliceMut::new(&mut y)])));
                match r {
                    Some(Ok(n)) => {
                        no_err("read_vectored");
                        check!((n == 0) == (pos == data.len()) && data[pos..].starts_with(&[x[0], y[0]][..n]), "read_vectored gave {:?}", &[x[0], y[0]][..n]);
                        pos += n;
                    }
                    Some(Err(e)) => surfaced(&e, false),
                    None => return,
                }
            }
            k @ (2 | 3) => {
                let z = wlog(0).zeros;
                let buf = [100, 101, 102];
                let r = if k == 2 { drive(&mut d, Pin::new(&mut t.write(&buf))) } else { drive(&mut d, Pin::new(&mut t.write_vectored(&[IoSlice::new(&buf[..1]), IoSlice::new(&buf[1..])]))) };
                match r {
                    Some(Ok(n)) => {
                        no_err("write");
                        check!(n > 0 || wlog(0).zeros > z, "write took nothing");
                        out.extend(&buf[..n]);
                        check!(wlog(0).got == out, "writer got {:?}, {:?} accepted", wlog(0).got, out);
                    }
                    Some(Err(e)) => surfaced(&e, false),
                    None => return,
                }
            }
            4 => match drive(&mut d, Pin::new(&mut t.flush())) {
                Some(Ok(())) => {
                    no_err("flush");
                    check!(wlog(0).flushed == out.len(), "flush completed early");
                }
                Some(Err(e)) => surfaced(&e, false),
                None => return,
            },
            _ => {
                match drive(&mut d, Pin::new(&mut t.close())) {
                    Some(Ok(())) => {
                        no_err("close");
                        check!(wlog(0).closed, "close completed early");
                    }
                    Some(Err(e)) => surfaced(&e, false),
                    None => return,
                }
                break;
            }
        }
    }
    obs(pos as u64 + out.len() as u64 * 8);
}
fn copy_model(res: Option<Result<u64>>, data: &[u8], exact: bool) {
    let (l, wl) = (rlog(0), wlog(0));
    check!(data.starts_with(&wl.got), "the writer got {:?} of {data:?}", wl.got);
    check!(!exact || l.pos == wl.got.len() as u64, "{} bytes taken from the reader, {} written", l.pos, wl.got.len());
    match res {
        Some(Ok(n)) => {
            no_err("copy");
            check!(wl.got == data && n == data.len() as u64, "copied {n} bytes, {} written, of {}", wl.got.len(), data.len());
            check!(wl.flushed == data.len(), "copy completed without flushing");
        }
        Some(Err(e)) => {
            let z = wl.zeros > 0;
            surfaced(&e, z);
        }
        None => {}
    }
    obs(wl.got.len() as u64);
}
fn io_copy(b: u32) {
    budget(b, 1);
    strict();
    let data = upto(1, 4);
    let r = rd(data.clone(), 2, 1);
    let mut w = wr(2, 1, 1);
    w.full_after_zero = true;
    let mut d = Driver::new(1);
    d.cancel = true;
    let (res, ex) = match choose(3) {
        0 => (drive(&mut d, Box::pin(io::copy(r, &mut w)).as_mut()), false),
        1 => (drive(&mut d, Box::pin(io::copy_buf(r, &mut w)).as_mut()), true),
        _ => (drive(&mut d, Box::pin(io::copy_buf(BufReader::with_capacity(2, r), &mut w)).as_mut()), false),
    };
    copy_model(res, &data, ex);
}
fn io_copy_abortable(b: u32) {
    budget(b + 1, 1);
    let data = upto(1, 3);
    let r = rd(data.clone(), 2, 1);
    let mut wv = wr(1, 1, 1);
    let (f, h) = io::copy_buf_abortable(r, &mut wv);
    let mut f = Box::pin(f);
    let mut aborted = flip();
    if aborted {
        h.abort();
    }
    let mut d = Driver::new(0);
    loop {
        let before = (rlog(0).pos, wlog(0).got.len());
        match d.poll(|cx| f.as_mut().poll(cx)) {
            Poll::Ready(Ok(Err(futures::future::Aborted))) => {
                check!(aborted, "Aborted without abort()");
                check!((rlog(0).pos, wlog(0).got.len()) == before, "went on copying after abort()");
                check!(h.is_aborted(), "is_aborted is false");
                no_err("aborted");
                break;
            }
            Poll::Ready(r) => {
                check!(!aborted, "abort() had no effect");
                copy_model(Some(r.map(|x| x.unwrap())), &data, true);
                break;
            }
            Poll::Pending => {
                check!(!aborted, "pending after abort()");
                no_err("pending");
                if flip() {
                    note(|| "abort".into());
                    h.abort();
                    aborted = true;
                    if !d.woken() {
                        fail_kind("stuck", "abort() does not wake the task".into());
                    }
                } else if !d.wait() {
                    break;
                }
            }
        }
    }
}
/// Aborted by the writer (that is, in the middle of a poll): what it has accepted counts, nothing follows.
fn io_copy_abort_within(b: u32) {
    struct Ab(Wr, usize, futures::future::AbortHandle);
    impl AsyncWrite for Ab {
        fn poll_write(mut self: Pin<&mut Self>, cx: &mut Context<'_>, buf: &[u8]) -> Poll<Result<usize>> {
            check!(!self.2.is_aborted(), "the writer is used again after abort()");
            let r = Pin::new(&mut self.0).poll_write(cx, buf);
            if self.1 == 0 {
                self.2.abort();
            }
            self.1 = self.1.saturating_sub(1);
            r
        }
        fn poll_flush(mut self: Pin<&mut Self>, cx: &mut Context<'_>) -> Poll<Result<()>> {
            check!(!self.2.is_aborted(), "the writer is used again after abort()");
            Pin::new(&mut self.0).poll_flush(cx)
        }
        fn poll_close(self: Pin<&mut Self>, _: &mut Context<'_>) -> Poll<Result<()>> {
            panic!("nobody asked to close")
        }
    }
    budget(b, 0);
    let data = bytes(1, 3);
    let r = rd(data.clone(), 2, 0);
    let (h, _) = futures::future::AbortHandle::new_pair();
    let mut w = Ab(wr(1, 1, 0), choose(3), h);
    // the handle is made with the future: hand it in through a cell
    let p: *mut Ab = &mut w;
    let (f, h) = io::copy_buf_abortable(r, unsafe { &mut *p });
    unsafe { (*p).2 = h.clone() };
    let mut f = Box::pin(f);
    let mut d = Driver::new(0);
    loop {
        match d.poll(|cx| f.as_mut().poll(cx)) {
            Poll::Ready(Ok(Err(futures::future::Aborted))) => {
                check!(h.is_aborted(), "Aborted without abort()");
                let (n, m) = (rlog(0).pos as usize, wlog(0).got.len());
                check!(n == m, "{n} bytes were taken from the reader and {m} written");
                break;
            }
            Poll::Ready(r) => {
                // a failed write is reported as such; otherwise only an abort in the middle of the very last write may come too late
                check!(r.is_err() || !h.is_aborted() || wlog(0).got.len() == data.len(), "abort() had no effect: {r:?}");
                break;
            }
            Poll::Pending => {
                if h.is_aborted() && !d.woken() {
                    fail_kind("stuck", "abort() does not wake the task".into());
                }
                if !d.wait() {
                    break;
                }
            }
        }
    }
}

// ---- driving a writer -----------------------------------------------------------------------

#[derive(Clone, Copy, Debug, PartialEq)]
enum WOp {
    Write(usize),
    Vec(usize, usize),
    Flush,
    Close,
}
struct WO {
    ops: Vec<WOp>,
    n: usize,
    cap: usize,
    /// positions of newlines among the bytes accepted, and whether complete lines may be held
    line: bool,
    /// the buffered bytes, where the adapter tells
    buffer: Option<Box<dyn Fn() -> Vec<u8>>>,
}
/// Write with any sequence of operations; the leaf has to get exactly what was accepted.
fn write_all_ops(d: &mut Driver, mut u: Pin<Box<dyn AsyncWrite>>, data: &[u8], o: WO) {
    let mut acc: usize = 0;
    let mut left = o.n;
    let mut close = false;
    loop {
        let op = if close || left == 0 { WOp::Close } else { o.ops[choose(o.ops.len())] };
        left = left.saturating_sub(1);
        note(|| format!("{op:?}"));
        let z = wlog(0).zeros;
        let sh = wlog(0).shorts;
        let avail = &data[acc..];
        let r: Poll<Result<usize>> = match op {
            WOp::Write(k) => {
                let b = &avail[..k.min(avail.len())];
                d.poll(|cx| u.as_mut().poll_write(cx, b))
            }
            WOp::Vec(x, y) => {
                let x = x.min(avail.len());
                let y = (x + y).min(avail.len());
                d.poll(|cx| u.as_mut().poll_write_vectored(cx, &[IoSlice::new(&avail[..x]), IoSlice::new(&[]), IoSlice::new(&avail[x..y])]))
            }
            WOp::Flush => d.poll(|cx| u.as_mut().poll_flush(cx)).map_ok(|_| 0),
            WOp::Close => {
                close = true;
                d.poll(|cx| u.as_mut().poll_close(cx)).map_ok(|_| 0)
            }
        };
        let want = match op {
            WOp::Write(k) => k.min(avail.len()),
            WOp::Vec(x, y) => (x + y).min(avail.len()),
            _ => 0,
        };
        let zeroed = wlog(0).zeros > z;
        match r {
            Poll::Ready(Ok(n)) => {
                no_err("the operation succeeded");
                check!(n <= want, "{op:?} claims to have taken {n} bytes");
                check!(n > 0 || want == 0 || zeroed, "{op:?} took nothing");
                acc += n;
                let l = wlog(0);
                if matches!(op, WOp::Flush | WOp::Close) {
                    check!(l.got == data[..acc], "{op:?} completed with {:?} written, {:?} accepted", l.got, &data[..acc]);
                    check!(l.flushed == acc, "{op:?} completed without the writer having flushed");
                    check!(!zeroed || acc == l.got.len(), "{op:?} completed although nothing was written");
                }
                if op == WOp::Close {
                    check!(l.closed, "close completed without closing the writer");
                }
                if o.line && matches!(op, WOp::Write(_) | WOp::Vec(..)) && n > 0 && l.shorts == sh && l.got.len() <= acc {
                    check!(!data[l.got.len()..acc].contains(&b'\n'), "a complete line is held back: {:?} accepted, {:?} written", &data[..acc], l.got);
                }
            }
            Poll::Ready(Err(ref e)) => {
                surfaced(e, zeroed);
                if op == WOp::Close {
                    // whether closing may be retried is up to the writer inside
                    if wlog(0).closing {
                        return;
                    }
                }
            }
            Poll::Pending => {
                no_err("pending");
            }
        }
        let l = wlog(0);
        check!(l.got.len() <= acc && l.got[..] == data[..l.got.len()], "the writer got {:?}, accepted are {:?}", l.got, &data[..acc]);
        check!(acc - l.got.len() <= o.cap, "{} bytes held, capacity {}", acc - l.got.len(), o.cap);
        if let Some(bf) = &o.buffer {
            let bf = bf();
            check!(bf == data[l.got.len()..acc], "buffer() is {bf:?}, accepted and not yet written are {:?}", &data[l.got.len()..acc]);
        }
        obs(acc as u64);
        match r {
            Poll::Pending => {
                if !d.wait() {
                    return;
                }
            }
            Poll::Ready(Ok(_)) if close => return,
            _ => {}
        }
    }
}
/// Shares an adapter between the driver and an observer of its buffer.
struct Sh<W>(std::rc::Rc<RefCell<Pin<Box<W>>>>);
impl<W: AsyncWrite> AsyncWrite for Sh<W> {
    fn poll_write(self: Pin<&mut Self>, cx: &mut Context<'_>, b: &[u8]) -> Poll<Result<usize>> {
        self.0.borrow_mut().as_mut().poll_write(cx, b)
    }
    fn poll_write_vectored(self: Pin<&mut Self>, cx: &mut Context<'_>, bs: &[IoSlice<'_>]) -> Poll<Result<usize>> {
        self.0.borrow_mut().as_mut().poll_write_vectored(cx, bs)
    }
    fn poll_flush(self: Pin<&mut Self>, cx: &mut Context<'_>) -> Poll<Result<()>> {
        self.0.borrow_mut().as_mut().poll_flush(cx)
    }
    fn poll_close(self: Pin<&mut Self>, cx: &mut Context<'_>) -> Poll<Result<()>> {
        self.0.borrow_mut().as_mut().poll_close(cx)
    }
}
fn wops() -> Vec<WOp> {
    vec![WOp::Write(1), WOp::Write(2), WOp::Write(4), WOp::Vec(1, 1), WOp::Flush, WOp::Close]
}
fn io_buf_writer(b: u32) {
    budget(b, 0);
    strict();
    let data = bytes(1, 12);
    let cap = choose(3) + 1;
    let mut w = wr(b, 1, b - 1);
    w.vec = b == 1;
    let a = std::rc::Rc::new(RefCell::new(Box::pin(BufWriter::with_capacity(cap, w))));
    let a2 = a.clone();
    let mut d = Driver::fixed(0);
    write_all_ops(&mut d, Box::pin(Sh(a)), &data, WO { ops: wops(), n: 3, cap, line: false, buffer: Some(Box::new(move || a2.borrow().buffer().to_vec())) });
}
fn io_line_writer(b: u32) {
    budget(b, 0);
    strict();
    let data: &[u8] = [&b"a\nb\nc"[..], b"ab\nc\n", b"\n\nab\n", b"abcd\n", b"\nabcde"][choose(5)];
    let data = [data, b"fghijklm"].concat();
    let cap = choose(3) + 1;
    let w = wr(b, b.min(2) - 1, b - 1);
    let a = std::rc::Rc::new(RefCell::new(Box::pin(LineWriter::with_capacity(cap, w))));
    let a2 = a.clone();
    let mut d = Driver::fixed(0);
    let ops = vec![WOp::Write(1), WOp::Write(2), WOp::Write(5), WOp::Vec(1, 0), WOp::Vec(1, 2), WOp::Flush, WOp::Close];
    write_all_ops(&mut d, Box::pin(Sh(a)), &data, WO { ops, n: 3, cap, line: true, buffer: Some(Box::new(move || a2.borrow().buffer().to_vec())) });
}
fn io_write_wrap(b: u32) {
    budget(b, 0);
    strict();
    let data = bytes(1, 12);
    let w = wr(1, 1, 1);
    let mut d = Driver::fixed(0);
    let u: Pin<Box<dyn AsyncWrite>> = match choose(9) {
        0 => Box::pin(Box::new(w)),
        1 => Box::pin(Box::pin(w)),
        2 => Box::pin(Either::<Wr, Vec<u8>>::Left(w)),
        3 => Box::pin(Either::<Vec<u8>, Wr>::Right(w)),
        4 => {
            let (_r, x) = Duplex { r: rd(vec![], 0, 0), w }.split();
            Box::pin(x)
        }
        5 => Box::pin(BufReader::new(Duplex { r: rd(vec![], 0, 0), w })),
        6 => Box::pin(w),
        7 => Box::pin(StWr(w).into_async_read()),
        _ => {
            let p: *mut Wr = Box::into_raw(Box::new(w));
            let o = WO { ops: wops(), n: 3, cap: 0, line: false, buffer: None };
            let r: &'static mut Wr = unsafe { &mut *p };
            let g = Unleak(p);
            write_all_ops(&mut d, Box::pin(r), &data, o);
            drop(g);
            return;
        }
    };
    write_all_ops(&mut d, u, &data, WO { ops: wops(), n: 3, cap: 0, line: false, buffer: None });
}
/// A stream that is also a writer.
struct StWr(Wr);
impl futures::Stream for StWr {
    type Item = Result<Vec<u8>>;
    fn poll_next(self: Pin<&mut Self>, _: &mut Context<'_>) -> Poll<Option<Self::Item>> {
        fail("writing through into_async_read polled the stream".into())
    }
}
impl AsyncWrite for StWr {
    fn poll_write(mut self: Pin<&mut Self>, cx: &mut Context<'_>, b: &[u8]) -> Poll<Result<usize>> {
        Pin::new(&mut self.0).poll_write(cx, b)
    }
    fn poll_write_vectored(mut self: Pin<&mut Self>, cx: &mut Context<'_>, b: &[IoSlice<'_>]) -> Poll<Result<usize>> {
        Pin::new(&mut self.0).poll_write_vectored(cx, b)
    }
    fn poll_flush(mut self: Pin<&mut Self>, cx: &mut Context<'_>) -> Poll<Result<()>> {
        Pin::new(&mut self.0).poll_flush(cx)
    }
    fn poll_close(mut self: Pin<&mut Self>, cx: &mut Context<'_>) -> Poll<Result<()>> {
        Pin::new(&mut self.0).poll_close(cx)
    }
}
struct Unleak<T>(*mut T);
impl<T> Drop for Unleak<T> {
    fn drop(&mut self) {
        drop(unsafe { Box::from_raw(self.0) });
    }
}
fn io_writer_seek(b: u32) {
    budget(b, 0);
    strict();
    let cap = choose(3) + 1;
    let mut bw = BufWriter::with_capacity(cap, wr(1, b - 1, 0));
    let mut d = Driver::fixed(0);
    // what the file would be without buffering
    let (mut file, mut pos, mut next) = (Vec::<u8>::new(), 0usize, 1u8);
    for _ in 0..3 {
        match choose(3) {
            0 => {
                let k = choose(2) + 1;
                let buf = bytes(next, k);
                match drive(&mut d, Pin::new(&mut bw.write(&buf))) {
                    Some(Ok(n)) => {
                        no_err("write");
                        check!(n > 0 && n <= k, "write took {n} of {k}");
                        for x in &buf[..n] {
                            if pos < file.len() {
                                file[pos] = *x;
                            } else {
                                while file.len() < pos {
                                    file.push(0);
                                }
                                file.push(*x);
                            }
                            pos += 1;
                        }
                        next += k as u8;
                    }
                    Some(Err(e)) => surfaced(&e, false),
                    None => return,
                }
            }
            1 => {
                let to = [SeekFrom::Start(0), SeekFrom::Current(-1), SeekFrom::End(0), SeekFrom::Current(1), SeekFrom::Start(1)][choose(5)];
                let r = if to == SeekFrom::Current(1) && flip() { drive(&mut d, Pin::new(&mut bw.stream_position())).map(|r| r.map(|p| (p, SeekFrom::Current(0)))) } else { drive(&mut d, Pin::new(&mut bw.seek(to))).map(|r| r.map(|p| (p, to))) };
                match r {
                    Some(Ok((p, to))) => {
                        no_err("seek");
                        let e = seek_model(pos as u64, file.len() as u64, to);
                        check!(Some(p) == e, "{to:?} from {pos} went to {p}");
                        pos = p as usize;
                        check!(wlog(0).got == file, "after a seek the file is {:?}, expected {file:?}", wlog(0).got);
                    }
                    Some(Err(e)) => surfaced(&e, false),
                    None => return,
                }
            }
            _ => match drive(&mut d, Pin::new(&mut bw.flush())) {
                Some(Ok(())) => {
                    no_err("flush");
                    check!(wlog(0).got == file, "after a flush the file is {:?}, expected {file:?}", wlog(0).got);
                }
                Some(Err(e)) => surfaced(&e, false),
                None => return,
            },
        }
    }
    loop {
        match drive(&mut d, Pin::new(&mut bw.flush())) {
            Some(Ok(())) => break,
            Some(Err(e)) => surfaced(&e, false),
            None => return,
        }
    }
    check!(wlog(0).got == file, "in the end the file is {:?}, expected {file:?}", wlog(0).got);
    obs(pos as u64);
}
fn io_write_all(b: u32) {
    budget(b, 1);
    strict();
    let mut wv = wr(2, 1, 1);
    wv.vec = flip();
    wv.full_after_zero = true;
    let mut d = Driver::new(1);
    d.cancel = true;
    let (data, res) = if flip() {
        let data = upto(1, 4);
        let r = drive(&mut d, Pin::new(&mut wv.write_all(&data)));
        (data, r)
    } else {
        let (x, y, z) = (upto(1, 2), upto(11, 2), upto(21, 1));
        let mut sl = [IoSlice::new(&x), IoSlice::new(&y), IoSlice::new(&z)];
        let r = drive(&mut d, Pin::new(&mut wv.write_all_vectored(&mut sl)));
        ([&x[..], &y[..], &z[..]].concat(), r)
    };
    let l = wlog(0);
    check!(data.starts_with(&l.got), "wrote {:?} of {data:?}", l.got);
    match res {
        Some(Ok(())) => {
            no_err("write_all");
            check!(l.got == data && l.zeros == 0, "write_all completed with {:?} of {data:?}", l.got);
        }
        Some(Err(e)) => {
            let z = l.zeros > 0;
            check!(z || e.kind() != ErrorKind::WriteZero, "WriteZero, but the writer took everything it was given");
            surfaced(&e, z)
        }
        None => {}
    }
    obs(l.got.len() as u64);
}
fn io_into_sink(b: u32) {
    budget(b, 0);
    strict();
    let mut d = Driver::fixed(1);
    let mut wv = wr(2, 0, b - 1);
    wv.full_after_zero = true;
    let mut sk = wv.into_sink::<Vec<u8>>();
    let mut exp = vec![];
    let n = choose(3);
    for i in 0..=n {
        let item = upto(10 * i as u8 + 1, 2);
        let r = if i == n {
            drive(&mut d, Pin::new(&mut sk.close()))
        } else if choose(2) == 0 {
            exp.extend(&item);
            drive(&mut d, Pin::new(&mut sk.feed(item)))
        } else {
            exp.extend(&item);
            let r = drive(&mut d, Pin::new(&mut sk.send(item)));
            if let Some(Ok(())) = r {
                check!(wlog(0).got == exp && wlog(0).flushed == exp.len(), "send completed with {:?} written", wlog(0).got);
            }
            r
        };
        let l = wlog(0);
        check!(exp.starts_with(&l.got), "wrote {:?} of {exp:?}", l.got);
        match r {
            Some(Ok(())) => no_err("ok"),
            Some(Err(e)) => {
                check!(l.zeros > 0, "error {e} although the writer wrote everything");
                return;
            }
            None => return,
        }
    }
    let l = wlog(0);
    check!(l.got == exp && l.closed, "closed with {:?} written of {exp:?}", l.got);
    obs(exp.len() as u64);
}
/// Cursors and std adapters: the same as their std counterparts for every operation sequence.
fn io_cursor(b: u32) {
    use std::io::{BufRead, Read, Seek, Write};
    let n = 3;
    let mut d = Driver::fixed(0);
    macro_rules! both {
        ($mk:expr, $get:expr) => {{
            let mut a = Cursor::new($mk);
            let mut e = std::io::Cursor::new($mk);
            for _ in 0..b + 1 {
                match choose(6) {
                    0 => {
                        let k = choose(3);
                        let buf = bytes(100, k);
                        let x = drive(&mut d, Pin::new(&mut a.write(&buf))).unwrap();
                        let y = e.write(&buf);
                        check!(x.is_ok() == y.is_ok() && x.ok() == y.ok(), "write differs");
                    }
                    1 => {
                        let to = [SeekFrom::Start(0), SeekFrom::Start(2), SeekFrom::Start(5), SeekFrom::Current(-1), SeekFrom::Current(1), SeekFrom::End(-1), SeekFrom::End(i64::MIN)][choose(7)];
                        let x = drive(&mut d, Pin::new(&mut a.seek(to))).unwrap();
                        let y = e.seek(to);
                        check!(x.is_ok() == y.is_ok() && x.ok() == y.ok(), "seek differs");
                    }
                    2 => {
                        let mut p = [0; 2];
                        let mut q = [0; 2];
                        let x = drive(&mut d, Pin::new(&mut a.read(&mut p))).unwrap();
                        let y = e.read(&mut q);
                        check!(x.is_ok() == y.is_ok() && x.ok() == y.ok() && p == q, "read differs: {p:?} {q:?}");
                    }
                    3 => {
                        let x = drive(&mut d, Pin::new(&mut a.fill_buf())).unwrap().unwrap().to_vec();
                        let y = e.fill_buf().unwrap().to_vec();
                        check!(x == y, "fill_buf differs: {x:?} {y:?}");
                        let c = choose(x.len() + 1);
                        a.consume_unpin(c);
                        e.consume(c);
                    }
                    4 => {
                        let x = drive(&mut d, Pin::new(&mut a.write_vectored(&[IoSlice::new(&[7]), IoSlice::new(&[8, 9])]))).unwrap();
                        let y = e.write_vectored(&[IoSlice::new(&[7]), IoSlice::new(&[8, 9])]);
                        check!(x.is_ok() == y.is_ok() && x.ok() == y.ok(), "write_vectored differs");
                    }
                    _ => {
                        let (mut p, mut q) = ([0; 1], [0; 2]);
                        let (mut p2, mut q2) = ([0; 1], [0; 2]);
                        let x = drive(&mut d, Pin::new(&mut a.read_vectored(&mut [IoSliceMut::new(&mut p), IoSliceMut::new(&mut q)]))).unwrap();
                        let y = e.read_vectored(&mut [IoSliceMut::new(&mut p2), IoSliceMut::new(&mut q2)]);
                        check!(x.is_ok() == y.is_ok() && x.ok() == y.ok() && p == p2 && q == q2, "read_vectored differs");
                    }
                }
                check!(a.position() == e.position(), "position {} differs from {}", a.position(), e.position());
                let (p, q): (Vec<u8>, Vec<u8>) = ($get(a.get_ref()), $get(e.get_ref()));
                check!(p == q, "contents {p:?} differ from {q:?}");
            }
            obs(a.position());
        }};
    }
    match choose(3) {
        0 => both!(bytes(1, n), |x: &Vec<u8>| x.clone()),
        1 => both!(bytes(1, n).into_boxed_slice(), |x: &Box<[u8]>| x.to_vec()),
        _ => {
            // slices
            let mut s1 = bytes(1, n);
            let mut s2 = bytes(1, n);
            let mut a = Cursor::new(&mut s1[..]);
            let mut e = std::io::Cursor::new(&mut s2[..]);
            for _ in 0..b + 1 {
                let k = choose(5);
                let buf = bytes(100, k);
                let x = drive(&mut d, Pin::new(&mut a.write(&buf))).unwrap().unwrap();
                let y = e.write(&buf).unwrap();
                check!(x == y && a.position() == e.position(), "write differs");
            }
            check!(s1 == s2, "contents differ");
        }
    }
}
/// AllowStdIo: what a blocking reader or writer does, including its errors and Interrupted.
struct StdLeaf {
    data: Vec<u8>,
    pos: usize,
    intr: u32,
    errs: u32,
    out: Vec<u8>,
    flushes: u32,
}
impl std::io::Read for StdLeaf {
    fn read(&mut self, b: &mut [u8]) -> Result<usize> {
        step();
        if self.intr > 0 && flip() {
            self.intr -= 1;
            return Err(ErrorKind::Interrupted.into());
        }
        if self.errs > 0 && flip() {
            self.errs -= 1;
            return Err(Error::new(ErrorKind::Other, "e1"));
        }
        let n = b.len().min(self.data.len() - self.pos);
        b[..n].copy_from_slice(&self.data[self.pos..self.pos + n]);
        self.pos += n;
        Ok(n)
    }
}
impl std::io::Write for StdLeaf {
    fn write(&mut self, b: &[u8]) -> Result<usize> {
        step();
        if self.intr > 0 && flip() {
            self.intr -= 1;
            return Err(ErrorKind::Interrupted.into());
        }
        if self.errs > 0 && flip() {
            self.errs -= 1;
            return Err(Error::new(ErrorKind::Other, "e1"));
        }
        let n = if b.len() > 1 { choose(b.len()) + 1 } else { b.len() };
        self.out.extend(&b[..n]);
        Ok(n)
    }
    fn flush(&mut self) -> Result<()> {
        if self.intr > 0 && flip() {
            self.intr -= 1;
            return Err(ErrorKind::Interrupted.into());
        }
        self.flushes += 1;
        Ok(())
    }
}
impl std::io::BufRead for StdLeaf {
    fn fill_buf(&mut self) -> Result<&[u8]> {
        if self.intr > 0 && flip() {
            self.intr -= 1;
            return Err(ErrorKind::Interrupted.into());
        }
        if self.errs > 0 && flip() {
            self.errs -= 1;
            return Err(Error::new(ErrorKind::Other, "e1"));
        }
        Ok(&self.data[self.pos..])
    }
    fn consume(&mut self, n: usize) {
        self.pos += n;
    }
}
fn io_allow_std(b: u32) {
    let data = upto(1, 2);
    let mut a = AllowStdIo::new(StdLeaf { data: data.clone(), pos: 0, intr: b, errs: 1, out: vec![], flushes: 0 });
    let mut d = Driver::fixed(0);
    let (mut pos, mut out, mut errs) = (0, vec![], 0);
    for _ in 0..b + 2 {
        let e = match choose(5) {
            0 => {
                let mut buf = [0; 2];
                match drive(&mut d, Pin::new(&mut a.read(&mut buf))).unwrap() {
                    Ok(n) => {
                        check!((n == 0) == (pos == data.len()) && data[pos..].starts_with(&buf[..n]), "read gave {:?}", &buf[..n]);
                        pos += n;
                        None
                    }
                    Err(e) => Some(e),
                }
            }
            1 => match drive(&mut d, Pin::new(&mut a.write(&[5, 6]))).unwrap() {
                Ok(n) => {
                    out.extend(&[5, 6][..n]);
                    None
                }
                Err(e) => Some(e),
            },
            2 => match drive(&mut d, Pin::new(&mut a.fill_buf())).unwrap() {
                Ok(x) => {
                    check!(x == &data[pos..], "fill_buf gave {x:?}");
                    let c = x.len().min(1);
                    a.consume_unpin(c);
                    pos += c;
                    None
                }
                Err(e) => Some(e),
            },
            3 => {
                let f = a.get_ref().flushes;
                match drive(&mut d, Pin::new(&mut a.flush())).unwrap() {
                    Ok(()) => {
                        check!(a.get_ref().flushes > f, "flush not passed on");
                        None
                    }
                    Err(e) => Some(e),
                }
            }
            _ => match drive(&mut d, Pin::new(&mut a.write_vectored(&[IoSlice::new(&[8])]))).unwrap() {
                Ok(n) => {
                    out.extend(&[8][..n]);
                    None
                }
                Err(e) => Some(e),
            },
        };
        if let Some(e) = e {
            check!(e.kind() != ErrorKind::Interrupted, "Interrupted is passed on, although nothing will wake the task");
            errs += 1;
            check!(e.to_string() == "e1" && errs == 1, "unexpected error {e}");
        }
        check!(a.get_ref().out == out, "the writer got {:?}, accepted are {out:?}", a.get_ref().out);
        check!(a.get_ref().pos == pos, "the reader is at {} instead of {pos}", a.get_ref().pos);
    }
}
fn io_trivial(_b: u32) {
    let mut d = Driver::fixed(0);
    let mut d2 = Driver::fixed(0);
    let k = choose(4);
    let mut buf = vec![0; k];
    let n = drive(&mut d, Pin::new(&mut io::repeat(9).read(&mut buf))).unwrap().unwrap();
    check!(n == k && buf.iter().all(|x| *x == 9), "repeat");
    let (mut p, mut q) = (vec![0; k], vec![0; 2]);
    let n = drive(&mut d, Pin::new(&mut io::repeat(9).read_vectored(&mut [IoSliceMut::new(&mut p), IoSliceMut::new(&mut q)]))).unwrap().unwrap();
    check!(n == k + 2 && p.iter().chain(&q).all(|x| *x == 9), "repeat vectored");
    let n = drive(&mut d, Pin::new(&mut io::empty().read(&mut buf))).unwrap().unwrap();
    check!(n == 0, "empty");
    check!(drive(&mut d2, Pin::new(&mut io::empty().fill_buf())).unwrap().unwrap().is_empty(), "empty");
    let n = drive(&mut d, Pin::new(&mut io::sink().write(&buf))).unwrap().unwrap();
    check!(n == k, "sink");
    let n = drive(&mut d, Pin::new(&mut io::sink().write_vectored(&[IoSlice::new(&buf), IoSlice::new(&q)]))).unwrap().unwrap();
    check!(n == k + 2, "sink vectored");
    check!(drive(&mut d, Pin::new(&mut io::sink().flush())).unwrap().is_ok(), "sink");
    check!(drive(&mut d, Pin::new(&mut io::sink().close())).unwrap().is_ok(), "sink");
    // windows
    let mut win = io::Window::new(bytes(1, 4));
    check!(win.as_ref() == &bytes(1, 4)[..], "window");
    let (a, e) = (choose(5), choose(5));
    if a <= e {
        win.set(a..e);
        check!(win.as_ref() == &bytes(1, 4)[a..e] && win.start() == a && win.end() == e, "window {a}..{e}");
        check!(win.as_mut() == &bytes(1, 4)[a..e], "window {a}..{e}");
        let (a2, e2) = (choose(5), choose(5));
        if a2 <= e2 {
            match choose(5) {
                0 => win.set(a2..e2),
                3 if a2 < e2 => {
                    use std::ops::Bound;
                    win.set((Bound::Excluded(a2), Bound::Excluded(e2)));
                    check!(win.as_ref() == &bytes(1, 4)[a2 + 1..e2], "window ({a2}..{e2}");
                    return;
                }
                1 if e2 < 4 => {
                    win.set(a2..=e2);
                    check!(win.as_ref() == &bytes(1, 4)[a2..=e2], "window {a2}..={e2}");
                    return;
                }
                2 => {
                    win.set(..e2);
                    check!(win.as_ref() == &bytes(1, 4)[..e2], "window ..{e2}");
                    return;
                }
                _ => {
                    win.set(a2..);
                    check!(win.as_ref() == &bytes(1, 4)[a2..], "window {a2}..");
                    return;
                }
            }
            check!(win.as_ref() == &bytes(1, 4)[a2..e2], "window {a2}..{e2}");
        }
    }
}

/// For the bridges to 0.1, where a pending operation is an error of kind WouldBlock.
pub fn cp_read(b: u32, f: impl FnOnce(Rd) -> Pin<Box<dyn AsyncRead>>) {
    io_(|i| i.bridged = true);
    shared(b);
    let data: Vec<u8> = (0..choose(4) as u8).map(|x| x + 1).collect();
    let r = rd(data.clone(), b, 1);
    let u = Un::R(f(r));
    let mut d = Driver::new(0);
    read_all(&mut d, u, &data, RO, false);
}
pub fn cp_write(b: u32, f: impl FnOnce(Wr) -> Pin<Box<dyn AsyncWrite>>) {
    io_(|i| i.bridged = true);
    shared(1 + b);
    let data: Vec<u8> = vec![1, 2, 3, 4];
    let w = wr(b, 1, b - 1);
    let u = f(w);
    let mut d = Driver::new(0);
    write_all_ops(&mut d, u, &data, WO { ops: wops(), n: 3, cap: 0, line: false, buffer: None });
}

/// For futures-test's wrappers of buffered readers.
/// A reader of `n` bytes and where it is.
pub fn seekable(n: u8, b: u32) -> (impl Fn() -> u64, Rd) {
    let r = rd((0..n).collect(), b, 0);
    let l = r.n;
    (move || io_(|s| s.r[l].pos), r)
}
pub fn tu_read<R: AsyncBufRead + AsyncRead + 'static>(b: u32, f: impl FnOnce(Rd) -> R) {
    shared(b);
    let data: Vec<u8> = (0..choose(4) as u8).map(|x| x + 1).collect();
    let r = rd(data.clone(), b, 1);
    let mut d = Driver::new(0);
    read_all(&mut d, ub(f(r)), &data, &[ROp::Read(1), ROp::Read(3), ROp::Vec(1, 1), ROp::Fill], false);
}
/// Sees how much it is asked for at once.
struct Spy<T>(T, std::rc::Rc<std::cell::Cell<usize>>);
impl<T: AsyncRead + Unpin> AsyncRead for Spy<T> {
    fn poll_read(mut self: Pin<&mut Self>, cx: &mut Context<'_>, b: &mut [u8]) -> Poll<Result<usize>> {
        self.1.set(b.len());
        Pin::new(&mut self.0).poll_read(cx, b)
    }
}
impl<T: AsyncWrite + Unpin> AsyncWrite for Spy<T> {
    fn poll_write(mut self: Pin<&mut Self>, cx: &mut Context<'_>, b: &[u8]) -> Poll<Result<usize>> {
        self.1.set(b.len());
        Pin::new(&mut self.0).poll_write(cx, b)
    }
    fn poll_flush(mut self: Pin<&mut Self>, cx: &mut Context<'_>) -> Poll<Result<()>> {
        Pin::new(&mut self.0).poll_flush(cx)
    }
    fn poll_close(mut self: Pin<&mut Self>, cx: &mut Context<'_>) -> Poll<Result<()>> {
        Pin::new(&mut self.0).poll_close(cx)
    }
}
/// Checks what its own caller asked for against what reached the spy.
struct Lim<T>(T, std::rc::Rc<std::cell::Cell<usize>>, usize);
impl<T: AsyncRead + Unpin> AsyncRead for Lim<T> {
    fn poll_read(mut self: Pin<&mut Self>, cx: &mut Context<'_>, b: &mut [u8]) -> Poll<Result<usize>> {
        let n = b.len();
        let r = Pin::new(&mut self.0).poll_read(cx, b);
        check!(self.1.get() == n.min(self.2), "a read of {n} with limit {} asks for {}", self.2, self.1.get());
        r
    }
}
impl<T: AsyncWrite + Unpin> AsyncWrite for Lim<T> {
    fn poll_write(mut self: Pin<&mut Self>, cx: &mut Context<'_>, b: &[u8]) -> Poll<Result<usize>> {
        let r = Pin::new(&mut self.0).poll_write(cx, b);
        check!(self.1.get() == b.len().min(self.2), "a write of {} with limit {} passes on {}", b.len(), self.2, self.1.get());
        r
    }
    fn poll_flush(mut self: Pin<&mut Self>, cx: &mut Context<'_>) -> Poll<Result<()>> {
        Pin::new(&mut self.0).poll_flush(cx)
    }
    fn poll_close(mut self: Pin<&mut Self>, cx: &mut Context<'_>) -> Poll<Result<()>> {
        Pin::new(&mut self.0).poll_close(cx)
    }
}
pub fn tu_limited(b: u32) {
    shared(b);
    let n = 1 + choose(3);
    let c = std::rc::Rc::new(std::cell::Cell::new(0));
    let mut d = Driver::fixed(0);
    if flip() {
        let data: Vec<u8> = (0..choose(4) as u8).map(|x| x + 1).collect();
        let r = rd(data.clone(), 1, 1);
        if flip() {
            let l = futures_test::io::AsyncReadTestExt::limited(Spy(r, c.clone()), n);
            read_all(&mut d, ur(Lim(l, c, n)), &data, &[ROp::Read(1), ROp::Read(3), ROp::Vec(1, 1)], false);
        } else {
            let l = futures_test::io::AsyncReadTestExt::limited(r, n);
            read_all(&mut d, ub(l), &data, &[ROp::Read(1), ROp::Read(3), ROp::Fill], false);
        }
    } else {
        let data: Vec<u8> = vec![1, 2, 3, 4];
        let l = futures_test::io::AsyncWriteTestExt::limited_write(Spy(wr(b, 1, b - 1), c.clone()), n);
        write_all_ops(&mut d, Box::pin(Lim(l, c, n)), &data, WO { ops: wops(), n: 3, cap: 0, line: false, buffer: None });
    }
}
pub fn tu_track(b: u32) {
    budget(b, 0);
    let mut u = Box::pin(futures_test::io::AsyncWriteTestExt::track_closed(wr(1, 1, 0)));
    let mut d = Driver::fixed(0);
    let mut acc = vec![];
    for k in 0..3 + b as u8 {
        let op = choose(4);
        let closed = u.is_closed();
        check!(closed == wlog(0).closed, "is_closed is {closed}");
        let buf = [2 * k, 2 * k + 1];
        let r = loop {
            let r = d.poll(|cx| match op {
                0 => u.as_mut().poll_write(cx, &buf),
                1 => u.as_mut().poll_write_vectored(cx, &[IoSlice::new(&buf)]),
                2 => u.as_mut().poll_flush(cx).map_ok(|_| 0),
                _ => u.as_mut().poll_close(cx).map_ok(|_| 0),
            });
            match r {
                Poll::Ready(r) => break r,
                Poll::Pending => {
                    check!(!closed && !u.is_closed(), "pending although closed");
                    d.wait();
                }
            }
        };
        if closed {
            check!(r.is_err() && u.is_closed(), "operation {op} on a closed writer succeeds");
            continue;
        }
        match r {
            Ok(n) => {
                no_err("success");
                acc.extend_from_slice(&buf[..n]);
                check!(u.is_closed() == (op == 3), "is_closed is {} after operation {op}", u.is_closed());
            }
            Err(e) => {
                surfaced(&e, false);
                check!(!u.is_closed(), "closed after an error");
                if op == 3 {
                    return;
                }
            }
        }
        check!(wlog(0).got == acc, "bytes are not passed on");
    }
}

pub const SCN: &[Scn] = &[
    s("io_buf_reader", "C25 C31", 2, 3, io_buf_reader),
    s("io_leaf_wrap", "C25 C31 C34", 2, 2, io_leaf_wrap),
    s("io_std", "C25 C34 !", 1, 1, io_std),
    s("io_take", "C25 C31", 2, 3, io_take),
    s("io_take_inner", "C25 C31 C34", 2, 3, io_take_inner),
    s("io_chain", "C25 C31 C34", 2, 3, io_chain),
    s("io_compose", "C25 C31 C34", 2, 3, io_compose),
    s("io_into_async_read", "C25 C19 C31", 1, 2, io_into_async_read),
    s("io_split", "C25 C26 C08 C31", 1, 2, io_split),
    s("io_split_tasks", "C25 C26 C08 C31 !", 1, 2, io_split_tasks),
    s("io_seek", "C25 C31", 2, 3, io_seek),
    s("io_read_exact", "C25 C31", 2, 3, io_read_exact),
    s("io_read_to_end", "C25 C31", 2, 3, io_read_to_end),
    s("io_read_to_string", "C25 C31", 2, 3, io_read_to_string),
    s("io_read_until", "C25 C31", 2, 3, io_read_until),
    s("io_read_line", "C25 C31", 2, 3, io_read_line),
    s("io_lines", "C25 C31", 3, 4, io_lines),
    s("io_fill_buf", "C25 C31", 2, 3, io_fill_buf),
    s("io_ext", "C25 C26 C31", 1, 2, io_ext),
    s("ex_io_read", "C25 C26 C31", 2, 3, ex_io_read),
    s("ex_io_text", "C25 C31", 2, 3, ex_io_text),
    s("ex_io_lines", "C25 C31", 2, 3, ex_io_lines),
    s("ex_io_write", "C26 C31", 1, 2, ex_io_write),
    s("io_copy", "C25 C26 C31", 2, 3, io_copy),
    s("io_vectored", "C25 C31", 1, 2, io_vectored),
    s("io_write_default", "C26 C31", 1, 2, io_write_default),
    s("io_copy_abort_within", "C12 C26 C31 !", 2, 3, io_copy_abort_within),
    s("io_copy_abortable", "C12 C26 C31", 1, 2, io_copy_abortable),
    s("io_buf_writer", "C26 C31", 2, 3, io_buf_writer),
    s("io_line_writer", "C26 C31", 2, 3, io_line_writer),
    s("io_write_wrap", "C26 C31 C34", 1, 2, io_write_wrap),
    s("io_writer_seek", "C26 C31", 1, 2, io_writer_seek),
    s("io_write_all", "C26 C31", 2, 3, io_write_all),
    s("io_into_sink", "C26 C24 C31", 2, 3, io_into_sink),
    s("io_cursor", "C25 C26 C34 !", 2, 3, io_cursor),
    s("io_allow_std", "C25 C26 C34 !", 2, 3, io_allow_std),
    s("io_trivial", "C25 C26 C34 !", 1, 1, io_trivial),
];

// ---- real sizes: default buffers, growth steps, lines and writes around them ------------------

fn blob(n: usize) -> Vec<u8> {
    (0..n).map(|i| (i * 31 + i / 251 * 7 + 1) as u8).collect()
}
const SIZES: [usize; 13] = [0, 1, 31, 32, 33, 65, 1023, 1025, 4097, 8191, 8192, 8193, 20001];
fn big(data: Vec<u8>, w: bool) -> Rd {
    let mut r = rd(data, 2, 1);
    r.win = if w { 8192 } else { 5000 };
    r
}
fn same(got: &[u8], want: &[u8], what: &str) {
    if got != want {
        let at = got.iter().zip(want).position(|(a, b)| a != b).unwrap_or(got.len().min(want.len()));
        fail(format!("{what}: {} bytes instead of {}, first difference at {at}", got.len(), want.len()));
    }
}
/// Reading futures over data of real sizes.
fn ex_io_read(_b: u32) {
    budget(2, 1);
    strict();
    let n = SIZES[choose(SIZES.len())];
    let data = blob(n);
    let mut d = Driver::fixed(1);
    d.cancel = true;
    counting();
    let which = fchoose(9);
    let cap = if which < 3 { [0, 32, 8192][fchoose(3)] } else { 0 };
    let mut v: Vec<u8> = Vec::with_capacity(cap);
    v.extend(b"pre");
    let r = big(data.clone(), fchoose(2) == 1);
    let res = match which {
        0 => drive(&mut d, Pin::new(&mut { r }.read_to_end(&mut v))).map(|x| x.map(|n| n as u64)),
        1 => drive(&mut d, Pin::new(&mut BufReader::new(r).read_to_end(&mut v))).map(|x| x.map(|n| n as u64)),
        2 => drive(&mut d, Pin::new(&mut { r }.take(u64::MAX).read_to_end(&mut v))).map(|x| x.map(|n| n as u64)),
        3 => {
            v.resize(3 + n, 0);
            drive(&mut d, Pin::new(&mut { r }.read_exact(&mut v[3..]))).map(|x| x.map(|_| n as u64))
        }
        4 => {
            v.resize(3 + n, 0);
            drive(&mut d, Pin::new(&mut BufReader::new(r).read_exact(&mut v[3..]))).map(|x| x.map(|_| n as u64))
        }
        5 => drive(&mut d, Box::pin(io::copy(r, &mut v)).as_mut()),
        6 => drive(&mut d, Box::pin(io::copy_buf(BufReader::new(r), &mut v)).as_mut()),
        7 => drive(&mut d, Pin::new(&mut big(vec![], true).chain(r).read_to_end(&mut v))).map(|x| x.map(|n| n as u64)),
        // never found: everything
        _ => drive(&mut d, Pin::new(&mut BufReader::new(r.take(n as u64)).read_until(0, &mut v))).map(|x| x.map(|n| n as u64)),
    };
    let p = rlog(0).pos as usize;
    match res {
        Some(Ok(m)) => {
            no_err("reading");
            if which == 8 {
                let end = data.iter().position(|x| *x == 0).map_or(n, |i| i + 1);
                same(&v[3..], &data[..end], "read_until");
                check!(m == end as u64, "read_until: {m}");
            } else {
                same(&v[3..], &data, "reading");
                check!(m == n as u64, "{m} bytes announced instead of {n}");
            }
        }
        Some(Err(e)) => {
            surfaced(&e, false);
            if which != 3 && which != 4 {
                check!(data.starts_with(&v[3..]), "after an error: not a prefix of the data");
            }
        }
        None => {
            if which != 3 && which != 4 {
                check!(data.starts_with(&v[3..]), "after cancelling: not a prefix of the data");
            }
        }
    }
    check!(v.starts_with(b"pre"), "previous contents lost");
    obs(p as u64);
}
/// Text with characters across the buffer boundaries.
fn ex_io_text(_b: u32) {
    budget(1, 1);
    strict();
    let n = SIZES[choose(SIZES.len())];
    let off = choose(3);
    let mut t = String::new();
    for _ in 0..off {
        t.push('x');
    }
    let mut i = 0;
    while t.len() < n {
        t.push(['a', '\u{e9}', '\u{20ac}', '\u{1f600}'][i % 4]);
        i += 1;
    }
    let bad = dchoose(3);
    let mut data = t.clone().into_bytes();
    if bad > 0 && n > 0 {
        let k = if bad == 1 { data.len() - 1 } else { data.len() / 2 };
        data[k] = 0xFF;
    }
    let ok = std::str::from_utf8(&data).is_ok();
    let mut d = Driver::fixed(1);
    d.cancel = true;
    counting();
    let mut st = String::from("pre");
    let r = big(data.clone(), true);
    let which = fchoose(4);
    let res = match which {
        0 => drive(&mut d, Pin::new(&mut { r }.read_to_string(&mut st))),
        1 => drive(&mut d, Pin::new(&mut BufReader::new(r).read_to_string(&mut st))),
        2 => drive(&mut d, Pin::new(&mut BufReader::new(r).read_line(&mut st))),
        _ => {
            let mut l = BufReader::new(r).lines();
            match drive(&mut d, Pin::new(&mut l.next())) {
                Some(Some(Ok(x))) => {
                    st.push_str(&x);
                    Some(Ok(x.len()))
                }
                Some(Some(Err(e))) => Some(Err(e)),
                Some(None) => Some(Ok(0)),
                None => None,
            }
        }
    };
    match res {
        Some(Ok(m)) => {
            no_err("reading text");
            check!(ok, "invalid UTF-8 accepted");
            check!(m == data.len(), "{m} bytes announced instead of {}", data.len());
            same(&st.as_bytes()[3..], &data, "text");
        }
        Some(Err(e)) if e.kind() == ErrorKind::InvalidData && !leafs(&e) => {
            check!(!ok, "valid text refused");
            no_err("InvalidData");
            check!(st == "pre", "invalid text: the string is changed");
        }
        Some(Err(e)) => {
            surfaced(&e, false);
            check!(st.starts_with("pre"), "previous contents lost");
        }
        None => check!(st == "pre", "cancelled: the string is not restored"),
    }
    obs(st.len() as u64);
}
/// Lines longer than the buffers, and very many of them.
fn ex_io_lines(_b: u32) {
    budget(1, 1);
    let (len, k) = [(0, 40), (1, 300), (8190, 3), (8191, 3), (8192, 3), (8193, 2), (20000, 2)][choose(7)];
    let crlf = choose(2) == 1;
    let last = choose(2) == 1;
    let mut data = vec![];
    let mut want = vec![];
    for i in 0..k {
        let l: String = (0..len).map(|j| (b'a' + ((i + j) % 26) as u8) as char).collect();
        data.extend(l.as_bytes());
        if i + 1 < k || !last {
            data.extend(if crlf { &b"\r\n"[..] } else { b"\n" });
        } else if len == 0 {
            continue;
        }
        want.push(l);
    }
    let mut d = Driver::fixed(1);
    counting();
    let r = big(data, fchoose(2) == 1);
    let mut l = BufReader::new(r).lines();
    let mut got = 0;
    loop {
        match drive(&mut d, Pin::new(&mut l.next())) {
            Some(Some(Ok(x))) => {
                no_err("line");
                check!(got < want.len() && x == want[got], "line {got}: {} bytes, wrong", x.len());
                got += 1;
            }
            Some(Some(Err(e))) => surfaced(&e, false),
            Some(None) => break,
            None => return,
        }
    }
    check!(got == want.len(), "{got} of {} lines", want.len());
    obs(got as u64);
}
/// Writes around the default capacities.
fn ex_io_write(_b: u32) {
    budget(2, 1);
    let kind = choose(5);
    let cap = [8192, 1024, 33, 64, 1][kind];
    let sizes = [1, cap - 1, cap, cap + 1, 2 * cap + 3];
    let mut d = Driver::fixed(1);
    let ws: Vec<usize> = (0..3).map(|_| sizes[choose(5)]).collect();
    let total: usize = ws.iter().sum();
    let mut data = blob(total);
    let line = kind == 1 || kind == 2;
    let nl = choose(3);
    for (i, x) in data.iter_mut().enumerate() {
        if *x == b'\n' {
            *x = b'n';
        }
        if (nl == 1 && i % 700 == 40) || (nl == 2 && i % 23 == 7) {
            *x = b'\n';
        }
    }
    counting();
    let w0 = wr(2, 1, 1);
    let mut u: Pin<Box<dyn AsyncWrite>> = match kind {
        0 => Box::pin(BufWriter::new(w0)),
        1 => Box::pin(LineWriter::new(w0)),
        2 => Box::pin(LineWriter::with_capacity(33, w0)),
        _ => Box::pin(BufWriter::with_capacity(cap, w0)),
    };
    let mut acc = 0; // accepted
    let mut at = 0;
    let mut tries = 0;
    for n in ws {
        let end = at + n;
        while at < end {
            let r = drive(&mut d, std::pin::pin!(std::future::poll_fn(|cx| u.as_mut().poll_write(cx, &data[at..end]))));
            match r {
                Some(Ok(k)) => {
                    check!(k <= end - at, "accepted more than it was given");
                    at += k;
                    acc = at;
                    if k == 0 {
                        check!(wlog(0).zeros > 0, "a write of nothing");
                    }
                }
                Some(Err(e)) => surfaced(&e, wlog(0).zeros > 0),
                None => return,
            }
            tries += 1;
            check!(tries < 10_000, "no progress in writing");
            let wl = wlog(0);
            same(&wl.got, &data[..wl.got.len().min(acc)], "written");
            // (the default capacity may change)
            check!(kind < 2 || acc - wl.got.len() <= cap, "{} bytes held back", acc - wl.got.len());
            if line && io_(|i| i.nerr) == 0 && wl.zeros == 0 && wl.shorts == 0 {
                check!(!data[wl.got.len()..acc].contains(&b'\n'), "a complete line is held back");
            }
        }
    }
    let close = fchoose(2) == 1;
    for _ in 0..3 {
        let r = drive(&mut d, std::pin::pin!(std::future::poll_fn(|cx| if close { u.as_mut().poll_close(cx) } else { u.as_mut().poll_flush(cx) })));
        match r {
            Some(Ok(())) => {
                let wl = wlog(0);
                same(&wl.got, &data, "written");
                check!(wl.flushed == total && (!close || wl.closed), "flush/close completes early");
                break;
            }
            Some(Err(e)) => {
                surfaced(&e, wlog(0).zeros > 0);
                if close {
                    break;
                }
            }
            None => return,
        }
    }
    obs(wlog(0).got.len() as u64);
}
