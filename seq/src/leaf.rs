//! The environment: scripted leaf futures, streams, sinks; strict wakers; a driver that explores
//! every order of readiness, wake-ups, spurious polls and cancellation.
use crate::ch::*;
use futures::sink::Sink;
use futures::stream::{FusedStream, Stream};
use std::cell::RefCell;
use std::collections::VecDeque;
use std::fmt::Debug;
use std::future::Future;
use std::pin::Pin;
use std::sync::atomic::{AtomicU64, Ordering::SeqCst};
use std::sync::Arc;
use std::task::{Context, Poll, Wake, Waker};

#[derive(Clone, Copy, PartialEq, Debug)]
pub enum Gs {
    Fresh,
    Waiting,
    Fired,
    Done,
    Dropped,
}
pub struct LeafSt {
    pub name: &'static str,
    pub gs: Gs,
    pub waker: Option<Waker>,
    pub polls: u32,
    /// poll number of the driver in which this leaf was last polled
    pub last_poll: u64,
    /// has completed
    pub done: bool,
}
#[derive(Default)]
pub struct World {
    /// leaves in the order of their completion
    pub fin: Vec<usize>,
    /// the result is determined: nothing may be polled any more
    pub settled: Option<std::rc::Rc<dyn Fn() -> bool>>,
    /// cancellation and panics may strike anywhere
    pub chaos: bool,
    /// every waiting leaf must wake the task (nothing waits that is not wanted)
    pub strict_wake: bool,
    /// a leaf that may wait without anyone wanting to be woken for it
    pub exempt: Option<std::rc::Rc<dyn Fn(usize) -> bool>>,
    /// per driver poll: the leaf asked first, and whether any source had ended by then
    pub firsts: Vec<(u64, usize, bool)>,
    /// the items given out by all sources, in order
    pub log: Vec<(usize, u32)>,
    /// called whenever the thing under test returns Pending
    pub on_pending: Option<std::rc::Rc<dyn Fn()>>,
    /// at a pending point: the task has already been woken
    pub yielding: bool,
    pub leaves: Vec<LeafSt>,
    pub pend: u32,
    pub pat: usize,
    pub selfwake: u32,
    pub toks: Vec<(u32, bool)>,
    pub live_toks: i64,
    pub poll_no: u64,
    pub emitted: usize,
    pub lazy: Option<std::rc::Rc<dyn Fn() -> (usize, bool)>>,
    pub srcs: Vec<SrcLog>,
    pub futs_started: usize,
    pub futs_done: usize,
    pub no_leak: bool,
    pub panics: u32,
    pub ev: Vec<(u32, u32)>,
    pub max_conc: u32,
    pub conc: u32,
}
#[derive(Default, Clone)]
pub struct SrcLog {
    pub items: Vec<u32>,
    pub ended: bool,
    pub polls: u32,
}
thread_local! { pub static W: RefCell<World> = RefCell::new(World::default()); }
pub fn w<R>(f: impl FnOnce(&mut World) -> R) -> R {
    W.with(|w| f(&mut w.borrow_mut()))
}
pub static CHAOS: std::sync::atomic::AtomicBool = std::sync::atomic::AtomicBool::new(false);
pub fn reset() {
    let old = W.with(|w| std::mem::take(&mut *w.borrow_mut()));
    drop(old);
    reset_sinks();
    crate::io::reset_io();
    LIVE_FLAGS.with(|f| f.set(0));
    w(|w| {
        w.no_leak = true;
        if CHAOS.load(SeqCst) {
            w.chaos = true;
            w.panics = 1;
        }
    });
}
/// The execution ended by itself (not by a failed check): nothing may be left over.
pub fn finish(ok: bool) {
    if !ok || failed() {
        return;
    }
    let (live, leak) = w(|w| (w.live_toks, w.no_leak));
    if !leak {
        return;
    }
    if live != 0 {
        fail_soft(format!("{live} values are still alive after everything was dropped"));
    }
    if let Some(d) = w(|w| w.leaves.iter().position(|l| l.gs != Gs::Dropped).map(|i| format!("{}#{i}", w.leaves[i].name))) {
        fail_soft(format!("{d} was leaked: it is still alive after everything was dropped"));
    }
    let old = W.with(|w| std::mem::take(&mut *w.borrow_mut()));
    drop(old);
    let n = LIVE_FLAGS.with(|f| f.get());
    if n != 0 {
        fail_soft(format!("{n} wakers were leaked: they are still alive after everything was dropped"));
    }
}
/// Leaves and drivers are never leaked in this execution, except deliberately.
pub fn may_leak() {
    w(|w| w.no_leak = false);
}

/// Set the budgets of this execution.
pub fn budget(pend: u32, selfwake: u32) {
    // huge: nobody is ever pending; or all but the sources, or everybody is at every first poll, and
    // gets ready in order, in reverse order, or all at once
    let pat = if huge() { fchoose(7) } else { 0 };
    w(|w| w.pat = pat);
    w(|w| {
        w.pend = pend;
        w.selfwake = selfwake;
    });
}
/// Allow leaves to panic (at most `n` times in an execution).
pub fn allow_panics(n: u32) {
    w(|w| w.panics = n);
}
pub struct LeafPanic;

pub fn new_leaf(name: &'static str) -> usize {
    w(|w| {
        w.leaves.push(LeafSt { name, gs: Gs::Fresh, waker: None, polls: 0, last_poll: 0, done: false });
        w.leaves.len() - 1
    })
}

/// May the leaf take its next step now?  Explores readiness, pending, and self-waking.
pub fn gate(id: usize, cx: &mut Context<'_>) -> bool {
    step();
    let (gs, name, no) = w(|w| {
        let no = w.poll_no;
        if w.firsts.last().map_or(true, |f| f.0 != no) {
            let e = w.srcs.iter().any(|s| s.ended);
            w.firsts.push((no, id, e));
        }
        let l = &mut w.leaves[id];
        l.polls += 1;
        l.last_poll = no;
        (l.gs, l.name, no)
    });
    let _ = no;
    let st = w(|w| w.settled.clone());
    if let Some(f) = st {
        check!(!f(), "{name}#{id} polled although the result is already determined");
    }
    match gs {
        Gs::Done => fail(format!("{name}#{id} polled after completion")),
        Gs::Dropped => fail(format!("{name}#{id} polled after drop")),
        Gs::Fired => {
            w(|w| w.leaves[id].gs = Gs::Fresh);
            note(|| format!("  {name}#{id} ready (after wake)"));
            true
        }
        Gs::Waiting => {
            let wk = cx.waker().clone();
            let old = w(|w| w.leaves[id].waker.replace(wk));
            drop(old);
            note(|| format!("  {name}#{id} still pending"));
            false
        }
        Gs::Fresh => {
            let (p, sw, pan) = w(|w| (w.pend > 0, w.selfwake > 0 && w.pend > 0, w.panics > 0));
            let mut opts = vec![0];
            if p {
                opts.push(1);
            }
            if sw {
                opts.push(2);
            }
            if pan {
                opts.push(3);
            }
            let pat = w(|w| w.pat);
            let k = choose(opts.len());
            let k = if k == 0 && (pat > 3 || pat > 0 && name != "stream") { 9 } else { opts[k] };
            match k {
                0 => {
                    note(|| format!("  {name}#{id} ready"));
                    true
                }
                3 => {
                    note(|| format!("  {name}#{id} panics"));
                    w(|w| {
                        w.panics -= 1;
                        w.leaves[id].gs = Gs::Done;
                    });
                    std::panic::resume_unwind(Box::new(LeafPanic))
                }
                k => {
                    let wk = cx.waker().clone();
                    w(|w| {
                        w.pend -= (k != 9) as u32;
                        let l = &mut w.leaves[id];
                        l.gs = if k == 2 { Gs::Fired } else { Gs::Waiting };
                        if k == 2 {
                            w.selfwake -= 1;
                        } else {
                            l.waker = Some(wk);
                        }
                    });
                    note(|| format!("  {name}#{id} pending{}", if k == 2 { " (wakes itself at once)" } else { "" }));
                    if k == 2 {
                        cx.waker().wake_by_ref();
                    }
                    false
                }
            }
        }
    }
}
pub fn leaf_done(id: usize) {
    w(|w| {
        w.leaves[id].gs = Gs::Done;
        w.leaves[id].done = true;
        w.fin.push(id);
    });
}
/// The leaf futures that completed, in order.
pub fn fins() -> Vec<usize> {
    w(|w| w.fin.clone())
}
pub fn isfin(id: usize) -> bool {
    w(|w| w.leaves[id].done)
}
pub fn polls(id: usize) -> u32 {
    w(|w| w.leaves[id].polls)
}
pub fn isdropped(id: usize) -> bool {
    w(|w| w.leaves[id].gs == Gs::Dropped)
}
pub fn leaf_dropped(id: usize) {
    let wk = W.with(|w| {
        if let Ok(mut w) = w.try_borrow_mut() {
            if let Some(l) = w.leaves.get_mut(id) {
                if l.gs == Gs::Dropped {
                    fail_soft(format!("{}#{id} dropped twice", l.name));
                }
                l.gs = Gs::Dropped;
                return l.waker.take();
            }
        }
        None
    });
    drop(wk);
}
/// Leaves that wait for the environment.
pub fn waiting() -> Vec<usize> {
    w(|w| w.leaves.iter().enumerate().filter(|(_, l)| l.gs == Gs::Waiting).map(|(i, _)| i).collect())
}
/// The environment makes a waiting leaf ready and wakes whoever polled it last.
pub fn fire(id: usize) {
    let wk = w(|w| {
        let l = &mut w.leaves[id];
        assert_eq!(l.gs, Gs::Waiting);
        l.gs = Gs::Fired;
        l.waker.take()
    });
    note(|| format!("environment wakes {}#{id}", w(|w| w.leaves[id].name)));
    if let Some(x) = wk {
        x.wake();
    }
}

// ---- values -------------------------------------------------------------------------------

/// A value whose moves and drops are accounted for.
#[derive(Debug)]
pub struct Tok(pub u32, usize);
pub fn tok(v: u32) -> Tok {
    w(|w| {
        w.toks.push((v, true));
        w.live_toks += 1;
        Tok(v, w.toks.len() - 1)
    })
}
impl Drop for Tok {
    fn drop(&mut self) {
        let bad = W.with(|w| match w.try_borrow_mut() {
            Ok(mut w) => match w.toks.get_mut(self.1) {
                Some(t) if t.1 && t.0 == self.0 => {
                    t.1 = false;
                    w.live_toks -= 1;
                    false
                }
                Some(_) => true,
                None => false,
            },
            Err(_) => false,
        });
        if bad {
            fail_soft(format!("value {} dropped twice", self.0));
        }
    }
}
impl Clone for Tok {
    fn clone(&self) -> Tok {
        tok(self.0)
    }
}
impl PartialEq for Tok {
    fn eq(&self, o: &Tok) -> bool {
        self.0 == o.0
    }
}
pub fn live_toks() -> i64 {
    w(|w| w.live_toks)
}

// ---- futures ------------------------------------------------------------------------------

/// A leaf future.
pub struct Fut<T> {
    pub id: usize,
    v: Option<T>,
    counted: bool,
}
impl<T> Unpin for Fut<T> {}
pub fn fut<T>(v: T) -> Fut<T> {
    named("fut", v)
}
pub fn named<T>(n: &'static str, v: T) -> Fut<T> {
    Fut { id: new_leaf(n), v: Some(v), counted: false }
}
/// A leaf future returned by a closure under test: counted in the world's log.
pub fn cfut<T>(v: T) -> Fut<T> {
    w(|w| w.futs_started += 1);
    Fut { id: new_leaf("closure"), v: Some(v), counted: true }
}
impl<T> Future for Fut<T> {
    type Output = T;
    fn poll(mut self: Pin<&mut Self>, cx: &mut Context<'_>) -> Poll<T> {
        if !gate(self.id, cx) {
            return Poll::Pending;
        }
        leaf_done(self.id);
        if self.counted {
            w(|w| w.futs_done += 1);
        }
        Poll::Ready(self.v.take().unwrap())
    }
}
impl<T> Drop for Fut<T> {
    fn drop(&mut self) {
        leaf_dropped(self.id);
    }
}
impl<T> futures::future::FusedFuture for Fut<T> {
    fn is_terminated(&self) -> bool {
        self.v.is_none()
    }
}

// ---- streams ------------------------------------------------------------------------------

#[derive(Clone, Copy, PartialEq, Debug)]
pub enum Hint {
    Exact,
    Unknown,
    Loose,
    /// lower bound only
    Lower,
    /// no useful bound, at the limit of the type
    Max,
}
/// A leaf stream with a fixed list of items, any of which may be preceded by pending polls.
pub struct Src<T> {
    pub id: usize,
    pub n: usize,
    items: VecDeque<T>,
    tag: VecDeque<u32>,
    ended: bool,
    pub hint: Hint,
    /// polling again after the end is fine (and counted), as for a fused stream
    pub tolerant: bool,
}
impl<T> Unpin for Src<T> {}
pub fn src_of<T>(items: Vec<T>, tags: Vec<u32>) -> Src<T> {
    let id = new_leaf("stream");
    let n = w(|w| {
        w.srcs.push(SrcLog::default());
        w.srcs.len() - 1
    });
    Src { id, n, items: items.into(), tag: tags.into(), ended: false, hint: Hint::Exact, tolerant: false }
}
/// A source of `0..=max` items (explored), numbered from `base`.
pub fn src(base: u32, max: usize) -> Src<u32> {
    let n = count(max);
    let base = if long() { base * 100 } else { base };
    let v: Vec<u32> = (0..n as u32).map(|i| base + i).collect();
    src_of(v.clone(), v)
}
/// As `src`, one of many: short even in long mode.
pub fn inner_src(base: u32, max: usize) -> Src<u32> {
    if long() {
        let n = [2, 0, 1][dchoose(3)];
        let v: Vec<u32> = (0..n).map(|i| base * 100 + i).collect();
        src_of(v.clone(), v)
    } else {
        src(base, max)
    }
}
/// As `src`, with every item's value taken from `0..vals` (explored).
pub fn src_vals(max: usize, vals: usize) -> Src<u32> {
    let n = count(max);
    let v: Vec<u32> = (0..n).map(|_| dchoose(vals) as u32).collect();
    src_of(v.clone(), v)
}
impl<T> Src<T> {
    pub fn any_hint(mut self) -> Self {
        self.hint = [Hint::Exact, Hint::Unknown, Hint::Loose, Hint::Lower, Hint::Max][dchoose(5)];
        self
    }
    pub fn hint(mut self, h: Hint) -> Self {
        self.hint = h;
        self
    }
    pub fn tolerant(mut self) -> Self {
        self.tolerant = true;
        self
    }
    pub fn left(&self) -> usize {
        self.items.len()
    }
}
impl<T> Stream for Src<T> {
    type Item = T;
    fn poll_next(mut self: Pin<&mut Self>, cx: &mut Context<'_>) -> Poll<Option<T>> {
        w(|w| w.srcs[self.n].polls += 1);
        if self.ended && self.tolerant {
            return Poll::Ready(None);
        }
        let lz = w(|w| w.lazy.clone());
        if let Some(l) = lz {
            let (n, fin) = l();
            let em = w(|w| w.emitted);
            check!(!fin, "source polled although the stream is already finished");
            let (st, dn) = w(|w| (w.futs_started, w.futs_done));
            check!(st == dn, "source polled while the future for an earlier item is still running");
            check!(n <= em, "source polled although an output is already determined ({n} determined, {em} emitted)");
        }
        if !gate(self.id, cx) {
            return Poll::Pending;
        }
        let n = self.n;
        match self.items.pop_front() {
            Some(x) => {
                let t = self.tag.pop_front().unwrap_or(0);
                w(|w| {
                    w.srcs[n].items.push(t);
                    w.log.push((n, t));
                });
                note(|| format!("  stream#{} yields item {}", self.id, t));
                Poll::Ready(Some(x))
            }
            None => {
                self.ended = true;
                w(|w| w.srcs[n].ended = true);
                if !self.tolerant {
                    leaf_done(self.id);
                }
                note(|| format!("  stream#{} ends", self.id));
                Poll::Ready(None)
            }
        }
    }
    fn size_hint(&self) -> (usize, Option<usize>) {
        let n = self.items.len();
        match self.hint {
            Hint::Exact => (n, Some(n)),
            Hint::Unknown => (0, None),
            Hint::Loose => (n.saturating_sub(1), Some(n + 1)),
            Hint::Lower => (n, None),
            Hint::Max => (0, Some(usize::MAX)),
        }
    }
}
impl<T> FusedStream for Src<T> {
    fn is_terminated(&self) -> bool {
        self.ended
    }
}
impl<T> Drop for Src<T> {
    fn drop(&mut self) {
        leaf_dropped(self.id);
    }
}

// ---- sinks --------------------------------------------------------------------------------

#[derive(Default, Clone, Debug)]
pub struct SinkLog {
    pub items: Vec<u32>,
    /// how many items were handed over before the last completed flush
    pub flushed: usize,
    pub closed: bool,
    pub errors: u32,
    /// the driver's poll in which it was last called
    pub last: u64,
}
thread_local! { pub static SL: RefCell<Vec<SinkLog>> = RefCell::new(vec![]); }
pub fn slog(i: usize) -> SinkLog {
    SL.with(|s| s.borrow()[i].clone())
}
/// A leaf sink: readiness, flushing and closing may each take any number of polls, and any step
/// may fail if errors are allowed; checks that it is used as the Sink contract says.
pub struct Snk {
    pub rid: usize,
    fid: usize,
    cid: usize,
    pub n: usize,
    ready: bool,
    closing: bool,
    dead: bool,
    pub errs: u32,
    /// poll_close may be called again after it has succeeded
    pub reclose: bool,
}
impl Unpin for Snk {}
pub fn snk(errs: u32) -> Snk {
    let n = SL.with(|s| {
        s.borrow_mut().push(SinkLog::default());
        s.borrow().len() - 1
    });
    Snk { rid: new_leaf("sink.ready"), fid: new_leaf("sink.flush"), cid: new_leaf("sink.close"), n, ready: false, closing: false, dead: false, errs, reclose: false }
}
pub fn reset_sinks() {
    SL.with(|s| s.borrow_mut().clear());
}
#[derive(Debug, PartialEq, Clone, Copy)]
pub struct SErr(pub u32);
impl Snk {
    fn l<R>(&self, f: impl FnOnce(&mut SinkLog) -> R) -> R {
        SL.with(|s| f(&mut s.borrow_mut()[self.n]))
    }
    fn err(&mut self, at: u32) -> bool {
        if self.errs > 0 && flip() {
            self.errs -= 1;
            self.dead = true;
            self.l(|l| l.errors += 1);
            note(|| format!("  sink{} fails (at {at})", self.n));
            return true;
        }
        false
    }
    pub fn ids(&self) -> (usize, usize, usize) {
        (self.rid, self.fid, self.cid)
    }
    fn live(&self, what: &str) {
        let no = w(|w| w.poll_no);
        self.l(|l| l.last = no);
        check!(!self.dead, "{what} called on a sink that has failed");
        check!(!self.l(|l| l.closed), "{what} called on a closed sink");
    }
}
impl Sink<u32> for Snk {
    type Error = SErr;
    fn poll_ready(mut self: Pin<&mut Self>, cx: &mut Context<'_>) -> Poll<Result<(), SErr>> {
        self.live("poll_ready");
        check!(!self.closing, "poll_ready called after poll_close");
        if self.ready {
            return Poll::Ready(Ok(()));
        }
        if !gate(self.rid, cx) {
            return Poll::Pending;
        }
        if self.err(1) {
            return Poll::Ready(Err(SErr(1)));
        }
        self.ready = true;
        Poll::Ready(Ok(()))
    }
    fn start_send(mut self: Pin<&mut Self>, x: u32) -> Result<(), SErr> {
        self.live("start_send");
        check!(!self.closing, "start_send called after poll_close");
        check!(self.ready, "start_send without a successful poll_ready before it");
        self.ready = false;
        if self.err(2) {
            return Err(SErr(2));
        }
        note(|| format!("  sink{} gets {x}", self.n));
        self.l(|l| l.items.push(x));
        Ok(())
    }
    fn poll_flush(mut self: Pin<&mut Self>, cx: &mut Context<'_>) -> Poll<Result<(), SErr>> {
        self.live("poll_flush");
        if self.l(|l| l.flushed == l.items.len()) {
            return Poll::Ready(Ok(()));
        }
        if !gate(self.fid, cx) {
            return Poll::Pending;
        }
        if self.err(3) {
            return Poll::Ready(Err(SErr(3)));
        }
        self.l(|l| l.flushed = l.items.len());
        Poll::Ready(Ok(()))
    }
    fn poll_close(mut self: Pin<&mut Self>, cx: &mut Context<'_>) -> Poll<Result<(), SErr>> {
        if self.reclose && self.l(|l| l.closed) {
            let no = w(|w| w.poll_no);
            self.l(|l| l.last = no);
            return Poll::Ready(Ok(()));
        }
        self.live("poll_close");
        self.closing = true;
        if !gate(self.cid, cx) {
            return Poll::Pending;
        }
        if self.err(4) {
            return Poll::Ready(Err(SErr(4)));
        }
        self.l(|l| {
            l.flushed = l.items.len();
            l.closed = true;
        });
        Poll::Ready(Ok(()))
    }
}
impl Drop for Snk {
    fn drop(&mut self) {
        leaf_dropped(self.rid);
        leaf_dropped(self.fid);
        leaf_dropped(self.cid);
    }
}

// ---- wakers and the driver ------------------------------------------------------------------

thread_local! { pub static LIVE_FLAGS: std::cell::Cell<i64> = std::cell::Cell::new(0); }
pub struct Flag {
    pub n: AtomicU64,
}
impl Drop for Flag {
    fn drop(&mut self) {
        LIVE_FLAGS.with(|f| f.set(f.get() - 1));
    }
}
/// Unwinds out of an execution in which the task is dropped.
pub struct Cancelled;
impl Wake for Flag {
    fn wake(self: Arc<Self>) {
        self.n.fetch_add(1, SeqCst);
    }
    fn wake_by_ref(self: &Arc<Self>) {
        self.n.fetch_add(1, SeqCst);
    }
}
pub fn flag() -> Arc<Flag> {
    LIVE_FLAGS.with(|f| f.set(f.get() + 1));
    Arc::new(Flag { n: AtomicU64::new(0) })
}

/// One task: every poll may use a waker of its own, and only that of the latest poll counts.
pub struct Driver {
    pub stable: bool,
    pub flag: Arc<Flag>,
    seen: u64,
    pub spurious: u32,
    pub cancel: bool,
    pub polls: u64,
    /// wakes that arrived while polling
    pub in_poll: u64,
}
impl Driver {
    pub fn new(spurious: u32) -> Driver {
        Driver { stable: flip(), flag: flag(), seen: 0, spurious, cancel: false, polls: 0, in_poll: 0 }
    }
    pub fn fixed(spurious: u32) -> Driver {
        Driver { stable: false, flag: flag(), seen: 0, spurious, cancel: false, polls: 0, in_poll: 0 }
    }
    pub fn poll<R>(&mut self, f: impl FnOnce(&mut Context<'_>) -> R) -> R {
        step();
        counting();
        if !self.stable {
            self.flag = flag();
        }
        self.seen = self.flag.n.load(SeqCst);
        self.polls += 1;
        w(|w| w.poll_no += 1);
        note(|| format!("poll {}", self.polls));
        let wk: Waker = self.flag.clone().into();
        let r = f(&mut Context::from_waker(&wk));
        self.in_poll = self.flag.n.load(SeqCst) - self.seen;
        r
    }
    pub fn woken(&self) -> bool {
        self.flag.n.load(SeqCst) > self.seen
    }
    pub fn wakes(&self) -> u64 {
        self.flag.n.load(SeqCst) - self.seen
    }
    /// After Pending: let the environment act until the task is due to be polled again.
    /// Returns false if the task is to be dropped instead.
    pub fn wait(&mut self) -> bool {
        let y = self.woken();
        let op = w(|w| {
            w.yielding = y;
            w.on_pending.clone()
        });
        if let Some(f) = op {
            f();
        }
        loop {
            let c = waiting();
            let woken = self.woken();
            let mut opts: Vec<isize> = vec![];
            if woken {
                opts.push(-1);
            }
            for i in &c {
                opts.push(*i as isize);
            }
            match w(|w| w.pat) {
                2 | 5 => opts[woken as usize..].reverse(),
                3 | 6 => opts.rotate_left((woken && !c.is_empty()) as usize),
                _ => {}
            }
            if !woken {
                if c.is_empty() {
                    fail_kind(
                        "stuck",
                        format!("the task is pending, its latest waker has not been woken, and nothing is left to wake it ({})", leaves_desc()),
                    );
                }
                if self.spurious > 0 {
                    opts.push(-2);
                }
            }
            if self.cancel {
                opts.push(-3);
            }
            if w(|w| w.chaos) {
                opts.push(-4);
            }
            match opts[choose(opts.len())] {
                -1 => return true,
                -2 => {
                    self.spurious -= 1;
                    note(|| "spurious poll".into());
                    return true;
                }
                -3 => {
                    note(|| "the task is dropped".into());
                    return false;
                }
                -4 => {
                    note(|| "the task is dropped".into());
                    std::panic::resume_unwind(Box::new(Cancelled))
                }
                i => {
                    fire(i as usize);
                    let ex = w(|w| w.exempt.clone());
                    if !self.woken() && w(|w| w.strict_wake) && !ex.map_or(false, |e| e(i as usize)) {
                        fail_kind("stuck", format!("leaf #{i} became ready and woke the waker it was last polled with, but the task's latest waker was not woken ({})", leaves_desc()));
                    }
                }
            }
        }
    }
}
pub fn leaves_desc() -> String {
    w(|w| w.leaves.iter().enumerate().map(|(i, l)| format!("{}#{i}={:?}", l.name, l.gs)).collect::<Vec<_>>().join(" "))
}

/// Drive a future to completion; None if it was cancelled.
pub fn drive<F: Future + ?Sized>(d: &mut Driver, f: Pin<&mut F>) -> Option<F::Output> {
    let mut f = f;
    loop {
        match d.poll(|cx| f.as_mut().poll(cx)) {
            Poll::Ready(v) => return Some(v),
            Poll::Pending => {
                if !d.wait() {
                    return None;
                }
            }
        }
    }
}

/// What the model says has to come out, given what the leaves did so far.
pub struct Model<T> {
    pub out: Vec<T>,
    pub fin: bool,
}
#[derive(Clone, Copy)]
pub struct SOpts {
    pub spurious: u32,
    /// the source must not be polled while an output is due
    pub lazy: bool,
    /// after the end: poll again this often and expect the end again
    pub again: u32,
    pub cancel: bool,
    /// outputs may be withheld (Pending although the model has more)
    pub withhold: bool,
    /// size_hint must be right at every moment
    pub hints: bool,
}
pub const SO: SOpts = SOpts { spurious: 1, lazy: true, again: 0, cancel: false, withhold: false, hints: true };

/// Run a stream against its model, checking outputs, promptness, laziness and size hints at
/// every step.  `term` reports is_terminated where there is one.
pub fn run_stream<S: Stream, T: PartialEq + Debug + 'static>(
    d: &mut Driver,
    s: S,
    key: impl Fn(S::Item) -> T,
    term: impl Fn(&S) -> Option<bool>,
    model: impl Fn() -> Model<T> + 'static,
    o: SOpts,
) -> Option<Vec<T>> {
    let mut s = Box::pin(s);
    let mut out: Vec<T> = vec![];
    let mut hints: Vec<(usize, (usize, Option<usize>))> = vec![];
    let model = std::rc::Rc::new(model);
    if o.lazy {
        let m = model.clone();
        w(|w| w.lazy = Some(std::rc::Rc::new(move || { let m = m(); (m.out.len(), m.fin) })));
    }
    d.cancel = o.cancel;
    loop {
        hints.push((out.len(), s.size_hint()));
        let t = term(&s);
        let r = d.poll(|cx| s.as_mut().poll_next(cx));
        match r {
            Poll::Ready(Some(x)) => {
                let x = key(x);
                note(|| format!("yields {:?}", x));
                check!(t != Some(true), "is_terminated was true, but the stream yielded {:?}", x);
                let m = model();
                check!(out.len() < m.out.len() && m.out[out.len()] == x, "yielded {:?} after {:?}, expected {:?}", x, out, m.out.get(out.len()));
                out.push(x);
                w(|w| w.emitted = out.len());
            }
            Poll::Ready(None) => {
                note(|| "ends".into());
                let m = model();
                check!(m.fin && out.len() == m.out.len(), "ended after {:?}, expected {:?}{}", out, m.out, if m.fin { "" } else { " and more" });
                break;
            }
            Poll::Pending => {
                check!(t != Some(true), "is_terminated was true, but the stream is pending");
                let m = model();
                check!(o.withhold || (!m.fin && out.len() == m.out.len()), "pending although it could go on: yielded {:?}, expected {:?}{}", out, m.out, if m.fin { " and the end" } else { "" });
                hints.push((out.len(), s.size_hint()));
                if !d.wait() {
                    return None;
                }
            }
        }
    }
    hints.push((out.len(), s.size_hint()));
    if let Some(t) = term(&s) {
        check!(t, "is_terminated is false after the end of the stream");
    }
    w(|w| w.lazy = None);
    for _ in 0..o.again {
        let r = d.poll(|cx| s.as_mut().poll_next(cx));
        check!(matches!(r, Poll::Ready(None)), "polled again after the end, the stream does not report the end");
        hints.push((out.len(), s.size_hint()));
    }
    if o.hints {
        for (n, (lo, hi)) in hints {
            let left = out.len() - n;
            check!(lo <= left, "size_hint's lower bound {lo} (upper {:?}) with {left} items to come", hi);
            check!(hi.map_or(true, |h| h >= left), "size_hint's upper bound {:?} with {left} items to come", hi);
        }
    }
    obs(out.len() as u64);
    Some(out)
}
pub fn noterm<S>(_: &S) -> Option<bool> {
    None
}
pub fn fused<S: FusedStream>(s: &S) -> Option<bool> {
    Some(s.is_terminated())
}
pub fn items(i: usize) -> Vec<u32> {
    w(|w| w.srcs[i].items.clone())
}
pub fn ended(i: usize) -> bool {
    w(|w| w.srcs[i].ended)
}
pub fn done() -> usize {
    w(|w| w.futs_done)
}

/// Run a future to completion, checking is_terminated on the way.
pub fn run_future<F: Future>(d: &mut Driver, f: F, term: impl Fn(&F) -> Option<bool>) -> Option<F::Output> {
    let mut f = Box::pin(f);
    loop {
        check!(term(&f) != Some(true), "is_terminated is true before completion");
        match d.poll(|cx| f.as_mut().poll(cx)) {
            Poll::Ready(v) => {
                check!(term(&f) != Some(false), "is_terminated is false after completion");
                note(|| "completes".into());
                return Some(v);
            }
            Poll::Pending => {
                if !d.wait() {
                    return None;
                }
            }
        }
    }
}
pub fn ffused<F: futures::future::FusedFuture>(f: &F) -> Option<bool> {
    Some(f.is_terminated())
}
/// Laziness for futures that consume a stream: `fin` says that the result is determined.
pub fn lazy_until(fin: impl Fn() -> bool + 'static) {
    w(|w| w.lazy = Some(std::rc::Rc::new(move || (0, fin()))));
}

/// Run a future against its model: it has to complete exactly when, and with what, the model
/// says, and poll nothing afterwards.
pub fn run_fut<F: Future, T: PartialEq + Debug + 'static>(
    d: &mut Driver,
    f: F,
    key: impl Fn(F::Output) -> T,
    term: impl Fn(&F) -> Option<bool>,
    model: impl Fn() -> Option<T> + 'static,
) -> Option<T> {
    let mut f = Box::pin(f);
    let model = std::rc::Rc::new(model);
    let m2 = model.clone();
    w(|w| w.settled = Some(std::rc::Rc::new(move || m2().is_some())));
    loop {
        check!(term(&f) != Some(true), "is_terminated is true before completion");
        match d.poll(|cx| f.as_mut().poll(cx)) {
            Poll::Ready(v) => {
                let v = key(v);
                check!(term(&f) != Some(false), "is_terminated is false after completion");
                note(|| format!("completes with {:?}", v));
                w(|w| w.settled = None);
                let m = model();
                check!(m.as_ref() == Some(&v), "completes with {:?}, expected {:?}", v, m);
                obs(d.polls);
                return Some(v);
            }
            Poll::Pending => {
                let m = model();
                check!(m.is_none(), "pending although the result is determined: {:?}", m);
                if !d.wait() {
                    w(|w| w.settled = None);
                    return None;
                }
            }
        }
    }
}
pub fn fnoterm<F>(_: &F) -> Option<bool> {
    None
}

pub fn strict() {
    w(|w| w.strict_wake = true);
}
pub fn on_pending(f: impl Fn() + 'static) {
    w(|w| w.on_pending = Some(std::rc::Rc::new(f)));
}

pub fn log() -> Vec<(usize, u32)> {
    w(|w| w.log.clone())
}
pub fn exempt(f: impl Fn(usize) -> bool + 'static) {
    w(|w| w.exempt = Some(std::rc::Rc::new(f)));
}
pub fn emitted() -> usize {
    w(|w| w.emitted)
}
/// At a pending point: was the leaf polled, and did it answer that it has nothing now?  (Or has
/// the task been woken already, so that it will be polled.)
pub fn asked(id: usize) -> bool {
    w(|w| w.yielding || w.leaves[id].last_poll == w.poll_no && matches!(w.leaves[id].gs, Gs::Waiting | Gs::Fired))
}
/// Was the leaf polled during the driver's current (or last) poll?
pub fn polled_now(id: usize) -> bool {
    w(|w| w.leaves[id].last_poll == w.poll_no)
}
