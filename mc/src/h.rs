//! Harness helpers: wakers, block_on, tokens with drop accounting.
use std::future::Future;
use std::pin::Pin;
use std::task::{Context, Poll, RawWaker, RawWakerVTable, Waker};

pub use mcrt::{allow_leak, catch, choose, fail, live_allocs, note, obs, quiet, skip, tid, yield_now, Reg};

#[macro_export]
macro_rules! check {
    ($c:expr, $($a:tt)*) => { if !$c { let m = mcrt::quiet(|| format!($($a)*)); $crate::h::fail(m) } };
}

/// One waker instance: every clone is its own heap block, so that use after drop, double drop
/// and unsynchronised hand-over of wakers are visible to the memory checks, and `will_wake` is
/// never true between polls.
struct Inst {
    tid: usize,
    gen: u64,
}
unsafe fn w_clone(p: *const ()) -> RawWaker {
    let i = &*(p as *const Inst);
    RawWaker::new(Box::into_raw(Box::new(Inst { tid: i.tid, gen: i.gen })) as *const (), &VT)
}
unsafe fn w_wake(p: *const ()) {
    w_wake_ref(p);
    w_drop(p);
}
unsafe fn w_wake_ref(p: *const ()) {
    let i = &*(p as *const Inst);
    mcrt::unpark(i.tid, i.gen);
}
unsafe fn w_drop(p: *const ()) {
    drop(Box::from_raw(p as *mut Inst));
}
static VT: RawWakerVTable = RawWakerVTable::new(w_clone, w_wake, w_wake_ref, w_drop);

/// Waker of the running thread, valid for its current poll generation.
pub fn strict_waker() -> Waker {
    let i = Inst { tid: tid(), gen: mcrt::next_gen() };
    unsafe { Waker::from_raw(RawWaker::new(Box::into_raw(Box::new(i)) as *const (), &VT)) }
}

unsafe fn s_clone(p: *const ()) -> RawWaker {
    RawWaker::new(p, &SVT)
}
unsafe fn s_wake(p: *const ()) {
    mcrt::unpark(p as usize - 1, 0);
}
unsafe fn s_drop(_: *const ()) {}
static SVT: RawWakerVTable = RawWakerVTable::new(s_clone, s_wake, s_wake, s_drop);
/// Waker of the running thread that stays valid (and `will_wake`) across polls.
pub fn stable_waker() -> Waker {
    unsafe { Waker::from_raw(RawWaker::new((tid() + 1) as *const (), &SVT)) }
}
unsafe fn n_clone(p: *const ()) -> RawWaker {
    RawWaker::new(p, &NVT)
}
unsafe fn n_nop(_: *const ()) {}
static NVT: RawWakerVTable = RawWakerVTable::new(n_clone, n_nop, n_nop, n_nop);
pub fn noop_waker() -> Waker {
    unsafe { Waker::from_raw(RawWaker::new(std::ptr::null(), &NVT)) }
}

/// Drives `f` to completion on this logical thread; a missing wake-up shows as a deadlock.
pub fn block_on<F: Future>(f: F) -> F::Output {
    let mut f = std::pin::pin!(f);
    block_on_pin(f.as_mut())
}
pub fn block_on_pin<F: Future + ?Sized>(mut f: Pin<&mut F>) -> F::Output {
    loop {
        let w = strict_waker();
        let r = f.as_mut().poll(&mut Context::from_waker(&w));
        drop(w);
        match r {
            Poll::Ready(v) => return v,
            Poll::Pending => mcrt::park(),
        }
    }
}
/// Polls with one and the same waker, at first once more than necessary (a task may be polled
/// without having been woken, and a waker already registered must still be rung).
pub fn block_on_stable<F: Future>(f: F) -> F::Output {
    let mut f = std::pin::pin!(f);
    let w = stable_waker();
    let mut again = true;
    loop {
        match f.as_mut().poll(&mut Context::from_waker(&w)) {
            Poll::Ready(v) => return v,
            Poll::Pending if again => again = false,
            Poll::Pending => mcrt::park(),
        }
    }
}
pub fn poll_once<F: Future + ?Sized>(f: Pin<&mut F>) -> Poll<F::Output> {
    let w = strict_waker();
    let r = f.poll(&mut Context::from_waker(&w));
    drop(w);
    r
}
pub fn poll_with<F: Future + ?Sized>(f: Pin<&mut F>, w: &Waker) -> Poll<F::Output> {
    f.poll(&mut Context::from_waker(w))
}
pub fn park() {
    mcrt::park()
}

/// A value whose drops are counted: at the end of a scenario each token must have been dropped
/// exactly once (`Tok::check_all`).
pub struct Tok(pub u64);
const DROPS: u64 = 1 << 40;
const MADE: Reg = Reg(1 << 41);
const DONE: Reg = Reg((1 << 41) + 1);
impl Tok {
    pub fn new(v: u64) -> Tok {
        MADE.quiet_add(1);
        Tok(v)
    }
    pub fn check_all() {
        check!(MADE.peek() == DONE.peek(), "{} values were made but {} were dropped", MADE.peek(), DONE.peek());
    }
}
impl Drop for Tok {
    fn drop(&mut self) {
        DONE.quiet_add(1);
        let n = Reg::new(DROPS + self.0).quiet_add(1);
        check!(n == 1, "value {} was dropped {} times", self.0, n);
    }
}
impl std::fmt::Debug for Tok {
    fn fmt(&self, f: &mut std::fmt::Formatter<'_>) -> std::fmt::Result {
        write!(f, "Tok({})", self.0)
    }
}
impl PartialEq for Tok {
    fn eq(&self, o: &Tok) -> bool {
        self.0 == o.0
    }
}

struct Cnt {
    id: u64,
}
unsafe fn c_clone(p: *const ()) -> RawWaker {
    let i = &*(p as *const Cnt);
    RawWaker::new(Box::into_raw(Box::new(Cnt { id: i.id })) as *const (), &CVT)
}
unsafe fn c_wake(p: *const ()) {
    c_wake_ref(p);
    c_drop(p);
}
unsafe fn c_wake_ref(p: *const ()) {
    let i = &*(p as *const Cnt);
    Reg(i.id).quiet_add(1);
}
unsafe fn c_drop(p: *const ()) {
    drop(Box::from_raw(p as *mut Cnt));
}
static CVT: RawWakerVTable = RawWakerVTable::new(c_clone, c_wake, c_wake_ref, c_drop);
const CNT: u64 = 1 << 42;
/// A waker that counts its wakes (`wakes(id)`); for single-threaded exploration or final checks.
pub fn counting_waker(id: u64) -> Waker {
    unsafe { Waker::from_raw(RawWaker::new(Box::into_raw(Box::new(Cnt { id: CNT + id })) as *const (), &CVT)) }
}
pub fn wakes(id: u64) -> u64 {
    Reg(CNT + id).peek()
}
pub fn fresh_id() -> u64 {
    Reg((1 << 41) + 2).quiet_add(1)
}

/// Enumerate subsets: a boolean choice.
pub fn flip() -> bool {
    choose(2) == 1
}

struct Snd<T>(T);
unsafe impl<T> Send for Snd<T> {}
static mut HANDLES: Vec<Option<std::thread::JoinHandle<()>>> = Vec::new();
/// Starts a logical thread: a fiber, or a real thread in OS mode.
pub fn spawn(f: impl FnOnce() + 'static) -> usize {
    if !mcrt::os_mode() {
        return mcrt::spawn(f);
    }
    let f = Snd(f);
    let h = std::thread::spawn(move || {
        let f = f;
        (f.0)()
    });
    quiet(|| unsafe {
        #[allow(static_mut_refs)]
        let v = &mut HANDLES;
        v.push(Some(h));
        v.len() - 1
    })
}
pub fn join(t: usize) {
    if !mcrt::os_mode() {
        return mcrt::join(t);
    }
    let h = quiet(|| unsafe {
        #[allow(static_mut_refs)]
        HANDLES[t].take().unwrap()
    });
    if h.join().is_err() {
        fail("a thread panicked".into());
    }
}

/// A leaf event: a future that completes with its id once it is fired, following the
/// register-then-check protocol.  Detects concurrent polls, polls after completion and after drop.
pub struct EvSt {
    w: futures_core::task::__internal::AtomicWaker,
    set: std::sync::atomic::AtomicBool,
}
#[derive(Clone)]
pub struct Fire(pub std::sync::Arc<EvSt>);
impl Fire {
    pub fn fire(&self) {
        self.0.set.store(true, std::sync::atomic::Ordering::Release);
        self.0.w.wake();
    }
    /// A wake-up without a reason.
    pub fn spurious(&self) {
        self.0.w.wake();
    }
}
pub struct Ev {
    st: std::sync::Arc<EvSt>,
    pub tok: Tok,
    done: bool,
    /// plain data, so that the race detector sees unordered polls
    pub polls: u64,
}
const EVPOLL: u64 = 1 << 43;
pub fn event(id: u64) -> (Fire, Ev) {
    let st = std::sync::Arc::new(EvSt { w: Default::default(), set: false.into() });
    (Fire(st.clone()), Ev { st, tok: Tok::new(id), done: false, polls: 0 })
}
/// How often event `id` was polled.
pub fn ev_polls(id: u64) -> u64 {
    Reg(EVPOLL + id).peek()
}
impl Future for Ev {
    type Output = u64;
    fn poll(mut self: Pin<&mut Self>, cx: &mut Context<'_>) -> Poll<u64> {
        check!(!self.done, "future {} was polled after completion", self.tok.0);
        self.polls += 1;
        Reg(EVPOLL + self.tok.0).quiet_add(1);
        self.st.w.register(cx.waker());
        if self.st.set.load(std::sync::atomic::Ordering::Acquire) {
            self.done = true;
            Poll::Ready(self.tok.0)
        } else {
            Poll::Pending
        }
    }
}
