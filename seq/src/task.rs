//! Wakers, erased futures and spawner delegation (C28).
use crate::ch::*;
use crate::leaf::*;
use crate::{s, Scn};
use futures::task::{
    noop_waker, noop_waker_ref, waker, waker_ref, ArcWake, FutureObj, LocalFutureObj, LocalSpawn, LocalSpawnExt, Spawn, SpawnError,
    SpawnExt, WakerRef,
};
use std::cell::{Cell, RefCell};
use std::future::Future;
use std::marker::PhantomPinned;
use std::mem::ManuallyDrop;
use std::pin::Pin;
use std::rc::Rc;
use std::sync::atomic::{AtomicU32, Ordering::SeqCst};
use std::sync::Arc;
use std::task::{Context, Poll, Waker};

// ---- wakers ---------------------------------------------------------------------------------

#[derive(Default)]
struct Cnt {
    by_ref: AtomicU32,
    owned: AtomicU32,
    dropped: Arc<AtomicU32>,
    /// the strong count seen by the last wake
    seen: AtomicU32,
}
fn cnt(g: &Arc<AtomicU32>) -> Cnt {
    let mut c = Cnt::default();
    c.dropped = g.clone();
    c
}
impl Drop for Cnt {
    fn drop(&mut self) {
        self.dropped.fetch_add(1, SeqCst);
    }
}
/// implements both methods
struct Both(Cnt);
impl ArcWake for Both {
    fn wake(self: Arc<Self>) {
        self.0.owned.fetch_add(1, SeqCst);
        self.0.seen.store(Arc::strong_count(&self) as u32, SeqCst);
    }
    fn wake_by_ref(a: &Arc<Self>) {
        a.0.by_ref.fetch_add(1, SeqCst);
        a.0.seen.store(Arc::strong_count(a) as u32, SeqCst);
    }
}
/// implements only the required method
struct One(Cnt);
impl ArcWake for One {
    fn wake_by_ref(a: &Arc<Self>) {
        a.0.by_ref.fetch_add(1, SeqCst);
        a.0.seen.store(Arc::strong_count(a) as u32, SeqCst);
    }
}
trait Has {
    fn c(&self) -> &Cnt;
    const OWNED: bool;
}
impl Has for Both {
    fn c(&self) -> &Cnt {
        &self.0
    }
    const OWNED: bool = true;
}
impl Has for One {
    fn c(&self) -> &Cnt {
        &self.0
    }
    const OWNED: bool = false;
}
/// Every sequence of operations on the wakers of two `Arc`s: references and wake-ups add up.
fn wakers<T: ArcWake + Has + 'static>(b: u32, mk: fn(Cnt) -> T) {
    let gone = [Arc::new(AtomicU32::new(0)), Arc::new(AtomicU32::new(0))];
    let mut arcs: Vec<Option<Arc<T>>> = (0..2).map(|i| Some(Arc::new(mk(cnt(&gone[i]))))).collect();
    let weak: Vec<std::sync::Weak<T>> = arcs.iter().map(|a| Arc::downgrade(a.as_ref().unwrap())).collect();
    let mut ws: Vec<(Waker, usize)> = vec![];
    let mut wakes = [(0u32, 0u32); 2];
    for _ in 0..2 + b {
        // the operations possible now
        let mut ops: Vec<(u32, usize, usize)> = vec![];
        for i in 0..2 {
            if arcs[i].is_some() {
                if ws.len() < 3 {
                    ops.push((0, i, 0)); // waker(arc.clone())
                    ops.push((2, i, 0)); // waker_ref(&arc).clone()
                }
                ops.push((3, i, 0)); // waker_ref(&arc).wake_by_ref(), and the ref dropped
                ops.push((1, i, 0)); // drop the arc
            }
        }
        for j in 0..ws.len() {
            if ws.len() < 3 {
                ops.push((4, j, 0)); // clone
            }
            ops.push((5, j, 0)); // wake
            ops.push((6, j, 0)); // wake_by_ref
            ops.push((7, j, 0)); // drop
            ops.push((8, j, 0)); // WakerRef::new(&w): wake_by_ref, clone
            for k in 0..ws.len() {
                if k != j {
                    ops.push((9, j, k)); // clone_from
                }
            }
        }
        if ops.is_empty() {
            break;
        }
        let (o, i, k) = ops[choose(ops.len())];
        step();
        note(|| format!("op {o} {i} {k}"));
        let by = |w: &mut [(u32, u32); 2], x: usize| w[x].0 += 1;
        let own = |w: &mut [(u32, u32); 2], x: usize| {
            if T::OWNED {
                w[x].1 += 1
            } else {
                w[x].0 += 1
            }
        };
        match o {
            0 => ws.push((waker(arcs[i].clone().unwrap()), i)),
            1 => arcs[i] = None,
            2 => {
                let r = waker_ref(arcs[i].as_ref().unwrap());
                let w2 = Waker::clone(&r);
                drop(r);
                ws.push((w2, i));
            }
            3 => {
                let r = waker_ref(arcs[i].as_ref().unwrap());
                r.wake_by_ref();
                by(&mut wakes, i);
                for (w2, j) in &ws {
                    check!(!r.will_wake(w2) || i == *j, "will_wake is true between different tasks");
                }
            }
            4 => {
                let c = ws[i].0.clone();
                let t = ws[i].1;
                ws.push((c, t));
            }
            5 => {
                let (x, t) = ws.remove(i);
                let n = weak[t].strong_count() as u32;
                let a = weak[t].upgrade().unwrap();
                x.wake();
                own(&mut wakes, t);
                check!(a.c().seen.load(SeqCst) == n + 1, "wake ran with {} references, expected {}", a.c().seen.load(SeqCst), n + 1);
            }
            6 => {
                ws[i].0.wake_by_ref();
                let t = ws[i].1;
                by(&mut wakes, t);
            }
            7 => drop(ws.remove(i)),
            8 => {
                let t = ws[i].1;
                let r = WakerRef::new(&ws[i].0);
                r.wake_by_ref();
                by(&mut wakes, t);
                let c = Waker::clone(&r);
                drop(r);
                if ws.len() < 3 {
                    ws.push((c, t));
                }
            }
            _ => {
                let (src, t) = (ws[k].0.clone(), ws[k].1);
                ws[i].0.clone_from(&src);
                ws[i].1 = t;
            }
        }
        for x in 0..2 {
            let want = arcs[x].is_some() as usize + ws.iter().filter(|w| w.1 == x).count();
            check!(weak[x].strong_count() == want, "task {x} has {} references, expected {want}", weak[x].strong_count());
            check!(gone[x].load(SeqCst) == (want == 0) as u32, "task {x} dropped {} times with {want} references", gone[x].load(SeqCst));
            if let Some(a) = weak[x].upgrade() {
                let got = (a.c().by_ref.load(SeqCst), a.c().owned.load(SeqCst));
                check!(got == wakes[x], "task {x} was woken (by_ref, owned) {:?} times, expected {:?}", got, wakes[x]);
            }
        }
        for (a, t) in &ws {
            for (c, u) in &ws {
                // (that it is true for the same task is best effort)
                check!(!a.will_wake(c) || t == u, "will_wake is true between different tasks");
            }
        }
    }
    obs(ws.len() as u64);
    drop(ws);
    drop(arcs);
    for x in 0..2 {
        check!(gone[x].load(SeqCst) == 1, "task {x} dropped {} times in the end", gone[x].load(SeqCst));
    }
}
fn t_both(b: u32) {
    wakers(b, Both)
}
fn t_one(b: u32) {
    wakers(b, One)
}
/// A WakerRef never releases what it does not own.
fn t_unowned(_b: u32) {
    let gone = Arc::new(AtomicU32::new(0));
    let a = Arc::new(Both(cnt(&gone)));
    let wk = ManuallyDrop::new(waker(a.clone()));
    {
        let r = WakerRef::new_unowned(ManuallyDrop::new(unsafe { std::ptr::read(&*wk) }));
        if flip() {
            r.wake_by_ref();
            check!(a.0.by_ref.load(SeqCst) == 1, "no wake-up through new_unowned");
        }
        if flip() {
            let c = r.clone();
            check!(Arc::strong_count(&a) == 3, "clone of an unowned reference does not count");
            if flip() {
                c.wake();
            }
        }
    }
    check!(Arc::strong_count(&a) == 2, "a WakerRef released a reference it does not own");
    drop(ManuallyDrop::into_inner(wk));
    check!(Arc::strong_count(&a) == 1 && gone.load(SeqCst) == 0, "reference count is wrong");
    let n = noop_waker();
    let m = noop_waker_ref();
    n.wake_by_ref();
    m.wake_by_ref();
    n.clone().wake();
    drop(n);
    m.clone().wake();
}

// ---- erased futures --------------------------------------------------------------------------

/// A leaf future that must not move once polled.
pub struct PFut<T> {
    f: Fut<T>,
    at: usize,
    _p: PhantomPinned,
}
pub fn pfut<T>(v: T) -> PFut<T> {
    PFut { f: named("pinned", v), at: 0, _p: PhantomPinned }
}
impl<T> PFut<T> {
    pub fn id(&self) -> usize {
        self.f.id
    }
}
impl<T> Future for PFut<T> {
    type Output = T;
    fn poll(self: Pin<&mut Self>, cx: &mut Context<'_>) -> Poll<T> {
        let t = unsafe { self.get_unchecked_mut() };
        let a = t as *const _ as usize;
        check!(t.at == 0 || t.at == a, "a future was moved between polls");
        t.at = a;
        Pin::new(&mut t.f).poll(cx)
    }
}
impl<T> Drop for PFut<T> {
    fn drop(&mut self) {
        if self.at != 0 && self.at != self as *const _ as usize {
            fail_soft("a future was moved after it was polled, before being dropped".into());
        }
    }
}
impl<T> futures::future::FusedFuture for PFut<T> {
    fn is_terminated(&self) -> bool {
        self.f.is_terminated()
    }
}

enum Obj<'a> {
    L(LocalFutureObj<'a, Tok>),
    S(FutureObj<'a, Tok>),
}
impl Future for Obj<'_> {
    type Output = Tok;
    fn poll(mut self: Pin<&mut Self>, cx: &mut Context<'_>) -> Poll<Tok> {
        match &mut *self {
            Obj::L(l) => Pin::new(l).poll(cx),
            Obj::S(l) => Pin::new(l).poll(cx),
        }
    }
}
/// Drive an erased future, which may be dropped at any point; then look at the leaf.
fn use_obj(o: Obj<'_>, id: usize, spur: u32) -> bool {
    let mut d = Driver::new(spur);
    d.cancel = true;
    let o = match o {
        Obj::S(s) if flip() => Obj::L(s.into()),
        Obj::L(l) if flip() => Obj::S(unsafe { l.into_future_obj() }),
        o => o,
    };
    if flip() {
        drop(o);
        return false;
    }
    let mut o = o;
    let r = drive(&mut d, Pin::new(&mut o));
    if let Some(t) = &r {
        check!(t.0 == 7, "the erased future returned the wrong value");
        check!(isfin(id), "completed although the future did not");
    }
    obs(d.polls);
    r.is_some()
}
fn t_obj_owned(b: u32) {
    budget(1 + b, 1);
    strict();
    let f = pfut(tok(7));
    let id = f.id();
    let o = match choose(6) {
        0 => if flip() { Obj::L(LocalFutureObj::new(Box::new(f))) } else { Obj::S(FutureObj::new(Box::new(f))) },
        1 => Obj::L(LocalFutureObj::new(Box::new(f) as Box<dyn Future<Output = Tok>>)),
        2 => {
            let x = Box::new(f) as Box<dyn Future<Output = Tok> + Send>;
            if flip() { Obj::L(LocalFutureObj::new(x)) } else { Obj::S(FutureObj::new(x)) }
        }
        3 => if flip() { Obj::L(LocalFutureObj::new(Box::pin(f))) } else { Obj::S(FutureObj::new(Box::pin(f))) },
        4 => Obj::L(LocalFutureObj::new(Box::pin(f) as Pin<Box<dyn Future<Output = Tok>>>)),
        _ => {
            let x = Box::pin(f) as Pin<Box<dyn Future<Output = Tok> + Send>>;
            if flip() { Obj::L(LocalFutureObj::new(x)) } else { Obj::S(FutureObj::new(x)) }
        }
    };
    use_obj(o, id, b);
    check!(isdropped(id), "an owned future was not dropped with its FutureObj");
    check!(live_toks() == 0, "values are left over");
}
fn t_obj_borrowed(b: u32) {
    budget(1 + b, 1);
    strict();
    let mut a = fut(tok(7));
    let mut p = Box::pin(pfut(tok(7)));
    let k = choose(4);
    let id = if k < 2 { a.id } else { p.id() };
    let done = {
        let o = match k {
            0 => if flip() { Obj::L(LocalFutureObj::new(&mut a)) } else { Obj::S(FutureObj::new(&mut a)) },
            1 => Obj::L(LocalFutureObj::new(&mut a as &mut (dyn Future<Output = Tok> + Unpin))),
            2 => if flip() { Obj::L(LocalFutureObj::new(p.as_mut())) } else { Obj::S(FutureObj::new(p.as_mut())) },
            _ => Obj::L(LocalFutureObj::new(p.as_mut() as Pin<&mut dyn Future<Output = Tok>>)),
        };
        use_obj(o, id, b)
    };
    check!(!isdropped(id), "a borrowed future was dropped with its FutureObj");
    if !done {
        // the owner can go on
        let mut d = Driver::new(0);
        let r = if k < 2 { drive(&mut d, Pin::new(&mut a)) } else { drive(&mut d, p.as_mut()) };
        check!(r.map(|t| t.0) == Some(7), "the borrowed future lost its value");
    }
}
/// `From` conversions of boxed futures of ().
fn t_obj_from(b: u32) {
    budget(1 + b, 1);
    strict();
    let f = pfut(());
    let id = f.id();
    enum O {
        L(LocalFutureObj<'static, ()>),
        S(FutureObj<'static, ()>),
    }
    let o = match choose(8) {
        0 => O::S(Box::new(f).into()),
        1 => O::S((Box::new(f) as Box<dyn Future<Output = ()> + Send>).into()),
        2 => O::S(Box::pin(f).into()),
        3 => O::S((Box::pin(f) as Pin<Box<dyn Future<Output = ()> + Send>>).into()),
        4 => O::L(Box::new(f).into()),
        5 => O::L((Box::new(f) as Box<dyn Future<Output = ()>>).into()),
        6 => O::L(Box::pin(f).into()),
        _ => O::L((Box::pin(f) as Pin<Box<dyn Future<Output = ()>>>).into()),
    };
    let mut d = Driver::new(1);
    d.cancel = true;
    match o {
        O::L(mut l) => drive(&mut d, Pin::new(&mut l)),
        O::S(mut l) => drive(&mut d, Pin::new(&mut l)),
    };
    check!(isdropped(id), "the future was not dropped with its FutureObj");
}

// ---- spawners ----------------------------------------------------------------------------------

/// What a spawner was asked to do, and what it answers.
#[derive(Default)]
struct Sp {
    q: RefCell<Vec<LocalFutureObj<'static, ()>>>,
    refuse: Cell<bool>,
    status_down: Cell<bool>,
    calls: Cell<(u32, u32, u32, u32)>,
}
impl Sp {
    fn st(&self) -> Result<(), SpawnError> {
        if self.status_down.get() {
            Err(SpawnError::shutdown())
        } else {
            Ok(())
        }
    }
    fn push(&self, f: LocalFutureObj<'static, ()>) -> Result<(), SpawnError> {
        if self.refuse.get() {
            return Err(SpawnError::shutdown());
        }
        self.q.borrow_mut().push(f);
        Ok(())
    }
}
impl Spawn for Sp {
    fn spawn_obj(&self, f: FutureObj<'static, ()>) -> Result<(), SpawnError> {
        let c = self.calls.get();
        self.calls.set((c.0 + 1, c.1, c.2, c.3));
        self.push(f.into())
    }
    fn status(&self) -> Result<(), SpawnError> {
        let c = self.calls.get();
        self.calls.set((c.0, c.1 + 1, c.2, c.3));
        self.st()
    }
}
impl LocalSpawn for Sp {
    fn spawn_local_obj(&self, f: LocalFutureObj<'static, ()>) -> Result<(), SpawnError> {
        let c = self.calls.get();
        self.calls.set((c.0, c.1, c.2 + 1, c.3));
        self.push(f)
    }
    fn status_local(&self) -> Result<(), SpawnError> {
        let c = self.calls.get();
        self.calls.set((c.0, c.1, c.2, c.3 + 1));
        self.st()
    }
}
struct Wrap(Rc<Sp>);
impl Spawn for Wrap {
    fn spawn_obj(&self, f: FutureObj<'static, ()>) -> Result<(), SpawnError> {
        self.0.spawn_obj(f)
    }
    fn status(&self) -> Result<(), SpawnError> {
        self.0.status()
    }
}
impl LocalSpawn for Wrap {
    fn spawn_local_obj(&self, f: LocalFutureObj<'static, ()>) -> Result<(), SpawnError> {
        self.0.spawn_local_obj(f)
    }
    fn status_local(&self) -> Result<(), SpawnError> {
        self.0.status_local()
    }
}
/// One operation through a spawner behind any pointer.
fn sp_op<S: Spawn + ?Sized>(s: &S, sp: &Sp, op: usize) -> Option<futures::future::RemoteHandle<Tok>> {
    let (c0, n0) = (sp.calls.get(), sp.q.borrow().len());
    let ok = !sp.refuse.get();
    let mut h = None;
    match op {
        0 => {
            let r = s.status();
            check!(r.is_ok() == !sp.status_down.get() && r.err().map_or(true, |e| e.is_shutdown()), "status is not that of the spawner");
            check!(sp.calls.get() == (c0.0, c0.1 + 1, c0.2, c0.3), "status was not asked of the spawner exactly once");
            return None;
        }
        1 => {
            let f = pfut(());
            let id = f.id();
            let r = s.spawn_obj(Box::new(f).into());
            check!(r.is_ok() == ok, "spawn_obj's result is not the spawner's");
            check!(isdropped(id) == !ok, "a refused future is kept, or an accepted one dropped");
        }
        2 => {
            let f = pfut(());
            let id = f.id();
            let r = s.spawn(f);
            check!(r.is_ok() == ok, "spawn's result is not the spawner's");
            check!(isdropped(id) == !ok, "a refused future is kept, or an accepted one dropped");
        }
        _ => {
            let f = pfut(tok(5));
            let id = f.id();
            let r = s.spawn_with_handle(f);
            check!(r.is_ok() == ok, "spawn_with_handle's result is not the spawner's");
            check!(isdropped(id) == !ok, "a refused future is kept, or an accepted one dropped");
            h = r.ok();
        }
    }
    check!(sp.calls.get() == (c0.0 + 1, c0.1, c0.2, c0.3), "the spawner was not called exactly once");
    check!(sp.q.borrow().len() == n0 + ok as usize, "the spawner did not get exactly one future");
    h
}
fn lsp_op<S: LocalSpawn + ?Sized>(s: &S, sp: &Sp, op: usize) -> Option<futures::future::RemoteHandle<Tok>> {
    let (c0, n0) = (sp.calls.get(), sp.q.borrow().len());
    let ok = !sp.refuse.get();
    let mut h = None;
    match op {
        0 => {
            let r = s.status_local();
            check!(r.is_ok() == !sp.status_down.get() && r.err().map_or(true, |e| e.is_shutdown()), "status_local is not that of the spawner");
            check!(sp.calls.get() == (c0.0, c0.1, c0.2, c0.3 + 1), "status_local was not asked of the spawner exactly once");
            return None;
        }
        1 => {
            let f = pfut(());
            let id = f.id();
            let r = s.spawn_local_obj(Box::new(f).into());
            check!(r.is_ok() == ok, "spawn_local_obj's result is not the spawner's");
            check!(isdropped(id) == !ok, "a refused future is kept, or an accepted one dropped");
        }
        2 => {
            let f = pfut(());
            let id = f.id();
            let r = s.spawn_local(f);
            check!(r.is_ok() == ok, "spawn_local's result is not the spawner's");
            check!(isdropped(id) == !ok, "a refused future is kept, or an accepted one dropped");
        }
        _ => {
            let f = pfut(tok(5));
            let id = f.id();
            let r = s.spawn_local_with_handle(f);
            check!(r.is_ok() == ok, "spawn_local_with_handle's result is not the spawner's");
            check!(isdropped(id) == !ok, "a refused future is kept, or an accepted one dropped");
            h = r.ok();
        }
    }
    check!(sp.calls.get() == (c0.0, c0.1, c0.2 + 1, c0.3), "the spawner was not called exactly once");
    check!(sp.q.borrow().len() == n0 + ok as usize, "the spawner did not get exactly one future");
    h
}
fn t_spawn(b: u32) {
    budget(b, 0);
    let sp = Rc::new(Sp::default());
    let kind = choose(8);
    let local = flip();
    let mut hs = vec![];
    for _ in 0..1 + (b > 1) as u32 {
        sp.refuse.set(flip());
        sp.status_down.set(flip());
        let op = choose(4);
        let mut wr = Wrap(sp.clone());
        macro_rules! go {
            ($e:expr) => {
                if local { lsp_op($e, &sp, op) } else { sp_op($e, &sp, op) }
            };
        }
        let h = match kind {
            0 => go!(&*sp),
            1 => go!(&&*sp),
            2 => go!(&&mut wr),
            3 => go!(&Box::new(wr)),
            4 => go!(&sp),
            5 => go!(&Arc::new(wr)),
            6 => if local {
                let x: Box<dyn LocalSpawn> = Box::new(wr);
                lsp_op(&x, &sp, op)
            } else {
                let x: Box<dyn Spawn> = Box::new(wr);
                sp_op(&x, &sp, op)
            },
            _ => if local {
                let x: Rc<dyn LocalSpawn> = sp.clone();
                lsp_op(&&x, &sp, op)
            } else {
                let x: Rc<dyn Spawn> = sp.clone();
                sp_op(&&x, &sp, op)
            },
        };
        hs.extend(h);
    }
    // what was spawned runs to its end, and the handles get the results
    let q: Vec<_> = sp.q.borrow_mut().drain(..).collect();
    let mut d = Driver::fixed(0);
    for mut f in q {
        drive(&mut d, Pin::new(&mut f));
    }
    for h in hs {
        let mut h = h;
        let r = d.poll(|cx| Pin::new(&mut h).poll(cx));
        check!(matches!(r, Poll::Ready(t) if t.0 == 5), "the handle does not have the result of the completed task");
    }
    obs(sp.calls.get().0 as u64);
}
/// The default `status` of a spawner that does not say otherwise is fine, errors describe themselves.
fn t_spawn_default(_b: u32) {
    struct D;
    impl Spawn for D {
        fn spawn_obj(&self, _: FutureObj<'static, ()>) -> Result<(), SpawnError> {
            Err(SpawnError::shutdown())
        }
    }
    impl LocalSpawn for D {
        fn spawn_local_obj(&self, _: LocalFutureObj<'static, ()>) -> Result<(), SpawnError> {
            Err(SpawnError::shutdown())
        }
    }
    check!(D.status().is_ok() && D.status_local().is_ok(), "the default status is not Ok");
    let r = D.spawn_with_handle(pfut(tok(1)));
    check!(r.err().map_or(false, |e| e.is_shutdown()), "a refusal is not reported");
    check!(live_toks() == 0, "a refused future's value is kept");
}

pub const SCN: &[Scn] = &[
    s("tk_waker_both", "C28 !", 3, 4, t_both),
    s("tk_waker_one", "C28 !", 3, 4, t_one),
    s("tk_waker_unowned", "C28 !", 1, 1, t_unowned),
    s("tk_obj_owned", "C28 C33", 3, 4, t_obj_owned),
    s("tk_obj_borrowed", "C28 C33", 3, 4, t_obj_borrowed),
    s("tk_obj_from", "C28 C33", 3, 4, t_obj_from),
    s("tk_spawn", "C28", 2, 3, t_spawn),
    s("tk_spawn_default", "C28 !", 1, 1, t_spawn_default),
];
