//! Self-test of the engine: each test's name says whether the engine must (`bad_`) or must not
//! (`good_`) report a violation.
use crate::h::*;
use crate::{s, Scn};
use std::cell::UnsafeCell;
use std::sync::atomic::{fence, AtomicUsize, Ordering::*};
use std::sync::{Arc, Mutex};

struct Sh {
    x: AtomicUsize,
    y: AtomicUsize,
    d: UnsafeCell<usize>,
}
unsafe impl Sync for Sh {}
unsafe impl Send for Sh {}
fn sh() -> Arc<Sh> {
    Arc::new(Sh { x: AtomicUsize::new(0), y: AtomicUsize::new(0), d: UnsafeCell::new(0) })
}

fn sb(o: std::sync::atomic::Ordering, l: std::sync::atomic::Ordering, f: bool) {
    let a = sh();
    let b = a.clone();
    let r = Reg::new(1);
    let t = spawn(move || {
        b.x.store(1, o);
        if f {
            fence(SeqCst);
        }
        r.quiet_add(b.y.load(l) as u64);
    });
    a.y.store(1, o);
    if f {
        fence(SeqCst);
    }
    let v = a.x.load(l);
    join(t);
    check!(v as u64 + r.peek() > 0, "both loads missed the other store");
}
fn good_sb_sc() {
    sb(SeqCst, SeqCst, false)
}
fn bad_sb_relacq() {
    sb(Release, Acquire, false)
}
fn good_sb_fence() {
    sb(Relaxed, Relaxed, true)
}
fn mp(o: std::sync::atomic::Ordering, l: std::sync::atomic::Ordering) {
    let a = sh();
    let b = a.clone();
    let t = spawn(move || {
        unsafe { *b.d.get() = 7 };
        b.x.store(1, o);
    });
    if a.x.load(l) == 1 {
        check!(unsafe { *a.d.get() } == 7, "stale data");
    }
    join(t);
}
fn good_mp() {
    mp(Release, Acquire)
}
fn bad_mp_relaxed_store() {
    mp(Relaxed, Acquire)
}
fn bad_mp_relaxed_load() {
    mp(Release, Relaxed)
}
fn good_mp_fence() {
    let a = sh();
    let b = a.clone();
    let t = spawn(move || {
        unsafe { *b.d.get() = 7 };
        fence(Release);
        b.x.store(1, Relaxed);
    });
    if a.x.load(Relaxed) == 1 {
        fence(Acquire);
        check!(unsafe { *a.d.get() } == 7, "stale data");
    }
    join(t);
}
fn good_relseq() {
    let a = sh();
    let (b, c) = (a.clone(), a.clone());
    let t = spawn(move || {
        unsafe { *b.d.get() = 7 };
        b.x.store(1, Release);
    });
    let u = spawn(move || {
        c.x.fetch_add(1, Relaxed);
    });
    if a.x.load(Acquire) == 2 {
        check!(unsafe { *a.d.get() } == 7, "stale data");
    }
    join(t);
    join(u);
}
fn bad_lost_update() {
    let a = sh();
    let b = a.clone();
    let t = spawn(move || {
        let v = b.x.load(SeqCst);
        b.x.store(v + 1, SeqCst);
    });
    let v = a.x.load(SeqCst);
    a.x.store(v + 1, SeqCst);
    join(t);
    check!(a.x.load(SeqCst) == 2, "lost update");
}
fn good_mutex() {
    let m = Arc::new(Mutex::new(0));
    let ts: Vec<_> = (0..2)
        .map(|_| {
            let m = m.clone();
            spawn(move || *m.lock().unwrap() += 1)
        })
        .collect();
    *m.lock().unwrap() += 1;
    for t in ts {
        join(t);
    }
    check!(*m.lock().unwrap() == 3, "lost update");
}
fn bad_deadlock() {
    let m = Arc::new((Mutex::new(0), Mutex::new(0)));
    let n = m.clone();
    let t = spawn(move || {
        let _a = n.0.lock().unwrap();
        let _b = n.1.lock().unwrap();
    });
    {
        let _b = m.1.lock().unwrap();
        let _a = m.0.lock().unwrap();
    }
    join(t);
}
fn bad_iriw_acq() {
    iriw(Acquire)
}
fn good_iriw_sc() {
    iriw(SeqCst)
}
fn iriw(l: std::sync::atomic::Ordering) {
    let a = sh();
    let (b, c, d) = (a.clone(), a.clone(), a.clone());
    let r = Reg::new(1);
    let t1 = spawn(move || b.x.store(1, SeqCst));
    let t2 = spawn(move || c.y.store(1, SeqCst));
    let t3 = spawn(move || {
        if d.x.load(l) == 1 && d.y.load(l) == 0 {
            r.quiet_add(1);
        }
    });
    if a.y.load(l) == 1 && a.x.load(l) == 0 {
        r.quiet_add(1);
    }
    join(t1);
    join(t2);
    join(t3);
    check!(r.peek() < 2, "readers disagree on the order of writes");
}
fn bad_uaf() {
    let a = sh();
    let p = Arc::as_ptr(&a) as usize;
    let t = spawn(move || {
        let s = unsafe { &*(p as *const Sh) };
        s.x.load(Relaxed);
    });
    drop(a);
    join(t);
}
fn good_spin() {
    let a = sh();
    let b = a.clone();
    let t = spawn(move || b.x.store(1, Release));
    while a.x.load(Acquire) == 0 {
        std::thread::yield_now();
    }
    join(t);
}
fn bad_livelock() {
    let a = sh();
    while a.x.load(Acquire) == 0 {
        std::thread::yield_now();
    }
}
fn bad_leak() {
    std::mem::forget(std::hint::black_box(Box::new(5)));
}

pub const SCN: &[Scn] = &[
    s("good_sb_sc", "LITMUS", (2, 2), (2, 2), good_sb_sc),
    s("bad_sb_relacq", "LITMUS", (2, 2), (2, 2), bad_sb_relacq),
    s("good_sb_fence", "LITMUS", (2, 2), (2, 2), good_sb_fence),
    s("good_mp", "LITMUS", (2, 2), (2, 2), good_mp),
    s("bad_mp_relaxed_store", "LITMUS", (2, 2), (2, 2), bad_mp_relaxed_store),
    s("bad_mp_relaxed_load", "LITMUS", (2, 2), (2, 2), bad_mp_relaxed_load),
    s("good_mp_fence", "LITMUS", (2, 2), (2, 2), good_mp_fence),
    s("good_relseq", "LITMUS", (2, 2), (2, 2), good_relseq),
    s("bad_lost_update", "LITMUS", (2, 2), (2, 2), bad_lost_update),
    s("good_mutex", "LITMUS", (2, 2), (2, 2), good_mutex),
    s("bad_deadlock", "LITMUS", (2, 2), (2, 2), bad_deadlock),
    s("good_iriw_sc", "LITMUS", (3, 2), (3, 2), good_iriw_sc),
    s("bad_iriw_acq", "LITMUS", (3, 2), (3, 2), bad_iriw_acq),
    s("bad_uaf", "LITMUS", (2, 2), (2, 2), bad_uaf),
    s("good_spin", "LITMUS", (2, 2), (2, 2), good_spin),
    s("bad_livelock", "LITMUS", (2, 2), (2, 2), bad_livelock),
    s("bad_leak", "LITMUS", (2, 2), (2, 2), bad_leak),
];
