//! C06: AtomicWaker.
use crate::h::*;
use crate::{s, Scn};
use futures::task::AtomicWaker;
use std::sync::atomic::{AtomicBool, AtomicUsize, Ordering::*};
use std::sync::Arc;
use std::task::Waker;

struct Sh {
    w: AtomicWaker,
    flag: AtomicUsize,
}
fn sh() -> Arc<Sh> {
    Arc::new(Sh { w: AtomicWaker::new(), flag: AtomicUsize::new(0) })
}
/// The documented pattern: register, then check; the flag itself is relaxed, so the wake-up and
/// the visibility of the change both rest on the AtomicWaker.
fn wait(s: &Sh, n: usize, mk: fn() -> Waker) {
    loop {
        let w = mk();
        s.w.register(&w);
        drop(w);
        if s.flag.load(Relaxed) >= n {
            return;
        }
        park();
    }
}
/// The documented pattern with a check before registering too.
fn wait_fast(s: &Sh, n: usize, mk: fn() -> Waker) {
    loop {
        if s.flag.load(Relaxed) >= n {
            return;
        }
        let w = mk();
        s.w.register(&w);
        drop(w);
        if s.flag.load(Relaxed) >= n {
            return;
        }
        park();
    }
}
fn set(s: &Sh) {
    s.flag.fetch_add(1, Relaxed);
    s.w.wake();
}
fn one(mk: fn() -> Waker) {
    let s = sh();
    let s2 = s.clone();
    let a = spawn(move || set(&s2));
    wait(&s, 1, mk);
    join(a);
    check!(Arc::strong_count(&s) == 1, "handle leaked");
}
fn one_strict() {
    one(strict_waker)
}
fn one_stable() {
    one(stable_waker)
}
fn two(mk: fn() -> Waker) {
    let s = sh();
    let (s2, s3) = (s.clone(), s.clone());
    let a = spawn(move || set(&s2));
    let b = spawn(move || set(&s3));
    wait(&s, 2, mk);
    join(a);
    join(b);
}
fn two_strict() {
    two(strict_waker)
}
fn two_stable() {
    two(stable_waker)
}
fn two_fast() {
    let s = sh();
    let (s2, s3) = (s.clone(), s.clone());
    let a = spawn(move || set(&s2));
    let b = spawn(move || set(&s3));
    wait_fast(&s, 2, strict_waker);
    join(a);
    join(b);
}
/// One notifier, two rounds.
fn twice() {
    let s = sh();
    let s2 = s.clone();
    let a = spawn(move || {
        set(&s2);
        set(&s2);
    });
    wait(&s, 1, strict_waker);
    wait(&s, 2, stable_waker);
    join(a);
}
/// A wake that finds the waker makes everything before it visible to the woken task.
fn publish() {
    struct P(std::cell::UnsafeCell<u64>, AtomicWaker, AtomicBool);
    unsafe impl Sync for P {}
    unsafe impl Send for P {}
    let s = Arc::new(P(std::cell::UnsafeCell::new(0), AtomicWaker::new(), AtomicBool::new(false)));
    let s2 = s.clone();
    let a = spawn(move || {
        unsafe { *s2.0.get() = 5 };
        s2.2.store(true, Release);
        s2.1.wake();
    });
    loop {
        let w = strict_waker();
        s.1.register(&w);
        drop(w);
        if s.2.load(Acquire) {
            break;
        }
        park();
    }
    check!(unsafe { *s.0.get() } == 5, "stale data");
    join(a);
}
/// The consumer role moves to another task: the last registered waker gets the wake.
fn migrate() {
    let s = sh();
    let (s2, s3) = (s.clone(), s.clone());
    let a = spawn(move || set(&s2));
    let w = strict_waker();
    s.w.register(&w);
    drop(w);
    let b = spawn(move || wait(&s3, 1, strict_waker));
    join(b);
    join(a);
}
/// `take` and `wake` compete: one registration is handed out at most once, never leaked.
fn take_wake() {
    let s = sh();
    let id = fresh_id();
    s.w.register(&counting_waker(id));
    let (s2, s3) = (s.clone(), s.clone());
    let taken = Reg::new(7);
    let a = spawn(move || {
        if let Some(w) = s2.w.take() {
            taken.quiet_add(1);
            drop(w);
        }
    });
    let b = spawn(move || {
        if let Some(w) = s3.w.take() {
            taken.quiet_add(1);
            w.wake();
        }
    });
    join(a);
    join(b);
    check!(taken.peek() == 1, "registered waker was handed out {} times", taken.peek());
    check!(s.w.take().is_none(), "waker still there after take");
}
fn wake_wake() {
    let s = sh();
    let id = fresh_id();
    s.w.register(&counting_waker(id));
    let (s2, s3) = (s.clone(), s.clone());
    let a = spawn(move || s2.w.wake());
    let b = spawn(move || s3.w.wake());
    join(a);
    join(b);
    check!(wakes(id) == 1, "one registration was woken {} times", wakes(id));
    s.w.wake();
    check!(wakes(id) == 1, "wake used a waker twice");
}
/// Registration racing a wake: the waker is either still registered or has been woken.
fn reg_vs_wake() {
    let s = sh();
    let (i0, i1) = (fresh_id(), fresh_id());
    if flip() {
        s.w.register(&counting_waker(i0));
    }
    let s2 = s.clone();
    let a = spawn(move || s2.w.wake());
    let s3 = s.clone();
    let two = flip();
    let b = two.then(|| spawn(move || s3.w.wake()));
    s.w.register(&counting_waker(i1));
    join(a);
    if let Some(b) = b {
        join(b);
    }
    match s.w.take() {
        Some(w) => {
            let (x, y) = (wakes(i0), wakes(i1));
            w.wake();
            check!(wakes(i0) == x && wakes(i1) == y + 1, "an outdated waker is registered");
        }
        None => check!(wakes(i1) >= 1, "registration lost: neither woken nor kept"),
    }
}
/// Concurrent `register` is a caller bug, but stays memory safe and keeps one of the wakers.
fn reg_reg() {
    let s = sh();
    let (s2, s3) = (s.clone(), s.clone());
    let (i0, i1) = (fresh_id(), fresh_id());
    let a = spawn(move || s2.w.register(&counting_waker(i0)));
    let withwake = flip();
    let b = withwake.then(|| spawn(move || s3.w.wake()));
    s.w.register(&counting_waker(i1));
    join(a);
    if let Some(b) = b {
        join(b);
    }
    let before = wakes(i0) + wakes(i1);
    s.w.wake();
    check!(before + 1 >= 1 && wakes(i0) + wakes(i1) >= 1, "both registrations lost");
}
/// Sequential semantics: all sequences.
fn seq() {
    let s = sh();
    let mut cur: Option<u64> = None;
    let ids = [fresh_id(), fresh_id()];
    let mut exp = [0u64; 2];
    for _ in 0..6 {
        match choose(4) {
            k @ (0 | 1) => {
                s.w.register(&counting_waker(ids[k]));
                cur = Some(k as u64);
            }
            2 => {
                s.w.wake();
                if let Some(k) = cur.take() {
                    exp[k as usize] += 1;
                }
            }
            _ => {
                let w = s.w.take();
                check!(w.is_some() == cur.is_some(), "take() is {:?}", w.is_some());
                if let (Some(w), Some(k)) = (w, cur.take()) {
                    w.wake();
                    exp[k as usize] += 1;
                }
            }
        }
        for k in 0..2 {
            check!(wakes(ids[k]) == exp[k], "waker {k} was woken {} times, expected {}", wakes(ids[k]), exp[k]);
        }
    }
}
/// The woken task drops the AtomicWaker right away.
fn wake_then_drop() {
    let s = sh();
    let s2 = s.clone();
    let a = spawn(move || {
        set(&s2);
        drop(s2);
    });
    wait(&s, 1, strict_waker);
    drop(s);
    join(a);
}

pub const SCN: &[Scn] = &[
    s("aw_one_strict", "C06 C31", (9, 4), (11, 5), one_strict),
    s("aw_one_stable", "C06 C31", (9, 4), (11, 5), one_stable),
    s("aw_two_strict", "C06 C31", (8, 4), (10, 5), two_strict),
    s("aw_two_stable", "C06 C31", (8, 4), (10, 5), two_stable),
    s("aw_two_fast", "C06 C31", (8, 4), (10, 5), two_fast),
    s("aw_twice", "C06 C31", (9, 4), (11, 5), twice),
    s("aw_publish", "C06 C31 C27", (9, 4), (11, 5), publish),
    s("aw_migrate", "C06 C31", (8, 4), (10, 5), migrate),
    s("aw_take_wake", "C06 C31 C27", (9, 4), (11, 5), take_wake),
    s("aw_wake_wake", "C06 C31", (9, 4), (11, 5), wake_wake),
    s("aw_reg_vs_wake", "C06 C31", (9, 4), (11, 5), reg_vs_wake),
    s("aw_reg_reg", "C06 C31", (8, 4), (10, 5), reg_reg),
    s("aw_seq", "C06 C27", (0, 0), (0, 0), seq),
    s("aw_wake_drop", "C06 C31 C27", (9, 4), (11, 5), wake_then_drop),
];
