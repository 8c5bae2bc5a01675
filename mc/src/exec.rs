//! Executors (OS-thread mode): C14 block_on / LocalPool, C15 ThreadPool.
use crate::h::*;
use crate::{os, Scn};
use futures::channel::{mpsc, oneshot};
use futures::executor::{block_on as fblock_on, block_on_stream, enter, LocalPool, ThreadPool};
use futures::task::{LocalSpawnExt, SpawnExt};
use futures::StreamExt;
use std::future::Future;
use std::pin::Pin;
use std::sync::Arc;
use std::task::{Context, Poll};

fn bo_oneshot() {
    let (tx, rx) = oneshot::channel::<u32>();
    let t = spawn(move || {
        let _ = tx.send(5);
    });
    check!(fblock_on(rx) == Ok(5), "wrong value");
    join(t);
}
fn bo_event() {
    let (f, e) = event(1);
    let t = spawn(move || {
        f.spurious();
        f.fire();
        f.spurious();
    });
    check!(fblock_on(e) == 1, "wrong value");
    // a stale wake-up of the first run must not disturb the second
    let (f, e) = event(2);
    let u = spawn(move || f.fire());
    check!(fblock_on(e) == 2, "wrong value");
    join(t);
    join(u);
    Tok::check_all();
}
/// The future itself parks and unparks its thread: the executor must not lose its wake-up.
struct ParkEater(Ev, bool);
impl Future for ParkEater {
    type Output = u64;
    fn poll(mut self: Pin<&mut Self>, cx: &mut Context<'_>) -> Poll<u64> {
        let r = Pin::new(&mut self.0).poll(cx);
        if r.is_pending() && !self.1 {
            self.1 = true;
            std::thread::current().unpark();
            std::thread::park(); // eats whatever token there is
        }
        r
    }
}
fn bo_parker() {
    let (f, e) = event(1);
    let t = spawn(move || f.fire());
    check!(fblock_on(ParkEater(e, false)) == 1, "wrong value");
    join(t);
    Tok::check_all();
}
fn bo_nested() {
    let (f, e) = event(1);
    let t = spawn(move || f.fire());
    let v = fblock_on(async {
        check!(enter().is_err(), "enter() inside an executor succeeded");
        check!(catch(|| fblock_on(async { 1 })).is_err(), "block_on inside block_on ran");
        check!(catch(|| LocalPool::new().run_until_stalled()).is_err(), "LocalPool inside block_on ran");
        e.await
    });
    check!(v == 1, "wrong value");
    check!(enter().is_ok(), "executor scope not left");
    check!(catch(|| fblock_on(async { if v == 1 { std::panic::panic_any(0u8) } })).is_err(), "panic swallowed");
    check!(fblock_on(async { 2 }) == 2, "block_on unusable after a panic");
    join(t);
    Tok::check_all();
}
fn bo_stream() {
    let (tx, rx) = mpsc::unbounded::<u64>();
    let t = spawn(move || {
        let _ = tx.unbounded_send(1);
        let _ = tx.unbounded_send(2);
    });
    let v: Vec<u64> = block_on_stream(rx).collect();
    check!(v == [1, 2], "got {v:?}");
    join(t);
}
/// Two tasks and a main future on a LocalPool, woken from another thread.
fn lp_until() {
    let (f1, e1) = event(1);
    let (f2, e2) = event(2);
    let mut lp = LocalPool::new();
    let sp = lp.spawner();
    let (tx, rx) = oneshot::channel::<u64>();
    sp.spawn_local(async move {
        let v = e1.await;
        let _ = tx.send(v);
    })
    .unwrap();
    let sp2 = sp.clone();
    let done = Arc::new(std::sync::atomic::AtomicU64::new(0));
    let d2 = done.clone();
    sp.spawn_local(async move {
        let v = e2.await;
        let d3 = d2.clone();
        sp2.spawn_local(async move {
            d3.fetch_add(v, std::sync::atomic::Ordering::SeqCst);
        })
        .unwrap();
    })
    .unwrap();
    let t = spawn(move || {
        f1.fire();
        f2.fire();
    });
    check!(lp.run_until(rx) == Ok(1), "wrong value");
    lp.run();
    check!(done.load(std::sync::atomic::Ordering::SeqCst) == 2, "run() returned before all tasks were complete");
    join(t);
    Tok::check_all();
}
fn lp_run2() {
    let (f1, e1) = event(1);
    let (f2, e2) = event(2);
    let mut lp = LocalPool::new();
    let sp = lp.spawner();
    let n = Reg::new(9);
    for e in [e1, e2] {
        sp.spawn_local(async move {
            e.await;
            n.quiet_add(1);
        })
        .unwrap();
    }
    let t = spawn(move || f1.fire());
    let u = spawn(move || f2.fire());
    lp.run();
    check!(n.peek() == 2, "run() returned with {} of 2 tasks complete", n.peek());
    join(t);
    join(u);
    Tok::check_all();
}
/// run_until_stalled never blocks and never overlooks a wake-up that happened before it started.
fn lp_stalled() {
    let (f1, e1) = event(1);
    let mut lp = LocalPool::new();
    let n = Reg::new(9);
    lp.spawner()
        .spawn_local(async move {
            e1.await;
            n.quiet_add(1);
        })
        .unwrap();
    let one = flip();
    let t = spawn(move || f1.fire());
    if one {
        let c = lp.try_run_one();
        check!(c == (n.peek() == 1), "try_run_one returned {c}");
    } else {
        lp.run_until_stalled();
    }
    join(t);
    lp.run_until_stalled();
    check!(n.peek() == 1, "run_until_stalled left a woken task unfinished");
    Tok::check_all();
}
/// Dropping the pool drops its tasks, even while they are being woken.
fn lp_drop() {
    let (f1, e1) = event(1);
    let mut lp = LocalPool::new();
    let sp = lp.spawner();
    sp.spawn_local(async move {
        e1.await;
    })
    .unwrap();
    lp.run_until_stalled();
    let t = spawn(move || f1.fire());
    drop(lp);
    Tok::check_all();
    check!(sp.spawn_local(async {}).is_err(), "spawn on a dropped pool succeeded");
    join(t);
}

// ---- ThreadPool ---------------------------------------------------------------------------------

const IN: u64 = 200;
const RUN: u64 = 300;
struct Excl<F>(F, u64);
impl<F: Future + Unpin> Future for Excl<F> {
    type Output = F::Output;
    fn poll(mut self: Pin<&mut Self>, cx: &mut Context<'_>) -> Poll<F::Output> {
        let r = Reg(IN + self.1);
        check!(r.add(1) == 0, "task {} is polled by two workers at once", self.1);
        let x = Pin::new(&mut self.0).poll(cx);
        r.sub(1);
        if x.is_ready() {
            check!(Reg(RUN + self.1).quiet_add(1) == 1, "task {} completed twice", self.1);
        }
        x
    }
}
fn tp(size: usize) -> ThreadPool {
    ThreadPool::builder().pool_size(size).create().unwrap()
}
/// Every spawned task runs exactly once, also when the pool handle is dropped right away.
fn tp_spawn(size: usize, n: u64) {
    let pool = tp(size);
    for i in 0..n {
        pool.spawn_ok(Excl(Box::pin(async {}), i));
    }
    drop(pool);
    at_exit(n);
}
/// The engine ends an execution when all threads have ended: what must be true then.
fn at_exit(n: u64) {
    mcrt::at_end(|n| {
        for i in 0..n {
            let c = Reg(RUN + i).peek();
            if c != 1 {
                return Some(format!("task {i} completed {c} times"));
            }
        }
        None
    }, n);
}
fn tp_spawn1() {
    tp_spawn(1, 2)
}
fn tp_spawn2() {
    tp_spawn(2, 2)
}
/// A pending task is woken from outside, possibly while it is being polled.
fn tp_wake(size: usize) {
    let pool = tp(size);
    let (f, e) = event(0);
    pool.spawn_ok(Excl(Box::pin(async move { drop(e.await) }), 0));
    drop(pool);
    f.fire();
    f.spurious();
    drop(f);
    at_exit(1);
}
fn tp_wake1() {
    tp_wake(1)
}
fn tp_wake2() {
    tp_wake(2)
}
/// Two wakers of one task at once.
fn tp_wake_twice() {
    let pool = tp(1);
    let (f, e) = event(0);
    let (g, e2) = event(1);
    pool.spawn_ok(Excl(Box::pin(async move { drop(futures::join!(e, e2)) }), 0));
    drop(pool);
    let t = spawn(move || f.fire());
    g.fire();
    drop(g);
    join(t);
    at_exit(1);
}
/// A task that keeps its own waker and wakes itself.
struct SelfWake(u32);
impl Future for SelfWake {
    type Output = ();
    fn poll(mut self: Pin<&mut Self>, cx: &mut Context<'_>) -> Poll<()> {
        if self.0 == 0 {
            return Poll::Ready(());
        }
        self.0 -= 1;
        cx.waker().wake_by_ref();
        Poll::Pending
    }
}
fn tp_self() {
    let pool = tp(1);
    pool.spawn_ok(Excl(SelfWake(2), 0));
    pool.spawn_ok(Excl(SelfWake(1), 1));
    drop(pool);
    at_exit(2);
}
fn tp_handle() {
    let pool = tp(1);
    let (f, e) = event(0);
    let h = pool.spawn_with_handle(Excl(Box::pin(async move { e.await + 7 }), 0)).unwrap();
    let p2 = pool.clone();
    drop(pool);
    f.fire();
    check!(fblock_on(h) == 7, "wrong value");
    drop((f, p2));
    at_exit(1);
}
/// One worker: a task that was woken during its poll and then waits for a later task.
fn tp_share() {
    let pool = tp(1);
    let (f, e) = event(0);
    pool.spawn_ok(Excl(
        Box::pin(async move {
            SelfWake(1).await;
            e.await;
        }),
        0,
    ));
    pool.spawn_ok(Excl(Box::pin(async move { f.fire() }), 1));
    drop(pool);
    at_exit(2);
}
/// Several tasks on two workers, waiting for each other in a chain.
fn tp_chain() {
    let pool = tp(2);
    let mut prev = None;
    for i in 0..4 {
        let (f, e) = event(i);
        let p: Option<Ev> = prev.replace(e);
        pool.spawn_ok(Excl(
            Box::pin(async move {
                if let Some(p) = p {
                    p.await;
                }
                f.fire();
            }),
            i,
        ));
    }
    let last = prev.unwrap();
    drop(pool);
    fblock_on(last);
    at_exit(4);
}
fn tp_nested() {
    let pool = tp(1);
    let p2 = pool.clone();
    pool.spawn_ok(Excl(
        Box::pin(async move {
            p2.spawn_ok(Excl(Box::pin(async {}), 1));
        }),
        0,
    ));
    drop(pool);
    at_exit(2);
}
/// Worker start/stop hooks run once per worker.
fn tp_name() {
    mcrt::allow_leak(); // std frees a worker's name only when the thread is gone
    let pool = ThreadPool::builder()
        .pool_size(2)
        .name_prefix("w-")
        .stack_size(1 << 20)
        .after_start(|i| {
            if std::thread::current().name() == Some(&format!("w-{i}")) {
                drop(Reg(400 + i as u64).quiet_add(1))
            }
        })
        .create()
        .unwrap();
    pool.spawn_ok(Excl(Box::pin(async {}), 0));
    drop(pool);
    mcrt::at_end(|_| {
        for r in [400, 401] {
            if Reg(r).peek() != 1 {
                return Some(format!("worker {} does not have the name asked for", r - 400));
            }
        }
        if Reg(RUN).peek() != 1 {
            return Some("task not run".into());
        }
        None
    }, 0);
}
fn tp_hooks() {
    let pool = ThreadPool::builder()
        .pool_size(2)
        .after_start(|i| drop(Reg(400 + i as u64).quiet_add(1)))
        .before_stop(|i| drop(Reg(410 + i as u64).quiet_add(1)))
        .create()
        .unwrap();
    pool.spawn_ok(Excl(Box::pin(async {}), 0));
    drop(pool);
    mcrt::at_end(|_| {
        for r in [400, 401, 410, 411] {
            if Reg(r).peek() != 1 {
                return Some(format!("hook {r} ran {} times", Reg(r).peek()));
            }
        }
        if Reg(RUN).peek() != 1 {
            return Some("task not run".into());
        }
        None
    }, 0);
}

pub const SCN: &[Scn] = &[
    os("bo_oneshot", "C14 C31", (7, 2), (9, 3), bo_oneshot),
    os("bo_event", "C14 C31", (3, 1), (5, 2), bo_event),
    os("bo_parker", "C14 C31", (7, 2), (9, 3), bo_parker),
    os("bo_nested", "C14 C31", (6, 2), (8, 3), bo_nested),
    os("bo_stream", "C14 C31", (3, 1), (5, 2), bo_stream),
    os("lp_until", "C14 C31 C27", (3, 1), (5, 2), lp_until),
    os("lp_run2", "C14 C31 C27", (2, 1), (4, 2), lp_run2),
    os("lp_stalled", "C14 C31 C27", (7, 2), (9, 3), lp_stalled),
    os("lp_drop", "C14 C27 C31", (7, 2), (9, 3), lp_drop),
    os("tp_spawn1", "C15 C31 C27", (3, 2), (5, 3), tp_spawn1),
    os("tp_spawn2", "C15 C31 C27", (2, 1), (4, 2), tp_spawn2),
    os("tp_wake1", "C15 C31 C27", (3, 1), (5, 2), tp_wake1),
    os("tp_wake2", "C15 C31 C27", (2, 1), (4, 2), tp_wake2),
    os("tp_wake_twice", "C15 C31 C27", (2, 0), (4, 1), tp_wake_twice),
    os("tp_self", "C15 C31 C27", (3, 2), (5, 3), tp_self),
    os("tp_share", "C15 C31 C27", (3, 1), (5, 2), tp_share),
    os("tp_chain", "C15 C31 C27", (1, 0), (2, 0), tp_chain),
    os("tp_handle", "C15 C31 C27", (3, 2), (5, 3), tp_handle),
    os("tp_nested", "C15 C31 C27", (5, 2), (7, 3), tp_nested),
    os("tp_name", "C15 C31 C27", (1, 0), (1, 0), tp_name),
    os("tp_hooks", "C15 C31 C27", (2, 1), (4, 2), tp_hooks),
];
