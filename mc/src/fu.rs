//! C10 FuturesUnordered, C11 FuturesOrdered.
use crate::h::*;
use crate::{os, s, Scn};
use futures::stream::{FusedStream, FuturesOrdered, FuturesUnordered};
use futures::{Stream, StreamExt};
use std::future::Future;
use std::pin::Pin;
use std::sync::Arc;
use std::task::{Context, Poll, Waker};

fn drain(fu: &mut FuturesUnordered<Ev>, n: usize) {
    let mut got = vec![];
    for left in (0..n).rev() {
        match block_on(fu.next()) {
            Some(v) => {
                check!(!got.contains(&v), "output {v} came twice");
                got.push(v);
                obs(v);
            }
            None => fail(format!("stream ended after {} of {n} outputs", got.len())),
        }
        check!(fu.len() == left && fu.is_empty() == (left == 0), "len is {}, expected {left}", fu.len());
    }
    check!(block_on(fu.next()).is_none(), "more outputs than futures");
    check!(fu.is_terminated(), "empty set is not terminated");
}
fn two() {
    let mut fu = FuturesUnordered::new();
    let (f1, e1) = event(1);
    let (f2, e2) = event(2);
    fu.push(e1);
    fu.push(e2);
    let a = spawn(move || f1.fire());
    let b = spawn(move || f2.fire());
    drain(&mut fu, 2);
    join(a);
    join(b);
    drop(fu);
    Tok::check_all();
}
/// One notifier fires both, also with a spurious wake-up in between.
fn spurious() {
    let mut fu = FuturesUnordered::new();
    let (f1, e1) = event(1);
    let (f2, e2) = event(2);
    fu.push(e1);
    fu.push(e2);
    let a = spawn(move || {
        f1.spurious();
        f2.fire();
        f1.fire();
        f2.spurious();
    });
    drain(&mut fu, 2);
    join(a);
    drop(fu);
    Tok::check_all();
}
/// Pushing between polls, with a wake of an older future under way.
fn push_late() {
    let mut fu = FuturesUnordered::new();
    let (f1, e1) = event(1);
    let (f2, e2) = event(2);
    fu.push(e1);
    let a = spawn(move || {
        f1.fire();
        f2.fire();
    });
    let mut n = 2;
    if let Poll::Ready(v) = poll_once(Pin::new(&mut fu.next())) {
        check!(v == Some(1), "got {v:?}");
        n -= 1;
    }
    fu.push(e2);
    check!(!fu.is_terminated(), "terminated after push");
    drain(&mut fu, n);
    join(a);
    drop(fu);
    Tok::check_all();
}
/// The set is dropped (or cleared) while its futures are being woken.
fn drop_race() {
    let fu = FuturesUnordered::new();
    let (f1, e1) = event(1);
    let (f2, e2) = event(2);
    fu.push(e1);
    fu.push(e2);
    let mut fu = fu;
    if flip() {
        check!(poll_once(Pin::new(&mut fu.next())).is_pending(), "ready");
    }
    let a = spawn(move || f1.fire());
    let b = spawn(move || f2.spurious());
    if flip() {
        let r = poll_once(Pin::new(&mut fu.next()));
        if let Poll::Ready(v) = r {
            check!(v == Some(1), "got {v:?}");
        }
    }
    if flip() {
        fu.clear();
        check!(fu.is_empty() && fu.len() == 0, "not empty after clear");
        Tok::check_all();
        let (f3, e3) = event(3);
        fu.push(e3);
        f3.fire();
        check!(block_on(fu.next()) == Some(3), "set does not work after clear");
    } else {
        drop(fu);
        Tok::check_all();
        fu = FuturesUnordered::new();
    }
    join(a);
    join(b);
    drop(fu);
    Tok::check_all();
}
/// Task wakers kept and used by other threads after their future completed or the set is gone.
struct Keep(Arc<std::sync::Mutex<Option<Waker>>>, Tok, bool);
impl Future for Keep {
    type Output = u64;
    fn poll(mut self: Pin<&mut Self>, cx: &mut Context<'_>) -> Poll<u64> {
        if self.2 {
            return Poll::Ready(self.1 .0);
        }
        self.2 = true;
        quiet(|| ());
        *self.0.lock().unwrap() = Some(cx.waker().clone());
        cx.waker().wake_by_ref();
        Poll::Pending
    }
}
fn late_waker() {
    let slot = Arc::new(std::sync::Mutex::new(None));
    let mut fu = FuturesUnordered::new();
    fu.push(Keep(slot.clone(), Tok::new(1), false));
    let done = flip();
    let r = poll_once(Pin::new(&mut fu.next()));
    check!(r.is_pending(), "future that woke itself was polled again at once, or lost");
    let w: Waker = slot.lock().unwrap().take().unwrap();
    let w2 = w.clone();
    let a = spawn(move || w.wake());
    let b = spawn(move || {
        w2.wake_by_ref();
        let w3 = w2.clone();
        drop(w2);
        w3.wake();
    });
    if done {
        check!(block_on(fu.next()) == Some(1), "output lost");
        check!(block_on(fu.next()).is_none(), "more outputs than futures");
    }
    drop(fu);
    Tok::check_all();
    join(a);
    join(b);
    check!(Arc::strong_count(&slot) == 1, "future not dropped");
}
/// The set moves to another task: only the latest waker of the set counts.
fn migrate() {
    let mut fu = FuturesUnordered::new();
    let (f1, e1) = event(1);
    fu.push(e1);
    let a = spawn(move || f1.fire());
    match poll_once(Pin::new(&mut fu.next())) {
        Poll::Ready(v) => check!(v == Some(1), "got {v:?}"),
        Poll::Pending => {
            let b = spawn(move || {
                let mut fu = fu;
                drain(&mut fu, 1);
            });
            join(b);
        }
    }
    join(a);
    Tok::check_all();
}
/// `push`, `len` and iteration through shared references from several threads.
fn concurrent_push() {
    let fu = Arc::new(FuturesUnordered::new());
    let mut fires = vec![];
    let mut ts = vec![];
    for i in 1..3 {
        let (f, e) = event(i);
        f.fire();
        fires.push(f);
        let fu = fu.clone();
        let e = e;
        ts.push(spawn(move || {
            fu.push(e);
            let n = fu.len();
            check!(n == 1 || n == 2, "len is {n} after a push");
            check!(!fu.is_empty(), "empty after push");
        }));
    }
    if flip() {
        let n = fu.iter().map(|e| e.tok.0).count();
        check!(n <= 2, "iterated {n} futures");
    }
    for t in ts {
        join(t);
    }
    let mut fu = Arc::try_unwrap(fu).unwrap();
    let mut ids: Vec<u64> = fu.iter().map(|e| e.tok.0).collect();
    ids.sort();
    check!(ids == [1, 2], "set contains {ids:?}");
    drain(&mut fu, 2);
    drop(fires);
    drop(fu);
    Tok::check_all();
}
/// A future panics while being polled: it is dropped once, never polled again, and the others
/// are unaffected.
struct Boom(Ev, bool);
impl Future for Boom {
    type Output = u64;
    fn poll(mut self: Pin<&mut Self>, cx: &mut Context<'_>) -> Poll<u64> {
        let b = self.1;
        let r = Pin::new(&mut self.0).poll(cx);
        if r.is_ready() && b {
            std::panic::panic_any(0u8);
        }
        r
    }
}
fn panics() {
    let mut fu = FuturesUnordered::new();
    let (f1, e1) = event(1);
    let (f2, e2) = event(2);
    let which = flip();
    fu.push(Boom(e1, which));
    fu.push(Boom(e2, !which));
    let a = spawn(move || {
        f1.fire();
        f2.fire();
        f1.spurious();
        f2.spurious();
    });
    let mut got = 0;
    let mut pan = 0;
    for _ in 0..3 {
        match catch(|| block_on(fu.next())) {
            Ok(Some(v)) => {
                check!(v == if which { 2 } else { 1 }, "output of the panicked future");
                got += 1;
            }
            Ok(None) => break,
            Err(()) => pan += 1,
        }
    }
    check!(got == 1 && pan == 1, "{got} outputs, {pan} panics");
    check!(fu.is_empty(), "not empty");
    join(a);
    drop(fu);
    Tok::check_all();
}
/// Futures whose destructor uses wakers of the same set.
struct DropWakes(Arc<std::sync::Mutex<Vec<Waker>>>, Tok);
impl Future for DropWakes {
    type Output = ();
    fn poll(self: Pin<&mut Self>, cx: &mut Context<'_>) -> Poll<()> {
        self.0.lock().unwrap().push(cx.waker().clone());
        Poll::Pending
    }
}
impl Drop for DropWakes {
    fn drop(&mut self) {
        for w in self.0.lock().unwrap().iter() {
            w.wake_by_ref();
        }
    }
}
fn drop_wakes() {
    let ws = Arc::new(std::sync::Mutex::new(vec![]));
    let mut fu = FuturesUnordered::new();
    for i in 0..3 {
        fu.push(DropWakes(ws.clone(), Tok::new(i)));
    }
    check!(poll_once(Pin::new(&mut fu.next())).is_pending(), "ready");
    if flip() {
        let w = ws.lock().unwrap()[choose(3)].clone();
        w.wake();
    }
    let ws2 = ws.clone();
    let a = spawn(move || {
        let w = ws2.lock().unwrap().get(1).cloned();
        if let Some(w) = w {
            w.wake();
        }
    });
    drop(fu);
    join(a);
    Tok::check_all();
    ws.lock().unwrap().clear();
}

// ---- sequential exploration -----------------------------------------------------------------

/// Scripted future: polls recorded; behaviour chosen per poll.
struct Sc {
    id: usize,
    sh: Arc<std::sync::Mutex<ScSt>>,
    tok: Tok,
}
#[derive(Default)]
struct ScSt {
    waker: Vec<Option<Waker>>,
    fired: Vec<bool>,
    notified: Vec<bool>, // pushed or woken since the last poll
    polls: Vec<u32>,
    selfwake: Vec<u32>,
    done: Vec<bool>,
    order: Vec<usize>,
}
impl Future for Sc {
    type Output = u64;
    fn poll(self: Pin<&mut Self>, cx: &mut Context<'_>) -> Poll<u64> {
        let mut g = self.sh.lock().unwrap();
        let i = self.id;
        check!(!g.done[i], "future {i} polled after completion");
        check!(g.notified[i], "future {i} polled although nothing woke it");
        g.notified[i] = false;
        g.polls[i] += 1;
        g.order.push(i);
        if g.fired[i] {
            g.done[i] = true;
            return Poll::Ready(i as u64);
        }
        g.waker[i] = Some(cx.waker().clone());
        if g.selfwake[i] > 0 {
            g.selfwake[i] -= 1;
            g.notified[i] = true;
            cx.waker().wake_by_ref();
        }
        Poll::Pending
    }
}
fn sc_push(sh: &Arc<std::sync::Mutex<ScSt>>) -> Sc {
    let mut g = sh.lock().unwrap();
    let id = g.waker.len();
    g.waker.push(None);
    g.fired.push(false);
    g.notified.push(true);
    g.polls.push(0);
    g.selfwake.push(0);
    g.done.push(false);
    Sc { id, sh: sh.clone(), tok: Tok::new(id as u64) }
}
/// All sequences of push / fire / wake / self-wake / poll / iterate / clear over a few futures.
fn fu_seq() {
    let depth = if mcrt::thorough() { 8 } else { 6 };
    let sh = Arc::new(std::sync::Mutex::new(ScSt::default()));
    let mut fu: FuturesUnordered<Sc> = FuturesUnordered::new();
    let mut live: Vec<usize> = vec![];
    let mut wid = None; // waker of the last pending poll of the set
    let mut ended = false;
    for _ in 0..depth {
        let n = sh.lock().unwrap().waker.len();
        match choose(7) {
            0 => {
                if n >= 3 {
                    skip();
                }
                let f = sc_push(&sh);
                live.push(f.id);
                fu.push(f);
                wid = None; // the pusher has to poll
                ended = false;
            }
            k @ (1 | 2) => {
                // fire (1) or wake without reason (2) an existing future
                if n == 0 {
                    skip();
                }
                let i = choose(n);
                let w = {
                    let mut g = sh.lock().unwrap();
                    if g.fired[i] && k == 1 {
                        drop(g);
                        skip();
                    }
                    if k == 1 {
                        g.fired[i] = true;
                    }
                    match &g.waker[i] {
                        Some(w) => w.clone(),
                        None if k == 1 => continue,
                        None => {
                            drop(g);
                            skip()
                        }
                    }
                };
                if live.contains(&i) {
                    sh.lock().unwrap().notified[i] = true;
                    w.wake();
                    if let Some(id) = wid {
                        check!(wakes(id) > 0, "the set's task was not woken");
                    }
                } else {
                    w.wake();
                }
            }
            3 => {
                if n == 0 {
                    skip();
                }
                let i = choose(n);
                let mut g = sh.lock().unwrap();
                if g.selfwake[i] > 0 || g.fired[i] {
                    drop(g);
                    skip();
                }
                g.selfwake[i] = 1 + choose(2) as u32;
            }
            4 => {
                let id = fresh_id();
                let w = counting_waker(id);
                let (before, notified): (Vec<u32>, Vec<bool>) = {
                    let g = sh.lock().unwrap();
                    (g.polls.clone(), g.notified.clone())
                };
                let r = Pin::new(&mut fu).poll_next(&mut Context::from_waker(&w));
                wid = None;
                match r {
                    Poll::Ready(Some(v)) => {
                        check!(live.contains(&(v as usize)), "output {v} of a future that is not in the set");
                        live.retain(|x| *x as u64 != v);
                    }
                    Poll::Ready(None) => {
                        check!(live.is_empty(), "stream ended with {} futures left", live.len());
                        ended = true;
                    }
                    Poll::Pending => {
                        check!(!live.is_empty(), "pending although empty");
                        let g = sh.lock().unwrap();
                        // everything notified before was polled, or the set asked to be polled again
                        let again = wakes(id) > 0;
                        for &i in &live {
                            let missed = g.notified[i];
                            check!(!missed || again, "future {i} is notified but the set will not poll it");
                            check!(again || before[i] < g.polls[i] || !notified[i], "notified future {i} was not polled");
                            check!(g.done[i] == false, "finished future still in the set");
                        }
                        if !again {
                            wid = Some(id);
                        }
                    }
                }
                check!(fu.is_terminated() == ended, "is_terminated is {}", fu.is_terminated());
            }
            5 => {
                let mut ids: Vec<usize> = if choose(2) == 0 { fu.iter().map(|f| f.id).collect() } else { fu.iter_mut().map(|f| f.id).collect() };
                ids.sort();
                check!(ids == live, "iteration saw {ids:?}, the set holds {live:?}");
            }
            _ => {
                if live.is_empty() {
                    skip();
                }
                if flip() {
                    fu.clear();
                } else {
                    let mut ids: Vec<usize> = std::mem::take(&mut fu).into_iter().map(|f| f.id).collect();
                    ids.sort();
                    check!(ids == live, "into_iter yielded {ids:?}, the set held {live:?}");
                }
                for i in live.drain(..) {
                    let w = sh.lock().unwrap().waker[i].take();
                    if let Some(w) = w {
                        w.wake();
                    }
                }
                ended = false;
                wid = None;
            }
        }
        check!(fu.len() == live.len() && fu.is_empty() == live.is_empty(), "len is {}, expected {}", fu.len(), live.len());
        check!(fu.size_hint() == (live.len(), Some(live.len())), "size_hint is {:?}", fu.size_hint());
    }
    drop(fu);
    Tok::check_all();
    let ws = std::mem::take(&mut sh.lock().unwrap().waker);
    for w in ws.into_iter().flatten() {
        w.wake();
    }
}
/// A future that keeps waking itself does not starve its sibling or the task.
fn fairness() {
    let sh = Arc::new(std::sync::Mutex::new(ScSt::default()));
    let mut fu: FuturesUnordered<Sc> = FuturesUnordered::new();
    for _ in 0..2 + choose(2) {
        fu.push(sc_push(&sh));
    }
    let n = fu.len();
    for i in 0..n {
        sh.lock().unwrap().selfwake[i] = if choose(2) == 0 { 0 } else { 1000 };
    }
    for round in 0..4 {
        let id = fresh_id();
        let w = counting_waker(id);
        let t0: u32 = sh.lock().unwrap().polls.iter().sum();
        check!(Pin::new(&mut fu).poll_next(&mut Context::from_waker(&w)).is_pending(), "ready");
        let t1: u32 = sh.lock().unwrap().polls.iter().sum();
        check!(t1 - t0 <= 4 * n as u32 + 4, "one poll of the set polled its futures {} times", t1 - t0);
        if wakes(id) == 0 {
            break;
        }
        let _ = round;
    }
    let g = sh.lock().unwrap();
    for i in 0..n {
        check!(g.polls[i] >= 1, "future {i} starved");
    }
    drop(g);
    // a firing sibling is served within a bounded number of polls
    let i = choose(n);
    let w = {
        let mut g = sh.lock().unwrap();
        g.fired[i] = true;
        g.notified[i] = true;
        g.waker[i].clone()
    };
    if let Some(w) = w {
        w.wake();
    }
    let mut ok = false;
    for _ in 0..n + 1 {
        if let Poll::Ready(Some(v)) = poll_once(Pin::new(&mut fu.next())) {
            check!(v == i as u64, "output of the wrong future");
            ok = true;
            break;
        }
    }
    check!(ok, "a ready future was not served while another keeps waking itself");
    drop(fu);
    let ws = std::mem::take(&mut sh.lock().unwrap().waker);
    drop(ws);
    Tok::check_all();
}

// ---- FuturesOrdered ----------------------------------------------------------------------------

fn ordered_two() {
    let mut fo = FuturesOrdered::new();
    let (f1, e1) = event(1);
    let (f2, e2) = event(2);
    fo.push_back(e1);
    fo.push_back(e2);
    let a = spawn(move || f1.fire());
    let b = spawn(move || f2.fire());
    for i in 1..3 {
        let v = block_on(fo.next());
        check!(v == Some(i), "got {v:?} instead of {i}");
    }
    check!(block_on(fo.next()).is_none() && fo.is_terminated(), "no end");
    join(a);
    join(b);
    drop(fo);
    Tok::check_all();
}
fn ordered_front() {
    let mut fo = FuturesOrdered::new();
    let (f1, e1) = event(1);
    let (f2, e2) = event(2);
    let (f3, e3) = event(3);
    fo.push_back(e1);
    fo.push_back(e2);
    let a = spawn(move || {
        f2.fire();
        f3.fire();
        f1.fire();
    });
    let mut exp: std::collections::VecDeque<u64> = [1, 2].into();
    if let Poll::Ready(v) = poll_once(Pin::new(&mut fo.next())) {
        check!(v == exp.pop_front(), "got {v:?}");
    }
    fo.push_front(e3);
    exp.push_front(3);
    while let Some(x) = exp.pop_front() {
        let v = block_on(fo.next());
        check!(v == Some(x), "got {v:?} instead of {x}");
        check!(fo.len() == exp.len(), "len is {}", fo.len());
    }
    check!(block_on(fo.next()).is_none() && fo.is_terminated(), "no end");
    join(a);
    drop(fo);
    Tok::check_all();
}
fn fo_seq() {
    let depth = if mcrt::thorough() { 9 } else { 7 };
    let sh = Arc::new(std::sync::Mutex::new(ScSt::default()));
    let mut fo: FuturesOrdered<Sc> = FuturesOrdered::new();
    let mut exp: std::collections::VecDeque<usize> = Default::default();
    let mut wid = None;
    for _ in 0..depth {
        let n = sh.lock().unwrap().waker.len();
        match choose(5) {
            k @ (0 | 1) => {
                if n >= 4 {
                    skip();
                }
                let f = sc_push(&sh);
                if k == 0 {
                    exp.push_back(f.id);
                    fo.push_back(f);
                } else {
                    exp.push_front(f.id);
                    fo.push_front(f);
                }
                wid = None;
            }
            2 => {
                if n == 0 {
                    skip();
                }
                let i = choose(n);
                let w = {
                    let mut g = sh.lock().unwrap();
                    if g.fired[i] {
                        drop(g);
                        skip();
                    }
                    g.fired[i] = true;
                    g.notified[i] = true;
                    g.waker[i].clone()
                };
                if let Some(w) = w {
                    w.wake();
                    if exp.contains(&i) {
                        if let Some(id) = wid {
                            check!(wakes(id) > 0, "the task was not woken");
                        }
                    }
                }
            }
            3 => {
                let id = fresh_id();
                let w = counting_waker(id);
                let r = Pin::new(&mut fo).poll_next(&mut Context::from_waker(&w));
                wid = None;
                let fired = exp.front().map(|i| sh.lock().unwrap().fired[*i]);
                match r {
                    Poll::Ready(Some(v)) => {
                        let x = exp.pop_front();
                        check!(x == Some(v as usize), "got output {v}, expected {x:?}");
                    }
                    Poll::Ready(None) => {
                        check!(exp.is_empty(), "ended with {} futures left", exp.len());
                        check!(fo.is_terminated(), "ended but not terminated");
                    }
                    Poll::Pending => {
                        check!(!exp.is_empty(), "pending although empty");
                        if wakes(id) == 0 {
                            check!(fired == Some(false), "pending although the front future's output is available");
                            wid = Some(id);
                        }
                    }
                }
            }
            _ => {
                if exp.is_empty() {
                    skip();
                }
                fo.clear();
                exp.clear();
                wid = None;
            }
        }
        check!(fo.len() == exp.len() && fo.is_empty() == exp.is_empty(), "len is {}, expected {}", fo.len(), exp.len());
        check!(fo.size_hint() == (exp.len(), Some(exp.len())), "size_hint is {:?}", fo.size_hint());
        if !exp.is_empty() {
            check!(!fo.is_terminated(), "terminated with {} futures left", exp.len());
        }
    }
    drop(fo);
    Tok::check_all();
    let ws = std::mem::take(&mut sh.lock().unwrap().waker);
    drop(ws);
}

pub const SCN: &[Scn] = &[
    s("fu_two", "C10 C31", (2, 1), (4, 2), two),
    s("fu_spurious", "C10 C31", (4, 3), (6, 4), spurious),
    s("fu_push_late", "C10 C31 C27", (4, 3), (6, 4), push_late),
    s("fu_drop_race", "C10 C27 C31", (3, 1), (5, 2), drop_race),
    s("fu_late_waker", "C10 C27 C31", (3, 2), (5, 3), late_waker),
    s("fu_migrate", "C10 C31", (7, 3), (9, 4), migrate),
    s("fu_concurrent_push", "C10 C27 C31", (3, 2), (5, 3), concurrent_push),
    os("fu_panics", "C10 C27 C31", (3, 2), (5, 3), panics),
    s("fu_drop_wakes", "C10 C27 C31", (4, 2), (6, 3), drop_wakes),
    s("fu_seq", "C10 C27", (0, 0), (0, 0), fu_seq),
    s("fu_fairness", "C10 C31", (0, 0), (0, 0), fairness),
    s("fo_two", "C11 C31", (2, 1), (4, 2), ordered_two),
    s("fo_front", "C11 C31", (3, 1), (5, 2), ordered_front),
    s("fo_seq", "C11 C27", (0, 0), (0, 0), fo_seq),
];
