//! C16 joining, C17 selecting, C30 the sequential future combinators.
use crate::ch::*;
use crate::leaf::*;
use crate::{s, Scn};
use futures::future::{self, Either, FusedFuture, FutureExt, TryFutureExt};
use futures::stream::{Stream, StreamExt};
use std::cell::RefCell;
use std::future::Future;
use std::pin::Pin;
use std::rc::Rc;
use std::task::Poll;

type R = Result<Tok, Tok>;
fn start(b: u32) -> Driver {
    budget(b, 1);
    Driver::new(1)
}
/// n leaves with values base.., each succeeding
fn leaves(n: usize) -> (Vec<Fut<Tok>>, Vec<usize>) {
    let v: Vec<_> = (0..n).map(|i| fut(tok(10 + i as u32))).collect();
    let ids = v.iter().map(|f| f.id).collect();
    (v, ids)
}
/// n leaves, each succeeding or failing (explored)
fn rleaves(n: usize) -> (Vec<Fut<R>>, Vec<usize>, Vec<Result<u32, u32>>) {
    let mut o = vec![];
    let v: Vec<_> = (0..n)
        .map(|i| {
            let x = 10 + i as u32;
            if dchoose(2) == 1 {
                o.push(Err(x));
                fut(Err(tok(x)))
            } else {
                o.push(Ok(x));
                fut(Ok(tok(x)))
            }
        })
        .collect();
    let ids = v.iter().map(|f| f.id).collect();
    (v, ids, o)
}
fn all_done(ids: &[usize]) -> Option<Vec<u32>> {
    if ids.iter().all(|i| isfin(*i)) {
        Some((0..ids.len()).map(|i| 10 + i as u32).collect())
    } else {
        None
    }
}
/// First failure in the order of completion, or all values.
fn try_done(ids: &[usize], o: &[Result<u32, u32>]) -> Option<Result<Vec<u32>, u32>> {
    for f in fins() {
        if let Some(p) = ids.iter().position(|i| *i == f) {
            if let Err(e) = o[p] {
                return Some(Err(e));
            }
        }
    }
    all_done(ids).map(Ok)
}
/// While the joined future is pending, all its parts are under way.
fn concurrent(ids: &[usize]) {
    strict();
    let ids = ids.to_vec();
    on_pending(move || {
        for i in &ids {
            check!(polls(*i) > 0, "future #{i} has not been started although the joined future is pending");
        }
    });
}
fn conc_try(ids: &[usize]) {
    concurrent(ids)
}
macro_rules! take {
    ($v:ident, $n:expr) => {{
        let a: [_; $n] = $v.try_into().map_err(|_| ()).unwrap();
        a
    }};
}

fn t_join2(b: u32) {
    let mut d = start(b);
    let (v, ids) = leaves(2);
    concurrent(&ids);
    let [x, y] = take!(v, 2);
    run_fut(&mut d, future::join(x, y), |(a, b)| vec![a.0, b.0], ffused, move || all_done(&ids));
}
fn t_join_macro(b: u32) {
    let mut d = start(b);
    match choose(3) {
        0 => {
            let (v, ids) = leaves(1);
            let [x] = take!(v, 1);
            run_fut(&mut d, async move { futures::join!(x) }, |(a,)| vec![a.0], fnoterm, move || all_done(&ids));
        }
        1 => {
            let (v, ids) = leaves(2);
            concurrent(&ids);
            let [x, y] = take!(v, 2);
            run_fut(&mut d, async move { futures::join!(x, y) }, |(a, b)| vec![a.0, b.0], fnoterm, move || all_done(&ids));
        }
        _ => {
            let (v, ids) = leaves(3);
            concurrent(&ids);
            let [x, y, z] = take!(v, 3);
            run_fut(&mut d, async move { futures::join!(x, async { y.await }, z) }, |(a, b, c)| vec![a.0, b.0, c.0], fnoterm, move || all_done(&ids));
        }
    }
}
fn t_join_all(b: u32) {
    let mut d = start(b);
    let (v, ids) = leaves(count(3));
    concurrent(&ids);
    run_fut(&mut d, future::join_all(v), |v| v.iter().map(|t| t.0).collect(), fnoterm, move || all_done(&ids));
}
/// Above the small-list limit join_all runs on FuturesOrdered.
fn t_join_all_big(b: u32) {
    budget(b, 1);
    let mut d = Driver::fixed(0);
    let n = 29 + choose(4);
    let (v, ids) = leaves(n);
    concurrent(&ids);
    run_fut(&mut d, future::join_all(v), |v| v.iter().map(|t| t.0).collect(), fnoterm, move || all_done(&ids));
}
fn t_try_join2(b: u32) {
    let mut d = start(b);
    let (v, ids, o) = rleaves(2);
    conc_try(&ids);
    let [x, y] = take!(v, 2);
    run_fut(&mut d, future::try_join(x, y), |r| r.map(|(a, b)| vec![a.0, b.0]).map_err(|e| e.0), fnoterm, move || try_done(&ids, &o));
}
fn t_try_join_macro(b: u32) {
    let mut d = start(b);
    if flip() {
        let (v, ids, o) = rleaves(2);
        conc_try(&ids);
        let [x, y] = take!(v, 2);
        run_fut(&mut d, async move { futures::try_join!(x, y) }, |r| r.map(|(a, b)| vec![a.0, b.0]).map_err(|e| e.0), fnoterm, move || try_done(&ids, &o));
    } else {
        let (v, ids, o) = rleaves(3);
        conc_try(&ids);
        let [x, y, z] = take!(v, 3);
        run_fut(&mut d, async move { futures::try_join!(x, async { y.await }, z) }, |r| r.map(|(a, b, c)| vec![a.0, b.0, c.0]).map_err(|e| e.0), fnoterm, move || try_done(&ids, &o));
    }
}
/// The result of try_join_all; an error has cancelled every other future by the time it is given.
fn cancels(ids: &[usize]) -> impl Fn(Result<Vec<Tok>, Tok>) -> Result<Vec<u32>, u32> {
    let ids = ids.to_vec();
    move |r| {
        if r.is_err() {
            check!(ids.iter().all(|i| isdropped(*i)), "an error was returned with futures not cancelled");
        }
        r.map(|v| v.iter().map(|t| t.0).collect()).map_err(|e| e.0)
    }
}
fn t_try_join_all(b: u32) {
    let mut d = start(b);
    let (v, ids, o) = rleaves(count(3));
    conc_try(&ids);
    let key = cancels(&ids);
    run_fut(&mut d, future::try_join_all(v), key, fnoterm, move || try_done(&ids, &o));
}
fn t_try_join_all_big(b: u32) {
    budget(b, 1);
    let mut d = Driver::fixed(0);
    let n = 29 + choose(4);
    // at most one failure (explored), and at its place any readiness
    let bad = choose(n + 1);
    let o: Vec<_> = (0..n).map(|i| if i == bad { Err(10 + i as u32) } else { Ok(10 + i as u32) }).collect();
    let v: Vec<_> = o.iter().map(|r| fut(match r { Ok(x) => Ok(tok(*x)), Err(x) => Err(tok(*x)) })).collect();
    let ids: Vec<usize> = v.iter().map(|f: &Fut<R>| f.id).collect();
    conc_try(&ids);
    let key = cancels(&ids);
    run_fut(&mut d, future::try_join_all(v), key, fnoterm, move || try_done(&ids, &o));
}
/// MaybeDone and TryMaybeDone keep the output until it is taken, once.
fn t_maybe_done(b: u32) {
    let mut d = start(b);
    let fails = flip();
    if flip() {
        let f = fut(tok(5));
        let fid = f.id;
        let mut m = Box::pin(future::maybe_done(f));
        check!(m.as_mut().output_mut().is_none() && m.as_mut().take_output().is_none(), "output before completion");
        check!(!m.is_terminated(), "is_terminated before completion");
        loop {
            let r = d.poll(|cx| m.as_mut().poll(cx));
            check!(r.is_ready() == isfin(fid), "ready is {} although the future's completion is {}", r.is_ready(), isfin(fid));
            if r.is_ready() {
                break;
            }
            check!(m.as_mut().take_output().is_none(), "output before completion");
            check!(!m.is_terminated(), "is_terminated before completion");
            d.wait();
        }
        check!(m.is_terminated(), "not terminated after completion");
        if flip() {
            check!(d.poll(|cx| m.as_mut().poll(cx)).is_ready(), "polling a finished MaybeDone");
        }
        check!(m.as_mut().output_mut().map(|t| t.0) == Some(5), "output_mut");
        if flip() {
            return;
        }
        check!(m.as_mut().take_output().map(|t| t.0) == Some(5), "take_output");
        check!(m.as_mut().output_mut().is_none() && m.as_mut().take_output().is_none(), "output taken twice");
        check!(m.is_terminated(), "not terminated after the output was taken");
        if flip() {
            // the doc: polling again panics
            let r = std::panic::catch_unwind(std::panic::AssertUnwindSafe(|| d.poll(|cx| m.as_mut().poll(cx)).is_ready()));
            check!(r.is_err(), "polling after the output was taken must panic");
        }
    } else {
        let f = fut(if fails { Err(tok(6)) } else { Ok(tok(5)) });
        let mut m = Box::pin(future::try_maybe_done(f));
        check!(m.as_mut().output_mut().is_none() && m.as_mut().take_output().is_none(), "output before completion");
        let r = loop {
            match d.poll(|cx| m.as_mut().poll(cx)) {
                Poll::Ready(r) => break r,
                Poll::Pending => {
                    check!(m.as_mut().take_output().is_none(), "output before completion");
                    check!(!m.is_terminated(), "is_terminated before completion");
                    d.wait();
                }
            }
        };
        check!(m.is_terminated(), "not terminated after completion");
        match r {
            Err(e) => check!(fails && e.0 == 6 && m.as_mut().take_output().is_none(), "failure"),
            Ok(()) => {
                check!(!fails, "success of a failing future");
                check!(m.as_mut().output_mut().map(|t| t.0) == Some(5), "output_mut");
                check!(m.as_mut().take_output().map(|t| t.0) == Some(5), "take_output");
                check!(m.as_mut().output_mut().is_none() && m.as_mut().take_output().is_none(), "output taken twice");
                check!(m.is_terminated(), "not terminated after the output was taken");
            }
        }
    }
}

// ---- selecting ------------------------------------------------------------------------------

/// The remaining futures of a selection are unharmed: they run to completion.
fn run_rest(d: &mut Driver, rest: Vec<Fut<Tok>>, want: &mut Vec<u32>) {
    w(|w| {
        w.on_pending = None;
        w.strict_wake = false;
    });
    for f in rest {
        let v = drive(d, Box::pin(f).as_mut()).unwrap();
        let p = want.iter().position(|x| *x == v.0);
        check!(p.is_some(), "left-over future yields {} which is not expected", v.0);
        want.remove(p.unwrap());
    }
    check!(want.is_empty(), "futures lost by the selection: {:?}", want);
}
fn first(ids: &[usize]) -> Option<usize> {
    fins().into_iter().find_map(|f| ids.iter().position(|i| *i == f))
}
fn t_select(b: u32) {
    let mut d = start(b);
    let (v, ids) = leaves(2);
    concurrent(&ids);
    let i2 = ids.clone();
    let [x, y] = take!(v, 2);
    let rest = Rc::new(RefCell::new(None));
    let r2 = rest.clone();
    let w0 = run_fut(
        &mut d,
        future::select(x, y),
        move |r| match r {
            Either::Left((v, f)) => {
                *r2.borrow_mut() = Some(f);
                (v.0 - 10) as usize
            }
            Either::Right((v, f)) => {
                check!(v.0 == 11, "the value of the wrong future");
                *r2.borrow_mut() = Some(f);
                1
            }
        },
        ffused,
        move || first(&i2),
    )
    .unwrap();
    let f = rest.borrow_mut().take().unwrap();
    check!(f.id == ids[1 - w0], "the wrong future is left over");
    run_rest(&mut d, vec![f], &mut vec![11 - w0 as u32]);
}
fn t_select_all(b: u32) {
    let mut d = start(b);
    let n = 1 + param(2);
    let (v, ids) = leaves(n);
    concurrent(&ids);
    let i2 = ids.clone();
    let rest = Rc::new(RefCell::new(vec![]));
    let r2 = rest.clone();
    let w0 = run_fut(
        &mut d,
        future::select_all(v),
        move |(v, i, rest)| {
            *r2.borrow_mut() = rest;
            check!(v.0 == 10 + i as u32, "index {i} does not belong to value {}", v.0);
            i
        },
        fnoterm,
        move || first(&i2),
    )
    .unwrap();
    let rest = std::mem::take(&mut *rest.borrow_mut());
    check!(rest.len() == n - 1, "{} futures left over", rest.len());
    let mut want: Vec<u32> = (0..n).filter(|i| *i != w0).map(|i| 10 + i as u32).collect();
    if flip() {
        // into_inner gives all of them back
        run_rest(&mut d, rest, &mut want);
    } else if !rest.is_empty() {
        let s = future::select_all(rest);
        run_rest(&mut d, s.into_inner(), &mut want);
    }
}
fn t_select_ok(b: u32) {
    let mut d = start(b);
    let n = 1 + param(2);
    let (v, ids, o) = rleaves(n);
    strict();
    let ids2 = ids.clone();
    let o2 = o.clone();
    on_pending(move || {
        for i in &ids2 {
            check!(polls(*i) > 0, "future #{i} has not been started");
        }
    });
    let ids2 = ids.clone();
    let rest = Rc::new(RefCell::new(vec![]));
    let r2 = rest.clone();
    let r = run_fut(
        &mut d,
        future::select_ok(v),
        move |r| match r {
            Ok((v, rest)) => {
                *r2.borrow_mut() = rest;
                Ok(v.0)
            }
            Err(e) => Err(e.0),
        },
        fnoterm,
        move || {
            let done: Vec<usize> = fins().iter().filter_map(|f| ids2.iter().position(|i| i == f)).collect();
            if let Some(k) = done.iter().find(|p| o2[**p].is_ok()) {
                return Some(Ok(10 + *k as u32));
            }
            if done.len() == ids2.len() {
                return Some(Err(10 + *done.last().unwrap() as u32));
            }
            None
        },
    )
    .unwrap();
    let rest = std::mem::take(&mut *rest.borrow_mut());
    if r.is_ok() {
        let left: Vec<usize> = rest.iter().map(|f| f.id).collect();
        let want: Vec<usize> = ids.iter().copied().filter(|i| !isfin(*i)).collect();
        check!(left == want, "left over {:?}, expected {:?}", left, want);
    }
    w(|w| {
        w.on_pending = None;
        w.strict_wake = false;
    });
    for f in rest {
        let p = ids.iter().position(|i| *i == f.id).unwrap();
        let v = drive(&mut d, Box::pin(f).as_mut()).unwrap();
        check!(v.map(|t| t.0).map_err(|t| t.0) == o[p], "left-over future's result");
    }
}
fn t_try_select(b: u32) {
    let mut d = start(b);
    let (v, ids, o) = rleaves(2);
    concurrent(&ids);
    let ids2 = ids.clone();
    let [x, y] = take!(v, 2);
    let rest = Rc::new(RefCell::new(None));
    let r2 = rest.clone();
    let o2 = o.clone();
    let w0 = run_fut(
        &mut d,
        future::try_select(x, y),
        move |r| {
            let (k, v, f) = match r {
                Ok(Either::Left((v, f))) => (0, Ok(v.0), f),
                Ok(Either::Right((v, f))) => (1, Ok(v.0), f),
                Err(Either::Left((v, f))) => (0, Err(v.0), f),
                Err(Either::Right((v, f))) => (1, Err(v.0), f),
            };
            check!(v == o2[k], "result {:?} of side {k}, expected {:?}", v, o2[k]);
            *r2.borrow_mut() = Some(f);
            k
        },
        fnoterm,
        move || first(&ids2),
    )
    .unwrap();
    let f = rest.borrow_mut().take().unwrap();
    check!(f.id == ids[1 - w0], "the wrong future is left over");
    w(|w| w.on_pending = None);
    let v = drive(&mut d, Box::pin(f).as_mut()).unwrap();
    check!(v.map(|t| t.0).map_err(|t| t.0) == o[1 - w0], "left-over future's result");
}

/// The facade through which the select! expansion sees the crate, with the shuffle replaced by
/// an explored permutation.
pub mod facade {
    pub use futures_util::__private::*;
    pub mod async_await {
        pub use futures_util::__private::async_await::*;
        pub fn shuffle<T>(s: &mut [T]) {
            for i in (1..s.len()).rev() {
                s.swap(i, crate::ch::choose(i + 1));
            }
        }
    }
}
macro_rules! selx {
    ($($t:tt)*) => {{
        use crate::futs::facade as __futures_crate;
        futures_macro::select_internal! { $($t)* }
    }};
}
/// select! over fused futures in a loop, until all are complete: every completion is delivered
/// once, to its own branch, as soon as the future is ready.
fn t_select_macro(b: u32) {
    let mut d = start(b);
    let (v, ids) = leaves(3);
    concurrent(&ids);
    let [x, y, z] = take!(v, 3);
    let got = Rc::new(RefCell::new(vec![]));
    let g2 = got.clone();
    let f = async move {
        let mut x = x;
        let mut y = y;
        let mut z = z.fuse();
        loop {
            selx! {
                a = x => g2.borrow_mut().push((0, a.0)),
                b = y => g2.borrow_mut().push((1, b.0)),
                c = z => g2.borrow_mut().push((2, c.0)),
                complete => break,
            }
        }
    };
    let ids2 = ids.clone();
    // settled once all three are done
    run_fut(&mut d, f, |_| (), fnoterm, move || if ids2.iter().all(|i| isfin(*i)) { Some(()) } else { None });
    let want: Vec<(u32, u32)> = fins().iter().map(|f| ids.iter().position(|i| i == f).unwrap() as u32).map(|p| (p, 10 + p)).collect();
    check!(*got.borrow() == want, "branches ran as {:?}, completions were {:?}", got.borrow(), want);
}
/// One select!: the first ready branch in (shuffled or written) order wins; the others keep their
/// state; terminated ones are skipped.
fn t_select_macro_once(b: u32) {
    let mut d = start(b);
    let (v, ids) = leaves(3);
    let biased = flip();
    let [x, y, z] = take!(v, 3);
    let ids2 = ids.clone();
    let rest = Rc::new(RefCell::new(vec![]));
    let r2 = rest.clone();
    let f = async move {
        let (mut x, mut y, mut z) = (x, y, z);
        let w = if biased {
            futures::select_biased! { a = x => (0, a.0), b = y => (1, b.0), c = z => (2, c.0) }
        } else {
            selx! { a = x => (0, a.0), b = y => (1, b.0), c = z => (2, c.0) }
        };
        r2.borrow_mut().extend([x, y, z]);
        w
    };
    if biased {
        // in the written order: nothing later is polled before what comes first
        concurrent(&ids);
    }
    let r = run_fut(&mut d, f, |w| w, fnoterm, move || first(&ids2).map(|p| (p, 10 + p as u32))).unwrap();
    w(|w| {
        w.on_pending = None;
        w.strict_wake = false;
    });
    let rest: Vec<_> = std::mem::take(&mut *rest.borrow_mut());
    for (i, f) in rest.into_iter().enumerate() {
        if i == r.0 {
            check!(f.is_terminated(), "the winner is not terminated");
        } else {
            check!(drive(&mut d, Box::pin(f).as_mut()).unwrap().0 == 10 + i as u32, "loser's value");
        }
    }
}
/// select_biased! prefers branches in the order they are written in.
fn t_select_biased(b: u32) {
    let mut d = start(b);
    let (v, ids) = leaves(3);
    let [x, y, z] = take!(v, 3);
    let order = Rc::new(RefCell::new(vec![]));
    let o2 = order.clone();
    let ids2 = ids.clone();
    let f = async move {
        let (mut x, mut y, mut z) = (x, y, z);
        loop {
            // whenever a branch runs, every branch before it is pending or complete
            futures::select_biased! {
                _ = x => o2.borrow_mut().push(0),
                _ = y => { check!(isfin(ids2[0]) || w(|w| w.leaves[ids2[0]].last_poll == w.poll_no), "a branch was preferred to an earlier one"); o2.borrow_mut().push(1) },
                _ = z => {
                    for i in 0..2 { check!(isfin(ids2[i]) || w(|w| w.leaves[ids2[i]].last_poll == w.poll_no), "a branch was preferred to an earlier one"); }
                    o2.borrow_mut().push(2)
                },
                complete => break,
            }
        }
    };
    strict();
    drive(&mut d, Box::pin(f).as_mut());
    let want: Vec<usize> = fins().iter().map(|f| ids.iter().position(|i| i == f).unwrap()).collect();
    check!(*order.borrow() == want && want.len() == 3, "branches ran as {:?}, completions were {:?}", order.borrow(), want);
}
/// `default` runs exactly if nothing is ready, and does not disturb anything.
fn t_select_default(b: u32) {
    let mut d = start(b);
    let (v, ids) = leaves(2);
    let [mut x, mut y] = take!(v, 2);
    let biased = flip();
    let mut got = vec![];
    let mut n = 0;
    loop {
        n += 1;
        // between attempts the environment may make things ready
        let c = waiting();
        if !c.is_empty() {
            let k = choose(c.len() + 1);
            if k > 0 || n > 6 {
                fire(c[k.max(1) - 1]);
            }
        }
        w(|w| w.poll_no += 1);
        let r: i32 = {
            let f = async {
                if biased {
                    futures::select_biased! { a = x => a.0 as i32, b = y => b.0 as i32, complete => -2, default => -1 }
                } else {
                    selx! { a = x => a.0 as i32, b = y => b.0 as i32, complete => -2, default => -1 }
                }
            };
            match d.poll(|cx| Box::pin(f).as_mut().poll(cx)) {
                Poll::Ready(r) => r,
                Poll::Pending => fail("select! with default is pending".into()),
            }
        };
        match r {
            -2 => break,
            -1 => {
                for i in &ids {
                    check!(isfin(*i) || w(|w| w.leaves[*i].last_poll == w.poll_no), "default ran although future #{i} was not polled");
                }
                check!(got.len() < 2, "default ran although all are complete");
            }
            v => {
                got.push(v);
                check!(fins().len() == got.len(), "a completion was lost");
            }
        }
    }
    got.sort();
    check!(got == vec![10, 11], "delivered {:?}", got);
}
/// Streams in select!: `next()` and `select_next_some` in a loop lose no item.
fn t_select_streams(b: u32) {
    let mut d = start(b);
    let nn = (b as usize).min(2);
    let a = src(10, nn);
    let c = src(20, nn).tolerant();
    let got = Rc::new(RefCell::new((vec![], vec![])));
    let g2 = got.clone();
    let f = async move {
        let mut a = a;
        let mut c = c;
        let mut a_open = true;
        loop {
            selx! {
                x = a.next() => match x { Some(x) => g2.borrow_mut().0.push(x), None => { check!(a_open, "a stream ended twice"); a_open = false } },
                x = c.select_next_some() => g2.borrow_mut().1.push(x),
                complete => break,
            }
        }
        check!(!a_open, "complete ran while a stream is still open");
    };
    drive(&mut d, Box::pin(f).as_mut());
    check!(ended(0) && ended(1), "complete ran early");
    check!(*got.borrow() == (items(0), items(1)), "items {:?}, the streams gave {:?} {:?}", got.borrow(), items(0), items(1));
}
/// The real shuffle: a permutation, every one of which comes up.
fn t_shuffle(_: u32) {
    let n = 1 + choose(4);
    let mut seen = std::collections::HashSet::new();
    let fact: usize = (1..=n).product();
    let mut k = 0;
    while seen.len() < fact {
        let mut v: Vec<usize> = (0..n).collect();
        futures_util::__private::async_await::shuffle(&mut v);
        let mut t = v.clone();
        t.sort();
        check!(t == (0..n).collect::<Vec<_>>(), "not a permutation: {:?}", v);
        seen.insert(v);
        k += 1;
        check!(k < 4000, "only {} of {} orders come up in 4000 shuffles", seen.len(), fact);
    }
}
/// The exported macro itself, with at most one branch ready at a time, and its fairness.
fn t_select_real(b: u32) {
    budget(b, 1);
    let mut d = Driver::fixed(1);
    // readiness decided up front so that it does not depend on the shuffle
    let k = choose(3);
    let (v, ids) = leaves(3);
    w(|w| {
        for i in 0..3 {
            if i != k {
                w.leaves[ids[i]].gs = Gs::Waiting;
            } else {
                w.leaves[ids[i]].gs = Gs::Fired;
            }
        }
    });
    let [x, y, z] = take!(v, 3);
    let (mut x, mut y, mut z) = (x, y, z);
    let mut order = vec![k];
    {
        let mut f = Box::pin(async { futures::select! { a = x => a.0, b = y => b.0, c = z => c.0 } });
        match d.poll(|cx| f.as_mut().poll(cx)) {
            Poll::Ready(v) => check!(v == 10 + k as u32, "select! ran branch {} instead of {k}", v - 10),
            Poll::Pending => fail("select! is pending although a branch is ready".into()),
        }
    }
    for _ in 0..2 {
        let r = {
            let mut f = Box::pin(async { futures::select! { a = x => a.0, b = y => b.0, c = z => c.0 } });
            check!(d.poll(|cx| f.as_mut().poll(cx)).is_pending(), "select! is ready although nothing is");
            check!(!d.woken(), "woken early");
            let c = waiting();
            let i = c[choose(c.len())];
            fire(i);
            check!(d.woken(), "select!: the task is not woken when branch #{i} becomes ready");
            order.push(ids.iter().position(|x| *x == i).unwrap());
            match d.poll(|cx| f.as_mut().poll(cx)) {
                Poll::Ready(v) => v,
                Poll::Pending => fail("select! is pending although a branch is ready".into()),
            }
        };
        check!(r == 10 + *order.last().unwrap() as u32, "select! ran the wrong branch");
    }
    let mut f = Box::pin(async { futures::select! { a = x => a.0, b = y => b.0, c = z => c.0, complete => 0 } });
    check!(matches!(d.poll(|cx| f.as_mut().poll(cx)), Poll::Ready(0)), "complete");
    drop(f);
    // fairness: with two ready branches both get their turn
    let (mut l, mut r) = (0, 0);
    for _ in 0..200 {
        let mut p = future::ready(0);
        let mut q = future::ready(1);
        let mut f = Box::pin(async { futures::select! { a = p => a, b = q => b } });
        match d.poll(|cx| f.as_mut().poll(cx)) {
            Poll::Ready(0) => l += 1,
            Poll::Ready(_) => r += 1,
            Poll::Pending => fail("pending".into()),
        }
    }
    check!(l > 20 && r > 20, "select! picked the branches {l} and {r} times of 200");
}
fn t_poll_macro(b: u32) {
    let mut d = start(b);
    let mut f = fut(tok(4));
    let fid = f.id;
    let r = Rc::new(RefCell::new(0));
    let r2 = r.clone();
    let g = async move {
        let mut n = 0;
        loop {
            match futures::poll!(&mut f) {
                Poll::Ready(v) => {
                    check!(isfin(fid) && v.0 == 4, "poll! made up a result");
                    break;
                }
                Poll::Pending => {
                    check!(!isfin(fid), "poll! lost a result");
                    n += 1;
                    *r2.borrow_mut() = n;
                    futures::pending!();
                }
            }
        }
    };
    drive(&mut d, Box::pin(g).as_mut());
    check!(polls(fid) == *r.borrow() + 1 && d.polls == *r.borrow() as u64 + 1, "poll!/pending!: {} polls of the future, {} of the task", polls(fid), d.polls);
}

// ---- sequential combinators -------------------------------------------------------------------

/// Closures run exactly once, at the right time.
fn once(c: &Rc<RefCell<u32>>, ok: bool) {
    *c.borrow_mut() += 1;
    check!(*c.borrow() == 1, "the closure ran twice");
    check!(ok, "the closure ran before its future completed");
}
fn t_map(b: u32) {
    let mut d = start(b);
    let f = fut(tok(1));
    let i = f.id;
    let c = Rc::new(RefCell::new(0));
    let c2 = c.clone();
    let g = f.map(move |t| { once(&c2, isfin(i)); t.0 + 1 });
    run_fut(&mut d, g, |v| v, ffused, move || if isfin(i) { Some(2) } else { None });
    check!(*c.borrow() == 1, "the closure did not run");
}
fn t_map_into(b: u32) {
    let mut d = start(b);
    let k = choose(4);
    match k {
        0 => { let f = fut(3u32); let i = f.id; run_fut(&mut d, f.map_into::<u64>(), |v| v, ffused, move || isfin(i).then(|| 3u64)); }
        1 => { let f = fut(3u32); let i = f.id; run_fut(&mut d, f.unit_error(), |v| v, ffused, move || isfin(i).then(|| Ok(3))); }
        2 => { let f = fut(3u32); let i = f.id; run_fut(&mut d, f.never_error(), |v| v.unwrap(), ffused, move || isfin(i).then(|| 3)); }
        _ => {
            let c = Rc::new(RefCell::new(0));
            let c2 = c.clone();
            let f = fut(3u32);
            let i = f.id;
            run_fut(&mut d, f.inspect(move |v| { once(&c2, isfin(i)); check!(*v == 3, "inspect saw {v}") }), |v| v, ffused, move || isfin(i).then(|| 3));
            check!(*c.borrow() == 1, "inspect did not run");
        }
    }
}
/// Two futures in a row: `then`, `flatten`, `and_then`, `or_else`, ...
fn t_then(b: u32) {
    let mut d = start(b);
    let f = fut(tok(1));
    let i = f.id;
    let c = Rc::new(RefCell::new(0));
    let c2 = c.clone();
    let second = Rc::new(RefCell::new(None));
    let s2 = second.clone();
    let g = f.then(move |t| {
        once(&c2, isfin(i));
        let n = fut(tok(t.0 + 1));
        *s2.borrow_mut() = Some(n.id);
        n
    });
    run_fut(&mut d, g, |v| v.0, ffused, move || match *second.borrow() { Some(j) if isfin(j) => Some(2), _ => None });
    check!(*c.borrow() == 1, "the closure did not run");
}
fn t_flatten(b: u32) {
    let mut d = start(b);
    let inner = fut(tok(2));
    let j = inner.id;
    let f = fut(inner);
    let i = f.id;
    strict();
    run_fut(&mut d, f.flatten(), |v| v.0, ffused, move || if isfin(j) { check!(isfin(i), "inner polled before the outer completed"); Some(2) } else { None });
}
fn rkey(r: R) -> Result<u32, u32> {
    r.map(|t| t.0).map_err(|t| t.0)
}
fn one_r() -> (Fut<R>, usize, Result<u32, u32>) {
    let bad = flip();
    let f = fut(if bad { Err(tok(2)) } else { Ok(tok(1)) });
    let i = f.id;
    (f, i, if bad { Err(2) } else { Ok(1) })
}
fn t_try_map(b: u32) {
    let mut d = start(b);
    let (f, i, o) = one_r();
    let c = Rc::new(RefCell::new(0));
    let c2 = c.clone();
    let mut runs = 1;
    match choose(8) {
        0 => { run_fut(&mut d, f.map_ok(move |t| { once(&c2, isfin(i)); tok(t.0 + 10) }), rkey, ffused, move || isfin(i).then(|| o.map(|x| x + 10))); runs = o.is_ok() as u32; }
        1 => { run_fut(&mut d, f.map_err(move |t| { once(&c2, isfin(i)); tok(t.0 + 10) }), rkey, ffused, move || isfin(i).then(|| o.map_err(|x| x + 10))); runs = o.is_err() as u32; }
        2 => { let c3 = c2.clone(); run_fut(&mut d, f.map_ok_or_else(move |e| { once(&c2, isfin(i)); e.0 + 10 }, move |v| { once(&c3, isfin(i)); v.0 + 20 }), |v| v, ffused, move || isfin(i).then(|| match o { Ok(x) => x + 20, Err(x) => x + 10 })); }
        3 => { run_fut(&mut d, f.inspect_ok(move |t| { once(&c2, isfin(i)); check!(t.0 == 1, "inspect_ok") }), rkey, ffused, move || isfin(i).then(|| o)); runs = o.is_ok() as u32; }
        4 => { run_fut(&mut d, f.inspect_err(move |t| { once(&c2, isfin(i)); check!(t.0 == 2, "inspect_err") }), rkey, ffused, move || isfin(i).then(|| o)); runs = o.is_err() as u32; }
        5 => { run_fut(&mut d, f.unwrap_or_else(move |e| { once(&c2, isfin(i)); tok(e.0 + 10) }), |t| t.0, ffused, move || isfin(i).then(|| match o { Ok(x) => x, Err(x) => x + 10 })); runs = o.is_err() as u32; }
        6 => { run_fut(&mut d, f.into_future(), rkey, ffused, move || isfin(i).then(|| o)); runs = 0; }
        _ => {
            drop(f);
            let bad = flip();
            let f = fut(if bad { Err(2u8) } else { Ok(1u8) });
            let i = f.id;
            if flip() {
                run_fut(&mut d, f.err_into::<u32>(), |r| r, ffused, move || isfin(i).then(|| if bad { Err(2u32) } else { Ok(1u8) }));
            } else {
                run_fut(&mut d, f.ok_into::<u32>(), |r| r, ffused, move || isfin(i).then(|| if bad { Err(2u8) } else { Ok(1u32) }));
            }
            runs = 0;
        }
    }
    check!(*c.borrow() == runs, "the closure ran {} times, expected {runs}", c.borrow());
}
fn t_and_then(b: u32) {
    let mut d = start(b);
    let (f, i, o) = one_r();
    let c = Rc::new(RefCell::new(0));
    let c2 = c.clone();
    let bad2 = flip();
    let second: Rc<RefCell<Option<usize>>> = Rc::new(RefCell::new(None));
    let s2 = second.clone();
    let o2 = if bad2 { Err(4) } else { Ok(3) };
    let mk = move || {
        once(&c2, isfin(i));
        let n: Fut<R> = fut(if bad2 { Err(tok(4)) } else { Ok(tok(3)) });
        *s2.borrow_mut() = Some(n.id);
        n
    };
    let sec = move || match *second.borrow() { Some(j) if isfin(j) => Some(o2), _ => None };
    if flip() {
        run_fut(&mut d, f.and_then(move |t| { check!(t.0 == 1, "and_then's argument"); mk() }), rkey, ffused, move || match o { Ok(_) => sec(), Err(e) => isfin(i).then(|| Err(e)) });
        check!(*c.borrow() == o.is_ok() as u32, "closure runs");
    } else {
        run_fut(&mut d, f.or_else(move |t| { check!(t.0 == 2, "or_else's argument"); mk() }), rkey, ffused, move || match o { Err(_) => sec(), Ok(e) => isfin(i).then(|| Ok(e)) });
        check!(*c.borrow() == o.is_err() as u32, "closure runs");
    }
}
fn t_try_flatten(b: u32) {
    let mut d = start(b);
    let bad2 = flip();
    let inner: Fut<R> = fut(if bad2 { Err(tok(4)) } else { Ok(tok(3)) });
    let j = inner.id;
    let bad = flip();
    if flip() {
        let f = fut(if bad { Err(tok(2)) } else { Ok(inner) });
        let i = f.id;
        run_fut(&mut d, f.try_flatten(), rkey, ffused, move || if bad { isfin(i).then(|| Err(2)) } else { isfin(j).then(|| if bad2 { Err(4) } else { Ok(3) }) });
    } else {
        let f = fut(if bad { Err(inner) } else { Ok(tok(2)) });
        let i = f.id;
        run_fut(&mut d, futures_util::TryFutureExt::or_else(f, |i| i), rkey, ffused, move || if !bad { isfin(i).then(|| Ok(2)) } else { isfin(j).then(|| if bad2 { Err(4) } else { Ok(3) }) });
    }
}
fn t_flatten_stream(b: u32) {
    let mut d = start(b);
    let n = (b as usize).min(3);
    let inner = src(10, n).any_hint();
    let o = SOpts { lazy: false, ..SO };
    match choose(3) {
        0 => {
            let f = fut(inner);
            let i = f.id;
            run_stream(&mut d, f.flatten_stream(), |x| x, fused, move || Model { out: if isfin(i) { items(0) } else { check!(items(0).is_empty(), "inner stream polled early"); vec![] }, fin: ended(0) }, o);
        }
        1 => {
            let bad = flip();
            let inner = inner.map(Ok);
            let f = fut(if bad { Err(tok(2)) } else { Ok(inner) });
            let i = f.id;
            run_stream(
                &mut d,
                f.try_flatten_stream(),
                |x: R2| x.map_err(|t| t.0),
                fused,
                move || if bad { Model { out: if isfin(i) { vec![Err(2)] } else { vec![] }, fin: isfin(i) } } else { Model { out: items(0).into_iter().map(Ok).collect(), fin: ended(0) } },
                SOpts { again: bad as u32, ..o },
            );
        }
        _ => {
            let f = fut(tok(9));
            let i = f.id;
            drop(inner);
            // hint: exactly one until it came out
            run_stream(&mut d, f.into_stream(), |t| t.0, fused, move || Model { out: if isfin(i) { vec![9] } else { vec![] }, fin: isfin(i) }, SOpts { again: 2, ..o });
        }
    }
}
type R2 = Result<u32, Tok>;
fn t_fuse(b: u32) {
    let mut d = start(b);
    let f = fut(tok(3));
    let i = f.id;
    let mut g = Box::pin(f.fuse());
    loop {
        check!(!g.is_terminated(), "terminated early");
        match d.poll(|cx| g.as_mut().poll(cx)) {
            Poll::Ready(v) => {
                check!(isfin(i) && v.0 == 3, "fuse's result");
                break;
            }
            Poll::Pending => {
                check!(!isfin(i), "result withheld");
                d.wait();
            }
        }
    }
    check!(isdropped(i), "a fused future is dropped when it completes");
    for _ in 0..2 {
        check!(g.is_terminated(), "not terminated after completion");
        check!(d.poll(|cx| g.as_mut().poll(cx)).is_pending() && !d.woken(), "a completed Fuse must stay pending");
    }
    let mut t = Box::pin(future::Fuse::<Fut<Tok>>::terminated());
    check!(t.is_terminated() && d.poll(|cx| t.as_mut().poll(cx)).is_pending(), "Fuse::terminated");
}
fn t_catch_unwind(b: u32) {
    let mut d = start(b);
    allow_panics(1);
    let f = fut(tok(3));
    let i = f.id;
    let g = std::panic::AssertUnwindSafe(f).catch_unwind();
    let mut g = Box::pin(g);
    loop {
        match d.poll(|cx| g.as_mut().poll(cx)) {
            Poll::Ready(Ok(v)) => {
                check!(isfin(i) && v.0 == 3, "result");
                break;
            }
            Poll::Ready(Err(e)) => {
                check!(e.is::<LeafPanic>() && w(|w| w.panics == 0), "a panic was made up");
                break;
            }
            Poll::Pending => {
                check!(!isfin(i) && w(|w| w.panics == 1), "result withheld");
                d.wait();
            }
        }
    }
}
fn t_now_or_never(b: u32) {
    budget(b, 1);
    let f = fut(tok(3));
    let i = f.id;
    let r = f.now_or_never();
    check!(r.is_some() == isfin(i), "now_or_never is {} although the future's completion is {}", r.is_some(), isfin(i));
    check!(polls(i) == 1 && isdropped(i), "now_or_never polls once");
    // poll_immediate
    let f = fut(tok(4));
    let i = f.id;
    let mut d = Driver::fixed(0);
    let mut g = Box::pin(future::poll_immediate(f));
    check!(!g.is_terminated(), "terminated early");
    match d.poll(|cx| g.as_mut().poll(cx)) {
        Poll::Ready(r) => check!(r.is_some() == isfin(i) && polls(i) == 1 && g.is_terminated() == isfin(i), "poll_immediate"),
        Poll::Pending => fail("poll_immediate is pending".into()),
    }
    // poll_immediate as a stream
    let f = fut(tok(5));
    let i = f.id;
    let mut g = Box::pin(future::poll_immediate(f));
    for k in 1..4 {
        check!(!g.is_terminated(), "terminated early");
        match d.poll(|cx| Stream::poll_next(g.as_mut(), cx)) {
            Poll::Ready(Some(Poll::Ready(t))) => {
                check!(isfin(i) && t.0 == 5 && polls(i) == k, "poll_immediate stream");
                check!(g.is_terminated() && isdropped(i), "poll_immediate stream keeps a finished future");
                check!(matches!(d.poll(|cx| Stream::poll_next(g.as_mut(), cx)), Poll::Ready(None)), "poll_immediate stream does not end");
                break;
            }
            Poll::Ready(Some(Poll::Pending)) => check!(!isfin(i) && polls(i) == k, "poll_immediate stream withholds the output"),
            _ => fail("poll_immediate stream ends or is pending".into()),
        }
        if waiting().contains(&i) && flip() {
            fire(i);
        }
    }
}
fn t_option_either(b: u32) {
    let mut d = start(b);
    match choose(4) {
        0 => {
            let f = fut(tok(3));
            let i = f.id;
            run_fut(&mut d, future::OptionFuture::from(Some(f)), |v| v.map(|t| t.0), ffused, move || isfin(i).then(|| Some(3)));
        }
        1 => {
            run_fut(&mut d, future::OptionFuture::<Fut<Tok>>::from(None), |v| v.map(|t| t.0), fnoterm, || Some(None));
        }
        2 => {
            let f = fut(tok(3));
            let i = f.id;
            let e = if flip() { f.left_future::<Fut<Tok>>() } else { f.right_future::<Fut<Tok>>() };
            run_fut(&mut d, e, |v| v.0, ffused, move || isfin(i).then(|| 3));
        }
        _ => {
            let st = src(10, 2).any_hint();
            let e = if flip() { st.left_stream::<Src<u32>>() } else { st.right_stream() };
            run_stream(&mut d, e, |v| v, fused, || Model { out: items(0), fin: ended(0) }, SO);
        }
    }
}
fn t_ctor(b: u32) {
    let mut d = start(b);
    match choose(8) {
        0 => { run_fut(&mut d, future::ready(tok(1)), |t| t.0, ffused, || Some(1)); }
        1 => { run_fut(&mut d, future::ok::<Tok, ()>(tok(1)), |t| t.unwrap().0, ffused, || Some(1)); }
        2 => { run_fut(&mut d, future::err::<(), Tok>(tok(1)), |t| t.unwrap_err().0, ffused, || Some(1)); }
        3 => {
            let mut f = Box::pin(future::pending::<()>());
            check!(f.is_terminated(), "pending() never completes, so is_terminated");
            check!(d.poll(|cx| f.as_mut().poll(cx)).is_pending(), "pending is ready");
        }
        4 => {
            let c = Rc::new(RefCell::new(0));
            let c2 = c.clone();
            let f = future::lazy(move |_cx| { once(&c2, true); tok(1) });
            check!(*c.borrow() == 0, "lazy ran before the poll");
            run_fut(&mut d, f, |t| t.0, ffused, || Some(1));
        }
        5 => {
            let mut f = fut(tok(1));
            let i = f.id;
            run_fut(&mut d, future::poll_fn(move |cx| Pin::new(&mut f).poll(cx)), |t| t.0, fnoterm, move || isfin(i).then(|| 1));
        }
        6 => {
            let f = fut(tok(1));
            let i = f.id;
            if flip() { run_fut(&mut d, f.boxed_local(), |t| t.0, fnoterm, move || isfin(i).then(|| 1)); }
            else { let mut f = f; run_fut(&mut d, (&mut f).map(|x| x), |t| t.0, ffused, move || isfin(i).then(|| 1)); }
        }
        _ => {
            let mut f = Box::pin(future::always_ready(|| 7));
            for _ in 0..3 {
                check!(!f.is_terminated(), "always_ready terminated");
                check!(matches!(d.poll(|cx| f.as_mut().poll(cx)), Poll::Ready(7)), "always_ready");
            }
            check!(matches!(future::ready(8).into_inner(), 8), "ready.into_inner");
        }
    }
}
/// abortable: aborted exactly if abort was called before completion.
fn t_abortable(b: u32) {
    let mut d = start(b);
    let f = fut(tok(3));
    let i = f.id;
    let (g, h) = future::abortable(f);
    let mut g = Box::pin(g);
    let mut aborted = false;
    check!(!g.is_aborted() && !h.is_aborted(), "aborted at the start");
    loop {
        if flip() {
            let h2 = h.clone();
            h2.abort();
            aborted = true;
            note(|| "abort".into());
            check!(g.is_aborted() && h.is_aborted(), "is_aborted after abort");
            if d.polls > 0 {
                check!(d.woken(), "abort does not wake the task");
            }
        }
        let before = polls(i);
        match d.poll(|cx| g.as_mut().poll(cx)) {
            Poll::Ready(Ok(v)) => {
                check!(isfin(i) && !aborted && v.0 == 3, "completed although aborted");
                check!(!h.is_aborted() && !g.is_aborted(), "is_aborted without abort");
                h.abort();
                check!(h.is_aborted() && g.is_aborted(), "is_aborted after abort");
                return;
            }
            Poll::Ready(Err(_)) => {
                check!(aborted && !isfin(i), "aborted by itself");
                check!(polls(i) == before, "polled after abort");
                return;
            }
            Poll::Pending => {
                check!(!aborted, "pending although aborted");
                if d.polls > 2 || flip() {
                    d.wait();
                }
            }
        }
    }
}
/// remote_handle in one task: the remote half drives, the handle gets the result.
fn t_remote_handle(b: u32) {
    let mut d = start(b);
    allow_panics(1);
    let f = fut(tok(3));
    let i = f.id;
    let (r, h) = f.remote_handle();
    let mut r = Some(Box::pin(r));
    let mut h = Some(Box::pin(h));
    let mut rd = Driver::fixed(1);
    let mut done = false;
    let mut forgotten = false;
    let mut due = true;
    for _ in 0..8 {
        // alternatives: poll the remote (if due), poll the handle, drop or forget the handle, environment
        let mut o = vec![];
        if r.is_some() && (due || rd.woken()) { o.push(0); }
        if h.is_some() { o.extend([1, 2, 3]); }
        for _ in waiting() { o.push(4); }
        if r.is_some() { o.push(5); }
        if o.is_empty() { break; }
        match o[choose(o.len())] {
            0 => {
                due = false;
                let dropped = h.is_none() && !forgotten;
                match rd.poll(|cx| r.as_mut().unwrap().as_mut().poll(cx)) {
                    Poll::Ready(()) => { check!(isfin(i) || w(|w| w.panics == 0) || dropped, "the remote half completed early"); done = true; r = None; }
                    Poll::Pending => check!(!dropped, "pending although the handle was dropped"),
                }
            }
            1 => {
                let q = std::panic::catch_unwind(std::panic::AssertUnwindSafe(|| d.poll(|cx| h.as_mut().unwrap().as_mut().poll(cx))));
                match q {
                    Ok(Poll::Ready(v)) => { check!(done && isfin(i) && v.0 == 3, "result"); return; }
                    Ok(Poll::Pending) => check!(!done && r.is_some(), "handle pending although the remote half is done"),
                    Err(e) => {
                        check!((e.is::<LeafPanic>() && w(|w| w.panics == 0)) || r.is_none(), "the handle panics by itself");
                        return;
                    }
                }
            }
            2 => { h = None; note(|| "drop handle".into()); if rd.polls > 0 && r.is_some() { check!(rd.woken() || due, "dropping the handle does not wake the remote half"); } }
            3 => { let x = *Pin::into_inner(h.take().unwrap()); x.forget(); forgotten = true; note(|| "forget".into()); }
            5 => { r = None; note(|| "drop remote".into()); if d.polls > 0 && h.is_some() && !done { check!(d.woken(), "dropping the remote half does not wake the handle"); } }
            _ => { let c = waiting(); fire(c[0]); check!(r.is_none() || rd.woken() || due, "the remote half is not woken"); }
        }
    }
}


pub const SCN: &[Scn] = &[
    s("fu_join2", "C16 C22 C31", 3, 5, t_join2),
    s("fu_join_macro", "C16 C31 C22", 3, 4, t_join_macro),
    s("fu_join_all", "C16 C31", 3, 4, t_join_all),
    s("fu_join_all_big", "C16 C31", 2, 3, t_join_all_big),
    s("fu_try_join2", "C16 C31", 3, 5, t_try_join2),
    s("fu_try_join_macro", "C16 C31", 3, 4, t_try_join_macro),
    s("fu_try_join_all", "C16 C31", 3, 4, t_try_join_all),
    s("fu_try_join_all_big", "C16 C31", 1, 2, t_try_join_all_big),
    s("fu_maybe_done", "C16 C22 C31", 3, 4, t_maybe_done),
    s("fu_select", "C17 C22 C31", 3, 5, t_select),
    s("fu_select_all", "C17 C31 C22", 3, 4, t_select_all),
    s("fu_select_ok", "C17 C31", 3, 4, t_select_ok),
    s("fu_try_select", "C17 C31", 3, 4, t_try_select),
    s("fu_select_macro", "C17 C31", 1, 2, t_select_macro),
    s("fu_select_macro_once", "C17 C31", 2, 3, t_select_macro_once),
    s("fu_select_biased", "C17 C31", 3, 4, t_select_biased),
    s("fu_select_default", "C17 C31", 2, 3, t_select_default),
    s("fu_select_streams", "C17 C31 C22", 2, 3, t_select_streams),
    s("fu_shuffle", "C17 !", 1, 1, t_shuffle),
    s("fu_select_real", "C17 C31 !", 1, 1, t_select_real),
    s("fu_poll_macro", "C17 C30 C31", 3, 4, t_poll_macro),
    s("fu_map", "C30 C22 C31", 3, 4, t_map),
    s("fu_map_into", "C30 C22 C31", 3, 4, t_map_into),
    s("fu_then", "C30 C22 C31", 3, 4, t_then),
    s("fu_flatten", "C30 C22 C31", 3, 4, t_flatten),
    s("fu_try_map", "C30 C22 C31", 3, 4, t_try_map),
    s("fu_and_then", "C30 C22 C31", 3, 4, t_and_then),
    s("fu_try_flatten", "C30 C22 C31", 3, 4, t_try_flatten),
    s("fu_flatten_stream", "C30 C22 C23 C31", 3, 4, t_flatten_stream),
    s("fu_fuse", "C30 C22 C31", 3, 4, t_fuse),
    s("fu_catch_unwind", "C30 C27 C31 !", 3, 4, t_catch_unwind),
    s("fu_now_or_never", "C30 C22 C31", 2, 2, t_now_or_never),
    s("fu_option_either", "C30 C22 C23 C31 C34", 3, 4, t_option_either),
    s("fu_ctor", "C30 C22 C31 C34", 3, 4, t_ctor),
    s("fu_abortable", "C12 C13 C31 C22 C27", 3, 4, t_abortable),
    s("fu_remote_handle", "C13 C27 C31 !", 3, 4, t_remote_handle),
];
