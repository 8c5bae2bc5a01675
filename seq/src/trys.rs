//! C19 try-stream combinators: errors come out in place, once, and short-circuit exactly where
//! documented.
use crate::ch::*;
use crate::leaf::*;
use crate::{s, Scn};
use futures::stream::{self, Stream, StreamExt, TryStreamExt};
use std::cell::RefCell;
use std::rc::Rc;

type R = Result<u32, u32>;
fn start(b: u32) -> Driver {
    budget(b, 1);
    Driver::new(1)
}
fn n(b: u32) -> usize {
    (b as usize).min(4)
}
fn m<T>(out: Vec<T>, fin: bool) -> Model<T> {
    Model { out, fin }
}
/// A source of results; an item's kind (last digit) is explored, the last kind being an error of
/// the stream itself.
/// One of many: short even in long mode.
fn inner_ksrc(max: usize) -> Src<R> {
    if long() {
        match dchoose(3) {
            0 => src_of(vec![Ok(1), Ok(2)], vec![1, 2]),
            1 => src_of(vec![], vec![]),
            _ => src_of(vec![Ok(1), Err(10)], vec![1, 100010]),
        }
    } else {
        ksrc(max, 1)
    }
}
fn ksrc(max: usize, kinds: usize) -> Src<R> {
    let n = count(max);
    let mut v = vec![];
    let mut t = vec![];
    for i in 0..n as u32 {
        let k = dchoose(kinds + 1);
        if k == kinds {
            v.push(Err(i * 10));
            t.push(100000 + i * 10);
        } else {
            v.push(Ok(i * 10 + k as u32));
            t.push(i * 10 + k as u32);
        }
    }
    src_of(v, t)
}
fn ritems(i: usize) -> Vec<R> {
    items(i).into_iter().map(|t| if t >= 100000 { Err(t - 100000) } else { Ok(t) }).collect()
}
fn opts(s: Src<R>) -> (Src<R>, SOpts) {
    if flip() {
        (s.tolerant(), SOpts { again: 2, ..SO })
    } else {
        (s, SO)
    }
}
/// Items whose processing is complete: every Ok item starts a future, in order.
fn processed() -> (Vec<R>, bool) {
    let it = ritems(0);
    let mut left = done();
    let mut out = vec![];
    let mut all = true;
    for x in it {
        if x.is_ok() {
            if left == 0 {
                all = false;
                break;
            }
            left -= 1;
        }
        out.push(x);
    }
    (out, all)
}

fn t_maps(b: u32) {
    let mut d = start(b);
    let k = choose(6);
    let (s, o) = opts(ksrc(n(b), 1).any_hint());
    match k {
        0 => { run_stream(&mut d, s.map_ok(|x| x + 1), |x| x, fused, || m(ritems(0).into_iter().map(|r| r.map(|x| x + 1)).collect(), ended(0)), o); }
        1 => { run_stream(&mut d, s.map_err(|x| x + 1), |x| x, fused, || m(ritems(0).into_iter().map(|r| r.map_err(|x| x + 1)).collect(), ended(0)), o); }
        2 => { run_stream(&mut d, s.err_into::<u64>(), |x| x, fused, || m(ritems(0).into_iter().map(|r| r.map_err(|x| x as u64)).collect(), ended(0)), o); }
        3 => { run_stream(&mut d, TryStreamExt::into_stream(s), |x| x, fused, || m(ritems(0), ended(0)), o); }
        _ => {
            let seen = Rc::new(RefCell::new(vec![]));
            let s2 = seen.clone();
            if k == 4 {
                run_stream(&mut d, s.inspect_ok(move |x| s2.borrow_mut().push(*x)), |x| x, fused, || m(ritems(0), ended(0)), o);
                check!(*seen.borrow() == ritems(0).into_iter().filter_map(|r| r.ok()).collect::<Vec<_>>(), "inspect_ok saw {:?}", seen.borrow());
            } else {
                run_stream(&mut d, s.inspect_err(move |x| s2.borrow_mut().push(*x)), |x| x, fused, || m(ritems(0), ended(0)), o);
                check!(*seen.borrow() == ritems(0).into_iter().filter_map(|r| r.err()).collect::<Vec<_>>(), "inspect_err saw {:?}", seen.borrow());
            }
        }
    }
}
fn step2(x: u32) -> R {
    if x % 10 == 1 { Err(x + 500) } else { Ok(x + 100) }
}
fn t_and_then(b: u32) {
    let mut d = start(b);
    let (s, o) = opts(ksrc(n(b), 2).any_hint());
    run_stream(&mut d, s.and_then(|x| cfut(step2(x))), |x| x, fused, || { let (p, all) = processed(); m(p.into_iter().map(|r| r.and_then(step2)).collect(), all && ended(0)) }, o);
}
fn t_or_else(b: u32) {
    let mut d = start(b);
    let (s, o) = opts(ksrc(n(b), 1).any_hint());
    let bad = flip();
    let f = move |x: u32| -> R { if bad { Err(x + 500) } else { Ok(x + 100) } };
    run_stream(
        &mut d,
        s.or_else(move |x| cfut(f(x))),
        |x| x,
        fused,
        move || {
            let mut left = done();
            let mut out = vec![];
            let mut all = true;
            for r in ritems(0) {
                match r {
                    Ok(x) => out.push(Ok(x)),
                    Err(_) if left == 0 => { all = false; break; }
                    Err(e) => { left -= 1; out.push(f(e)); }
                }
            }
            m(out, all && ended(0))
        },
        o,
    );
}
fn t_try_filter(b: u32) {
    let mut d = start(b);
    let (s, o) = opts(ksrc(n(b), 2).any_hint());
    if flip() {
        run_stream(&mut d, s.try_filter(|x| cfut(x % 10 == 1)), |x| x, fused, || { let (p, all) = processed(); m(p.into_iter().filter(|r| r.map_or(true, |x| x % 10 == 1)).collect(), all && ended(0)) }, o);
    } else {
        // kind 0 is dropped, kind 1 kept; with three kinds also failing predicates
        run_stream(&mut d, s.try_filter_map(|x| cfut(Ok::<_, u32>(if x % 10 == 1 { Some(x + 3) } else { None }))), |x| x, fused, || { let (p, all) = processed(); m(p.into_iter().filter_map(|r| match r { Ok(x) if x % 10 == 1 => Some(Ok(x + 3)), Ok(_) => None, e => Some(e) }).collect(), all && ended(0)) }, o);
    }
}
fn t_try_filter_map(b: u32) {
    let mut d = start(b);
    let (s, o) = opts(ksrc(n(b).min(3), 3).any_hint());
    let f = |x: u32| -> Result<Option<u32>, u32> { match x % 10 { 0 => Ok(None), 1 => Ok(Some(x + 3)), _ => Err(x + 500) } };
    run_stream(&mut d, s.try_filter_map(move |x| cfut(f(x))), |x| x, fused, move || { let (p, all) = processed(); m(p.into_iter().filter_map(|r| match r { Ok(x) => f(x).transpose(), Err(e) => Some(Err(e)) }).collect(), all && ended(0)) }, o);
}
/// predicate: kind 0 true, 1 false, 2 error
fn pred(x: u32) -> Result<bool, u32> {
    match x % 10 { 0 => Ok(true), 1 => Ok(false), _ => Err(x + 500) }
}
fn t_try_skip_while(b: u32) {
    let mut d = start(b);
    let (s, o) = opts(ksrc(n(b).min(3), 3).any_hint());
    run_stream(
        &mut d,
        s.try_skip_while(|x| cfut(pred(*x))),
        |x| x,
        fused,
        || {
            let mut left = done();
            let mut out = vec![];
            let mut skipping = true;
            for r in ritems(0) {
                match r {
                    Err(e) => out.push(Err(e)),
                    Ok(x) if !skipping => out.push(Ok(x)),
                    Ok(x) => {
                        if left == 0 {
                            return m(out, false);
                        }
                        left -= 1;
                        match pred(x) {
                            Ok(true) => {}
                            Ok(false) => { skipping = false; out.push(Ok(x)); }
                            Err(e) => out.push(Err(e)),
                        }
                    }
                }
            }
            m(out, ended(0))
        },
        o,
    );
}
fn t_try_take_while(b: u32) {
    let mut d = start(b);
    let (s, o) = opts(ksrc(n(b).min(3), 3).any_hint());
    run_stream(
        &mut d,
        s.try_take_while(|x| cfut(pred(*x))),
        |x| x,
        fused,
        || {
            let mut left = done();
            let mut out = vec![];
            for r in ritems(0) {
                match r {
                    Err(e) => out.push(Err(e)),
                    Ok(x) => {
                        if left == 0 {
                            return m(out, false);
                        }
                        left -= 1;
                        match pred(x) {
                            Ok(true) => out.push(Ok(x)),
                            Ok(false) => return m(out, true),
                            Err(e) => out.push(Err(e)),
                        }
                    }
                }
            }
            m(out, ended(0))
        },
        o,
    );
}
fn t_try_unfold(b: u32) {
    let mut d = start(b);
    let steps = n(b) as u32;
    let plan: Vec<usize> = (0..=steps).map(|_| choose(3)).collect();
    let p2 = plan.clone();
    let st = stream::try_unfold(0u32, move |i| cfut(match plan[i as usize] { 0 if i < steps => Ok(Some((i, i + 1))), 1 => Err(i + 500), _ => Ok(None) }));
    run_stream(
        &mut d,
        st,
        |x: R| x,
        noterm,
        move || {
            let mut out = vec![];
            for i in 0..done() as u32 {
                match p2[i as usize] {
                    0 if i < steps => out.push(Ok(i)),
                    1 => { out.push(Err(i + 500)); return m(out, true); }
                    _ => return m(out, true),
                }
            }
            m(out, false)
        },
        SOpts { again: 2, ..SO },
    );
}
fn t_try_chunks(b: u32) {
    let mut d = start(b);
    let cap = 1 + param(2);
    let (s, o) = opts(ksrc(n(b) + 1, 1).any_hint());
    run_stream(
        &mut d,
        s.try_chunks(cap),
        |r| r.map_err(|stream::TryChunksError(v, e)| (v, e)),
        fused,
        move || {
            let mut out = vec![];
            let mut cur = vec![];
            for r in ritems(0) {
                match r {
                    Ok(x) => { cur.push(x); if cur.len() == cap { out.push(Ok(std::mem::take(&mut cur))); } }
                    Err(e) => out.push(Err((std::mem::take(&mut cur), e))),
                }
            }
            if ended(0) && !cur.is_empty() { out.push(Ok(cur)); }
            m(out, ended(0))
        },
        o,
    );
}
/// try_ready_chunks: everything in order, batches within the limit, no item held back.
fn t_try_ready_chunks(b: u32) {
    let mut d = start(b);
    let cap = 1 + param(2);
    let s = ksrc(n(b) + 1, 1).any_hint().tolerant();
    let mut st = Box::pin(s.try_ready_chunks(cap));
    let mut got: Vec<R> = vec![];
    let mut outs = 0;
    let mut hints = vec![];
    loop {
        hints.push((outs, futures::Stream::size_hint(&*st)));
        let term = fused(&*st).unwrap();
        let r = d.poll(|cx| st.as_mut().poll_next(cx));
        check!(!term || matches!(r, std::task::Poll::Ready(None)), "is_terminated before the end");
        match r {
            std::task::Poll::Ready(Some(Ok(v))) => {
                check!(!v.is_empty() && v.len() <= cap, "a batch of {} with limit {cap}", v.len());
                got.extend(v.into_iter().map(Ok));
                outs += 1;
            }
            std::task::Poll::Ready(Some(Err(stream::TryReadyChunksError(v, e)))) => {
                check!(v.len() < cap, "a batch of {} with limit {cap}", v.len());
                got.extend(v.into_iter().map(Ok));
                got.push(Err(e));
                outs += 1;
            }
            std::task::Poll::Ready(None) => {
                check!(ended(0), "ended early");
                break;
            }
            std::task::Poll::Pending => {
                check!(got == ritems(0), "items held back");
                d.wait();
            }
        }
        check!(got == ritems(0) || (got.len() < ritems(0).len() && false), "items {:?}, the source gave {:?}", got, ritems(0));
    }
    check!(got == ritems(0), "items {:?}, the source gave {:?}", got, ritems(0));
    check!(futures::stream::FusedStream::is_terminated(&*st), "not terminated");
    for (k, (lo, hi)) in hints {
        let left = outs - k;
        check!(lo <= left && hi.map_or(true, |h| left <= h), "size_hint ({lo}, {:?}) with {left} to come", hi);
    }
}
fn t_try_flatten(b: u32) {
    let mut d = start(b);
    let bb = n(b).min(2);
    let nout = count(bb);
    let mut v = vec![];
    let mut tags = vec![];
    let mut k = 0;
    for i in 0..nout as u32 {
        if dchoose(2) == 1 {
            v.push(Err(i * 10));
            tags.push(100000 + i * 10);
        } else {
            v.push(Ok(inner_ksrc(bb)));
            tags.push(k);
            k += 1;
        }
    }
    // inner sources come first in the numbering
    let outer = src_of(v, tags);
    let on = outer.n;
    let (outer, o) = if flip() { (outer.tolerant(), SOpts { again: 2, ..SO }) } else { (outer, SO) };
    run_stream(
        &mut d,
        outer.try_flatten(),
        |x: R| x,
        fused,
        move || {
            let mut out = vec![];
            for t in items(on) {
                if t >= 100000 { out.push(Err(t - 100000)); } else {
                    out.extend(ritems(t as usize));
                    if !ended(t as usize) { return m(out, false); }
                }
            }
            m(out, ended(on))
        },
        SOpts { lazy: false, ..o },
    );
}
/// Consumers: the first error ends them, with nothing polled afterwards.
fn until_err() -> (Vec<u32>, Option<u32>) {
    let mut v = vec![];
    for r in ritems(0) {
        match r {
            Ok(x) => v.push(x),
            Err(e) => return (v, Some(e)),
        }
    }
    (v, None)
}
fn t_try_collect(b: u32) {
    let mut d = start(b);
    let s = ksrc(n(b), 1).any_hint();
    if flip() {
        run_fut(&mut d, s.try_collect::<Vec<u32>>(), |r| r, |f| if until_err().1.is_some() { None } else { ffused(f) }, || match until_err() { (_, Some(e)) => Some(Err(e)), (v, None) => ended(0).then(|| Ok(v)) });
    } else {
        run_fut(&mut d, s.map_ok(|x| vec![x]).try_concat(), |r| r, fnoterm, || match until_err() { (_, Some(e)) => Some(Err(e)), (v, None) => ended(0).then(|| Ok(v)) });
    }
}
fn t_try_all_any(b: u32) {
    let mut d = start(b);
    let any = flip();
    let s = ksrc(n(b), 2).any_hint();
    let model = move || {
        let mut left = done();
        for r in ritems(0) {
            match r {
                Err(e) => return Some(Err(e)),
                Ok(_) if left == 0 => return None,
                Ok(x) => {
                    left -= 1;
                    if (x % 10 == 1) == any { return Some(Ok(any)); }
                }
            }
        }
        ended(0).then(|| Ok(!any))
    };
    if any {
        run_fut(&mut d, s.try_any(|x| cfut(x % 10 == 1)), |r| r, ffused, model);
    } else {
        run_fut(&mut d, s.try_all(|x| cfut(x % 10 == 1)), |r| r, ffused, model);
    }
}
/// try_fold and try_for_each: strictly in sequence, stopping at the first failure.
fn t_try_fold(b: u32) {
    let mut d = start(b);
    let s = src_vals(n(b), 2).any_hint();
    let fold = flip();
    let model = move || {
        let it = items(0);
        let k = done();
        if let Some(p) = it.iter().take(k).position(|x| *x == 1) {
            return Some(Err(p as u32));
        }
        if ended(0) && k == it.len() { Some(Ok(k as u32)) } else { None }
    };
    if fold {
        run_fut(&mut d, s.try_fold(0u32, |a, x| cfut(if x == 1 { Err(a) } else { Ok(a + 1) })), |r| r, ffused, model);
    } else {
        let c = Rc::new(RefCell::new(0u32));
        let c2 = c.clone();
        run_fut(&mut d, s.try_for_each(move |x| { let k = *c2.borrow(); *c2.borrow_mut() += 1; cfut(if x == 1 { Err(k) } else { Ok(()) }) }), move |r| r.map(|_| *c.borrow()), fnoterm, model);
    }
}
/// try_next, and carrying on after an error.
fn t_try_next(b: u32) {
    let mut d = start(b);
    let s = ksrc(n(b), 1).any_hint().tolerant();
    let mut s = s;
    let mut got = vec![];
    loop {
        let r = {
            let f = s.try_next();
            check!(ffused(&f) == Some(ended(0)), "TryNext::is_terminated is {:?} with the source ended: {}", ffused(&f), ended(0));
            drive(&mut d, Box::pin(f).as_mut()).unwrap()
        };
        match r {
            Ok(Some(x)) => got.push(Ok(x)),
            Err(e) => got.push(Err(e)),
            Ok(None) => break,
        }
        check!(got == ritems(0), "try_next gave {:?}, the source {:?}", got, ritems(0));
    }
    check!(ended(0) && got == ritems(0), "try_next ended early");
    check!(ffused(&s.try_next()) == Some(true), "TryNext::is_terminated is false after the end");
}

pub const SCN: &[Scn] = &[
    s("ts_maps", "C19 C22 C23 C31", 3, 4, t_maps),
    s("ts_and_then", "C19 C22 C23 C31", 3, 4, t_and_then),
    s("ts_or_else", "C19 C22 C23 C31", 3, 4, t_or_else),
    s("ts_try_filter", "C19 C22 C23 C31", 3, 4, t_try_filter),
    s("ts_try_filter_map", "C19 C22 C23 C31", 3, 4, t_try_filter_map),
    s("ts_try_skip_while", "C19 C22 C23 C31", 3, 4, t_try_skip_while),
    s("ts_try_take_while", "C19 C22 C23 C31", 3, 4, t_try_take_while),
    s("ts_try_unfold", "C19 C22 C31 C23", 3, 4, t_try_unfold),
    s("ts_try_chunks", "C19 C22 C23 C31", 3, 4, t_try_chunks),
    s("ts_try_ready_chunks", "C19 C22 C23 C31", 3, 4, t_try_ready_chunks),
    s("ts_try_flatten", "C19 C22 C31 C23", 3, 4, t_try_flatten),
    s("ts_try_collect", "C19 C31 C22", 3, 4, t_try_collect),
    s("ts_try_all_any", "C19 C22 C31", 3, 4, t_try_all_any),
    s("ts_try_fold", "C19 C22 C31", 3, 4, t_try_fold),
    s("ts_try_next", "C19 C31 C22", 3, 4, t_try_next),
];
