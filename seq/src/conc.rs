//! C20 concurrency-limited combinators, C21 merging of streams.
use crate::ch::*;
use crate::futs::facade;
use crate::leaf::*;
use crate::{s, Scn};
use futures::stream::{self, FusedStream, PollNext, Stream, StreamExt, TryStreamExt};
use std::cell::{Cell, RefCell};
use std::pin::Pin;
use std::rc::Rc;
use std::task::Poll;

fn start(b: u32) -> Driver {
    budget(b, 1);
    Driver::new(1)
}
fn m<T>(out: Vec<T>, fin: bool) -> Model<T> {
    Model { out, fin }
}
/// None, 0 (no limit) or a real limit
fn limit(max: usize) -> (Option<usize>, usize) {
    limits(max, 3)
}
fn limits(max: usize, ext: usize) -> (Option<usize>, usize) {
    match choose(if long() { max + if huge() { 6 + ext } else { 4 } } else { max + 2 }) {
        k if k >= max + 6 => {
            let n = [65_537, (1 << 32) + 1, usize::MAX][k - max - 6];
            (Some(n), n)
        }
        k if k == max + 4 => (Some(256), 256),
        k if k == max + 5 => (Some(260), 260),
        k if k == max + 2 => (Some(33), 33),
        k if k == max + 3 => (Some(64), 64),
        0 => (None, usize::MAX),
        1 => (Some(0), usize::MAX),
        k => (Some(k - 1), k - 1),
    }
}
const L: SOpts = SOpts { lazy: false, ..SO };

/// The futures that a source of futures hands out: ids[i] is the i-th.
struct FSrc<T> {
    src: Src<Fut<T>>,
    ids: Vec<usize>,
}
fn fsrc<T>(max: usize, mk: impl Fn(u32) -> T) -> FSrc<T> {
    let n = count(max);
    let f: Vec<Fut<T>> = (0..n as u32).map(|i| fut(mk(i))).collect();
    let ids = f.iter().map(|x| x.id).collect();
    FSrc { src: src_of(f, (0..n as u32).collect()), ids }
}
/// Concurrency rules at every pending point: as many futures as the limit allows are in flight,
/// all of them have been started, and each of them wakes the task.
fn rules(sid: usize, ids: &[usize], lim: usize, held: impl Fn() -> usize + 'static) {
    strict();
    let ids = ids.to_vec();
    let held = Rc::new(held);
    let h2 = held.clone();
    exempt(move |i| i == sid && h2() >= lim);
    on_pending(move || {
        let h = held();
        check!(h <= lim, "{h} futures are held with a limit of {lim}");
        if h < lim && !ended(0) {
            check!(asked(sid), "only {h} futures are in flight (limit {lim}), but the source was not asked for more");
        }
        for t in items(0) {
            if let Some(id) = ids.get(t as usize) {
                check!(polls(*id) > 0, "future {t} has not been started");
            }
        }
    });
}
/// Checked whenever the source is polled: there is room.
fn room(lim: usize, held: impl Fn() -> usize + 'static) {
    w(|w| w.lazy = Some(Rc::new(move || { let h = held(); check!(h < lim, "source polled with {h} futures in flight and a limit of {lim}"); (0, false) })));
}
fn taken() -> usize {
    items(0).len()
}
fn t_buffered(b: u32) {
    let mut d = start(b);
    let (l, lim) = limit(2);
    let f = fsrc((b as usize).min(3), tok);
    let ids = f.ids.clone();
    rules(f.src.id, &f.ids, lim, || taken() - emitted());
    room(lim, || taken() - emitted());
    let (src, o) = (f.src.any_hint(), L);
    run_stream(&mut d, src.buffered(l), |t| t.0, fused, move || { let out: Vec<u32> = items(0).into_iter().take_while(|t| isfin(ids[*t as usize])).collect(); let fin = ended(0) && out.len() == taken(); m(out, fin) }, SOpts { again: 2, ..o });
}
fn t_buffer_unordered(b: u32) {
    let mut d = start(b);
    let (l, lim) = limit(2);
    let f = fsrc((b as usize).min(3), tok);
    let ids = f.ids.clone();
    rules(f.src.id, &f.ids, lim, || taken() - emitted());
    room(lim, || taken() - emitted());
    run_stream(
        &mut d,
        f.src.any_hint().buffer_unordered(l),
        |t| t.0,
        fused,
        move || { let out: Vec<u32> = fins().iter().filter_map(|f| ids.iter().position(|i| i == f)).map(|p| p as u32).collect(); let fin = ended(0) && out.len() == taken(); m(out, fin) },
        SOpts { again: 2, ..L },
    );
}
type R = Result<Tok, Tok>;
/// source of futures of results, some items being errors of the source itself
fn trysrc(max: usize) -> (Src<Result<Fut<R>, Tok>>, Vec<Option<usize>>, Vec<Result<u32, u32>>) {
    let n = count(max);
    let mut v = vec![];
    let mut ids = vec![];
    let mut outs = vec![];
    for i in 0..n as u32 {
        match dchoose(3) {
            0 => { let f = fut(Ok(tok(i))); ids.push(Some(f.id)); outs.push(Ok(i)); v.push(Ok(f)); }
            1 => { let f = fut(Err(tok(i))); ids.push(Some(f.id)); outs.push(Err(i)); v.push(Ok(f)); }
            _ => { ids.push(None); outs.push(Err(i)); v.push(Err(tok(i))); }
        }
    }
    (src_of(v, (0..n as u32).collect()), ids, outs)
}
fn rk(r: R) -> Result<u32, u32> {
    r.map(|t| t.0).map_err(|t| t.0)
}
/// try_buffered / try_buffer_unordered: nothing lost or duplicated, source errors at once, order.
fn t_try_buffered(b: u32) {
    let mut d = start(b);
    let ordered = flip();
    let (l, lim) = limit(2);
    let (src, ids, outs) = trysrc((b as usize).min(3));
    let sid = src.id;
    let src = src.tolerant();
    let ids2 = ids.clone();
    // futures taken and not yet given out
    let given: Rc<RefCell<Vec<u32>>> = Rc::default();
    let g2 = given.clone();
    let held = Rc::new(move || items(0).iter().filter(|t| ids2[**t as usize].is_some()).count() - g2.borrow().iter().filter(|t| ids2[**t as usize].is_some()).count());
    let fids: Vec<usize> = ids.iter().map(|x| x.unwrap_or(sid)).collect();
    let h1 = held.clone();
    rules(sid, &fids, lim, move || h1());
    let h2 = held.clone();
    room(lim, move || h2());
    let mut st: Pin<Box<dyn Stream<Item = R>>> = if ordered { Box::pin(src.try_buffered(l)) } else { Box::pin(src.try_buffer_unordered(l)) };
    let mut finished = vec![];
    loop {
        let r = d.poll(|cx| st.as_mut().poll_next(cx));
        finished.clear();
        for f in fins() {
            if let Some(p) = ids.iter().position(|i| *i == Some(f)) {
                finished.push(p as u32);
            }
        }
        match r {
            Poll::Ready(Some(x)) => {
                let x = rk(x);
                let k = match x { Ok(k) | Err(k) => k };
                note(|| format!("yields {:?}", x));
                check!(outs[k as usize] == x, "yields {:?}", x);
                check!(!given.borrow().contains(&k) && items(0).contains(&k), "{k} yielded twice or made up");
                if let Some(id) = ids[k as usize] {
                    check!(isfin(id), "result of an unfinished future");
                    if ordered {
                        // every earlier future has been given out
                        for t in items(0).iter().filter(|t| **t < k && ids[**t as usize].is_some()) {
                            check!(given.borrow().contains(t), "{k} before {t}");
                        }
                    }
                } else {
                    // an error of the source comes out in the poll in which the source gave it
                    check!(items(0).last() == Some(&k), "a source error was delayed");
                }
                given.borrow_mut().push(k);
                w(|w| w.emitted = given.borrow().len());
                for t in items(0) {
                    check!(ids[t as usize].is_some() || given.borrow().contains(&t), "source error {t} is being withheld");
                }
            }
            Poll::Ready(None) => {
                check!(ended(0) && given.borrow().len() == taken(), "ended although {:?} of {:?} are given", given.borrow(), items(0));
                break;
            }
            Poll::Pending => {
                check!(!(ended(0) && given.borrow().len() == taken()), "pending at the end");
                // anything deliverable?
                if ordered {
                    let head = items(0).into_iter().find(|t| !given.borrow().contains(t));
                    check!(head.map_or(true, |h| !finished.contains(&h)), "result withheld");
                } else {
                    check!(finished.iter().all(|f| given.borrow().contains(f)), "result withheld");
                }
                d.wait();
            }
        }
    }
    check!(matches!(d.poll(|cx| st.as_mut().poll_next(cx)), Poll::Ready(None)), "not fused");
    let want = if ordered { given.borrow().iter().copied().filter(|t| ids[*t as usize].is_some()).is_sorted() } else { given.borrow().iter().copied().filter(|t| ids[*t as usize].is_some()).collect::<Vec<_>>() == finished };
    check!(want, "order {:?}, completions {:?}", given.borrow(), finished);
}
fn t_for_each_concurrent(b: u32) {
    let mut d = start(b);
    let (l, lim) = limit(2);
    let nn = (b as usize).min(3);
    let s = src(0, nn).any_hint();
    let sid = s.id;
    let ids: Rc<RefCell<Vec<usize>>> = Rc::default();
    let (i2, i3, i4, i5, i6) = (ids.clone(), ids.clone(), ids.clone(), ids.clone(), ids.clone());
    let held = move || i3.borrow().iter().filter(|i| !isfin(**i)).count();
    let held = Rc::new(held);
    let (h1, h2) = (held.clone(), held.clone());
    strict();
    exempt(move |i| i == sid && h1() >= lim);
    on_pending(move || {
        let h = h2();
        check!(h <= lim, "{h} futures in flight with a limit of {lim}");
        if h < lim && !ended(0) {
            check!(asked(sid), "only {h} futures in flight (limit {lim}), but the source was not asked for more");
        }
        for i in i4.borrow().iter() {
            check!(polls(*i) > 0, "a future has not been started");
        }
    });
    room(lim, move || held());
    let tried = flip();
    if !tried {
        run_fut(
            &mut d,
            s.for_each_concurrent(l, move |x| { check!(x as usize == i2.borrow().len(), "item {x} out of turn"); let f = fut(()); i2.borrow_mut().push(f.id); f }),
            |_| (),
            ffused,
            move || (ended(0) && i5.borrow().len() == taken() && i5.borrow().iter().all(|i| isfin(*i))).then(|| ()),
        );
        check!(i6.borrow().len() == taken(), "closure ran {} times for {} items", i6.borrow().len(), taken());
    } else {
        let bad: Vec<bool> = (0..if long() { 300 } else { nn }).map(|_| dchoose(2) == 1).collect();
        let b2 = bad.clone();
        run_fut(
            &mut d,
            s.try_for_each_concurrent(l, move |x| { check!(x as usize == i2.borrow().len(), "item {x} out of turn"); let f = fut(if bad[x as usize] { Err(x) } else { Ok(()) }); i2.borrow_mut().push(f.id); f }),
            |r| { if r.is_err() { let open = i6.borrow().iter().filter(|i| !isdropped(**i)).count(); check!(open == 0, "{open} futures go on living after the error") } r },
            ffused,
            move || {
                for f in fins() {
                    if let Some(p) = i5.borrow().iter().position(|i| *i == f) {
                        if b2[p] { return Some(Err(p as u32)); }
                    }
                }
                (ended(0) && i5.borrow().len() == taken() && i5.borrow().iter().all(|i| isfin(*i))).then(|| Ok(()))
            },
        );
    }
}
/// flatten_unordered and flat_map_unordered: every item of every inner stream, in that stream's
/// order, with at most `limit` inner streams open.
fn t_flatten_unordered(b: u32) {
    budget(b, 1);
    let mut d = Driver::new(0);
    let (l, lim) = limits(2, 0);
    let kind = choose(3);
    let nn = (b as usize).min(2) + (b > 2) as usize;
    let cnt = count(nn);
    let inner: Vec<Src<u32>> = (0..cnt).map(|i| inner_src(10 * (i as u32 + 1), (b as usize).min(2))).collect();
    let iids: Vec<usize> = inner.iter().map(|s| s.id).collect();
    // with kind 2, the outer stream may also fail
    let errs: Vec<bool> = (0..cnt).map(|_| kind == 2 && dchoose(2) == 1).collect();
    let outer_n = cnt;
    let sid;
    let mut st: Pin<Box<dyn futures::stream::FusedStream<Item = Result<u32, u32>>>> = match kind {
        0 => { let o = src_of(inner, (0..cnt as u32).collect()); sid = o.id; Box::pin(o.flatten_unordered(l).map(Ok)) }
        1 => {
            let o = src_of((0..cnt).collect::<Vec<_>>(), (0..cnt as u32).collect());
            sid = o.id;
            let mut v: Vec<Option<Src<u32>>> = inner.into_iter().map(Some).collect();
            Box::pin(o.flat_map_unordered(l, move |i| v[i].take().unwrap()).map(Ok))
        }
        _ => {
            let v: Vec<_> = inner.into_iter().enumerate().map(|(i, s)| if errs[i] { drop(s); Err(900 + i as u32) } else { Ok(s.map(Ok::<u32, u32>)) }).collect();
            let o = src_of(v, (0..cnt as u32).collect());
            sid = o.id;
            Box::pin(o.try_flatten_unordered(l))
        }
    };
    let e2 = errs.clone();
    let open = move || items(outer_n).iter().filter(|t| !e2[**t as usize] && !ended(**t as usize)).count();
    let open = Rc::new(open);
    let (o1, o2) = (open.clone(), open.clone());
    strict();
    exempt(move |i| i == sid && o1() >= lim);
    w(|w| w.lazy = Some(Rc::new(|| (0, false))));
    let mut got: Vec<Vec<u32>> = vec![vec![]; cnt];
    let mut goterr = vec![];
    loop {
        let term = st.is_terminated();
        let r = d.poll(|cx| st.as_mut().poll_next(cx));
        check!(!term || matches!(r, Poll::Ready(None)), "is_terminated before the end");
        check!(!matches!(r, Poll::Ready(None)) || st.is_terminated(), "not is_terminated after the end");
        check!(open() <= lim, "{} inner streams open with a limit of {lim}", open());
        match r {
            Poll::Ready(Some(Ok(x))) => {
                note(|| format!("yields {x}"));
                got[sno(x)].push(x);
                w(|w| w.emitted += 1);
            }
            Poll::Ready(Some(Err(x))) => {
                note(|| format!("yields error {x}"));
                goterr.push(x - 900);
                check!(items(outer_n).last() == Some(&(x - 900)), "an error of the outer stream is delayed");
            }
            Poll::Ready(None) => break,
            Poll::Pending => {
                for i in 0..cnt {
                    check!(got[i] == items(i), "items of inner stream {i} held back: {:?} of {:?}", got[i], items(i));
                }
                let fin = ended(outer_n) && open() == 0;
                check!(!fin, "pending at the end");
                if !d.woken() {
                    if open() < lim && !ended(outer_n) {
                        check!(w(|w| w.leaves[sid].gs == Gs::Waiting), "there is room for another inner stream, but the outer stream was not polled");
                    }
                    for t in items(outer_n) {
                        check!(errs[t as usize] || isfin(iids[t as usize]) || polls(iids[t as usize]) > 0, "inner stream {t} was not started");
                    }
                }
                d.wait();
            }
        }
        for i in 0..cnt {
            let it = items(i);
            check!(got[i].len() <= it.len() && got[i][..] == it[..got[i].len()], "inner stream {i} gave {:?}, got {:?}", it, got[i]);
        }
    }
    let _ = o2;
    check!(ended(outer_n), "ended before the outer stream did");
    for i in 0..cnt {
        if errs[i] {
            check!(goterr.contains(&(i as u32)), "error {i} lost");
        } else {
            check!(ended(i) && got[i] == items(i), "inner stream {i} gave {:?}, got {:?}", items(i), got[i]);
        }
    }
    check!(goterr.len() == errs.iter().filter(|e| **e).count(), "errors duplicated");
}

// ---- merging --------------------------------------------------------------------------------

/// What merged streams give, in the order the sources gave it, ending when all have ended.
fn merged(k: usize) -> Model<(usize, u32)> {
    m(log(), (0..k).all(ended))
}
fn t_select(b: u32) {
    let mut d = start(b);
    let nn = (b as usize).min(3);
    let (a, c) = (src(10, nn).any_hint(), src(20, nn));
    let (ia, ic) = (a.id, c.id);
    strict();
    on_pending(move || {
        for (i, id) in [ia, ic].into_iter().enumerate() {
            check!(ended(i) || asked(id), "stream {i} is still running, but was not asked");
        }
    });
    run_stream(&mut d, stream::select(a, c), |x| (sno(x), x), fused, || merged(2), SOpts { again: 2, lazy: false, ..SO });
    // round robin: while both are running, they are asked first in turn
    let f: Vec<usize> = w(|w| w.firsts.iter().filter(|f| !f.2).map(|f| f.1).collect());
    for p in f.windows(2) {
        check!(p[0] != p[1], "the same stream goes first twice in a row");
    }
}
/// The strategy decides which side goes first, every time.
fn t_select_with_strategy(b: u32) {
    let mut d = start(b);
    let nn = (b as usize).min(2);
    let (a, c) = (src(10, nn), src(20, nn));
    let (ia, ic) = (a.id, c.id);
    strict();
    let pick: Rc<Cell<Option<(PollNext, u64)>>> = Rc::default();
    let p2 = pick.clone();
    let st = stream::select_with_strategy(a, c, move |n: &mut u32| {
        *n += 1;
        let p = if flip() { PollNext::Left } else { PollNext::Right };
        check!(p2.get().map_or(true, |x| x.1 != w(|w| w.poll_no)), "the strategy was asked twice for one item");
        p2.set(Some((p, w(|w| w.poll_no))));
        p
    });
    run_stream(
        &mut d,
        st,
        move |x| {
            let side = sno(x);
            let now = w(|w| w.poll_no);
            match pick.get() {
                Some((p, at)) if at == now => {
                    let pref = if matches!(p, PollNext::Left) { 0 } else { 1 };
                    if pref != side {
                        check!(polled_now([ia, ic][pref]), "the strategy preferred stream {pref}, which was not asked");
                    }
                }
                _ => check!(ended(1 - side), "the strategy was not asked"),
            }
            (side, x)
        },
        fused,
        || merged(2),
        SOpts { again: 2, lazy: false, ..SO },
    );
}
fn t_poll_next(_: u32) {
    let mut p = PollNext::default();
    check!(matches!(p, PollNext::Left), "default side");
    for i in 0..4 {
        let q = p.toggle();
        check!(matches!((q, i % 2), (PollNext::Left, 0) | (PollNext::Right, 1)), "toggle returns the previous side");
    }
}
fn t_select_all(b: u32) {
    let mut d = start(b);
    let nn = (b as usize).min(2);
    let k = count(3);
    let v: Vec<_> = (0..k).map(|i| inner_src(10 * (i as u32 + 1), nn)).collect();
    let ids: Vec<usize> = v.iter().map(|s| s.id).collect();
    strict();
    on_pending(move || {
        for (i, id) in ids.iter().enumerate() {
            check!(ended(i) || w(|w| w.leaves[*id].gs == Gs::Waiting || w.leaves[*id].gs == Gs::Fired), "stream {i} was not asked");
        }
    });
    let sa = stream::select_all(v);
    check!(sa.len() == k && sa.is_empty() == (k == 0), "len");
    run_stream(&mut d, sa, |x| (sno(x), x), fused, move || merged(k), SOpts { again: 2, lazy: false, ..SO });
}
/// SelectAll as a set: push during the run, iter, into_iter, clear.
fn t_select_all_set(b: u32) {
    let mut d = start(b);
    let mut sa = stream::SelectAll::new();
    let mut pushed = 0usize;
    let mut got = vec![];
    let mut ops = 0;
    strict();
    loop {
        let live = (0..pushed).filter(|i| !ended(*i)).count();
        check!(sa.len() == live && sa.is_empty() == (live == 0), "len is {} with {live} streams running", sa.len());
        if ops < 3 {
            ops += 1;
            match choose(5) {
                0 if pushed < 3 => {
                    let s = src(10 * (pushed as u32 + 1), 1 + (b > 2) as usize);
                    if flip() { sa.push(s) } else { sa.extend([s]) }
                    pushed += 1;
                    continue;
                }
                1 => {
                    let mut a: Vec<usize> = sa.iter().map(|s| s.n).collect();
                    let mut bb: Vec<usize> = sa.iter_mut().map(|s| s.n).collect();
                    a.sort();
                    bb.sort();
                    let want: Vec<usize> = (0..pushed).filter(|i| !ended(*i)).collect();
                    check!(a == want && bb == want && sa.iter().len() == want.len(), "iter gives {:?}, running are {:?}", a, want);
                    continue;
                }
                2 if pushed > 0 => {
                    if flip() {
                        let mut a: Vec<usize> = sa.into_iter().map(|s| s.n).collect();
                        a.sort();
                        let want: Vec<usize> = (0..pushed).filter(|i| !ended(*i)).collect();
                        check!(a == want, "into_iter gives {:?}, running are {:?}", a, want);
                        return;
                    }
                    sa.clear();
                    check!(sa.is_empty() && sa.len() == 0, "clear");
                    let all = w(|w| w.leaves.iter().all(|l| l.gs == Gs::Dropped));
                    check!(all, "clear leaves a stream alive");
                    check!(matches!(d.poll(|cx| sa.poll_next_unpin(cx)), Poll::Ready(None)), "an empty SelectAll is not at its end");
                    return;
                }
                _ => {}
            }
        }
        match d.poll(|cx| sa.poll_next_unpin(cx)) {
            Poll::Ready(Some(x)) => {
                got.push((sno(x), x));
                check!(got == log(), "gave {:?}, the streams gave {:?}", got, log());
            }
            Poll::Ready(None) => {
                check!((0..pushed).all(ended) && got == log(), "ended early");
                if pushed > 0 { check!(sa.is_terminated(), "not terminated after its end"); }
                if ops >= 3 { break; }
            }
            Poll::Pending => {
                check!(got == log(), "an item is withheld");
                d.wait();
            }
        }
    }
}
macro_rules! ssx {
    ($($t:tt)*) => {{
        use facade as __futures_crate;
        futures_macro::stream_select_internal! { $($t)* }
    }};
}
/// stream_select! with every order of asking.
fn t_stream_select(b: u32) {
    budget(b, 1);
    let mut d = Driver::fixed(0);
    let nn = (b as usize).min(2);
    strict();
    if flip() {
        let (a, c) = (src(10, nn).any_hint(), src(20, nn).any_hint());
        run_stream(&mut d, ssx!(a, c), |x| (sno(x), x), noterm, || merged(2), SOpts { again: 2, lazy: false, ..SO });
    } else {
        let (a, c, e) = (src(10, 1), src(20, 1), src(30, 1));
        run_stream(&mut d, ssx!(a, c, e), |x| (sno(x), x), noterm, || merged(3), SOpts { again: 1, lazy: false, ..SO });
    }
}
/// The exported macro: every stream gets its turn.
fn t_stream_select_real(_: u32) {
    let mut d = Driver::fixed(0);
    let mut st = futures::stream_select!(stream::repeat(0), stream::repeat(1), stream::repeat(2));
    let mut n = [0; 3];
    for _ in 0..300 {
        match d.poll(|cx| st.poll_next_unpin(cx)) {
            Poll::Ready(Some(i)) => n[i as usize] += 1,
            _ => fail("no item although all streams are ready".into()),
        }
    }
    check!(n.iter().all(|x| *x > 30), "turns {:?} of 300", n);
}

pub const SCN: &[Scn] = &[
    s("co_buffered", "C20 C22 C23 C31", 3, 3, t_buffered),
    s("co_buffer_unordered", "C20 C22 C23 C31", 3, 3, t_buffer_unordered),
    s("co_try_buffered", "C20 C19 C22 C31 C23", 2, 3, t_try_buffered),
    s("co_for_each_concurrent", "C20 C22 C31", 3, 3, t_for_each_concurrent),
    s("co_flatten_unordered", "C20 C21 C31 C23 C22", 2, 3, t_flatten_unordered),
    s("me_select", "C21 C22 C23 C31", 3, 4, t_select),
    s("me_select_with_strategy", "C21 C22 C31 C23", 2, 3, t_select_with_strategy),
    s("me_poll_next", "C21 C31 !", 1, 1, t_poll_next),
    s("me_select_all", "C21 C22 C31 C23", 2, 3, t_select_all),
    s("me_select_all_set", "C21 C22 C27 C23 C31 C34", 2, 3, t_select_all_set),
    s("me_stream_select", "C21 C17 C23 C31 C22", 1, 2, t_stream_select),
    s("me_stream_select_real", "C21 C23 C31 !", 1, 1, t_stream_select_real),
];
/// Which source an item comes from.
fn sno(x: u32) -> usize {
    (x / if long() { 1000 } else { 10 } - 1) as usize
}
