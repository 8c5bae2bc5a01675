//! Combinators with concurrent state of their own or built on FuturesUnordered: C20, C21, C31.
use crate::h::*;
use crate::{s, Scn};
use futures::stream::{self, FuturesUnordered, SelectAll};
use futures::{FutureExt, Stream, StreamExt, TryStreamExt};
use std::future::Future;
use std::pin::Pin;
use std::task::{Context, Poll};

/// A stream that yields each event's id when it is fired, then ends.
struct Evs(std::collections::VecDeque<Ev>, bool);
impl Stream for Evs {
    type Item = u64;
    fn poll_next(mut self: Pin<&mut Self>, cx: &mut Context<'_>) -> Poll<Option<u64>> {
        check!(!self.1, "an ended stream was polled again");
        let Some(e) = self.0.front_mut() else {
            self.1 = true;
            return Poll::Ready(None);
        };
        match Pin::new(e).poll(cx) {
            Poll::Ready(v) => {
                self.0.pop_front();
                Poll::Ready(Some(v))
            }
            Poll::Pending => Poll::Pending,
        }
    }
}
fn evs(v: Vec<Ev>) -> Evs {
    Evs(v.into(), false)
}
/// A stream of streams: each inner stream becomes available when its gate is fired (or at once).
struct Base(std::collections::VecDeque<(Option<Ev>, Evs)>, bool);
impl Stream for Base {
    type Item = Evs;
    fn poll_next(mut self: Pin<&mut Self>, cx: &mut Context<'_>) -> Poll<Option<Evs>> {
        check!(!self.1, "the ended base stream was polled again");
        let Some((g, _)) = self.0.front_mut() else {
            self.1 = true;
            return Poll::Ready(None);
        };
        if let Some(g) = g {
            if Pin::new(g).poll(cx).is_pending() {
                return Poll::Pending;
            }
        }
        Poll::Ready(Some(self.0.pop_front().unwrap().1))
    }
}
fn base(v: Vec<(Option<Ev>, Evs)>) -> Base {
    Base(v.into(), false)
}
fn expect<S: Stream<Item = u64> + Unpin>(st: &mut S, ids: &[u64], stable: bool) {
    let mut left = quiet(|| ids.to_vec());
    while !left.is_empty() {
        let r = if stable { block_on_stable(st.next()) } else { block_on(st.next()) };
        let Some(v) = r else { fail("ended early".into()) };
        let Some(i) = left.iter().position(|x| *x == v) else { fail(format!("item {v} twice or never sent")) };
        left.remove(i);
        obs(v);
    }
    quiet(|| drop(left));
    check!(block_on(st.next()).is_none(), "does not end");
}
/// Two inner streams that are there, woken by two threads.
fn fl_inner(stable: bool, limit: Option<usize>) {
    let (f1, e1) = event(1);
    let (f2, e2) = event(2);
    let mut st = base(vec![(None, evs(vec![e1])), (None, evs(vec![e2]))]).flatten_unordered(limit);
    let a = spawn(move || f1.fire());
    let b = spawn(move || f2.fire());
    expect(&mut st, &[1, 2], stable);
    join(a);
    join(b);
    drop(st);
    Tok::check_all();
}
fn flat_inner() {
    fl_inner(false, None)
}
fn flat_inner_stable() {
    fl_inner(true, None)
}
fn flat_limit() {
    fl_inner(false, Some(1))
}
/// The base stream and an inner stream are woken by two threads.
fn fl_base(stable: bool) {
    let (f1, e1) = event(1);
    let (f2, e2) = event(2);
    let (g, eg) = event(9);
    let mut st = base(vec![(None, evs(vec![e1])), (Some(eg), evs(vec![e2]))]).flatten_unordered(None);
    f2.fire();
    let a = spawn(move || f1.fire());
    let b = spawn(move || g.fire());
    expect(&mut st, &[1, 2], stable);
    join(a);
    join(b);
    drop(st);
    Tok::check_all();
}
fn flat_base() {
    fl_base(false)
}
fn flat_base_stable() {
    fl_base(true)
}
/// One thread wakes one after the other, with spurious wake-ups.
fn flat_chain() {
    let (f1, e1) = event(1);
    let (f2, e2) = event(2);
    let (g, eg) = event(9);
    let mut st = base(vec![(None, evs(vec![e1])), (Some(eg), evs(vec![e2]))]).flatten_unordered(None);
    let a = spawn(move || {
        g.spurious();
        f1.fire();
        g.fire();
        f2.fire();
    });
    expect(&mut st, &[1, 2], false);
    join(a);
    drop(st);
    Tok::check_all();
}
/// Polled by one task, then handed to another (the old task's waker must not be relied upon).
fn flat_migrate() {
    let (f1, e1) = event(1);
    let (g, eg) = event(9);
    let mut st = base(vec![(None, evs(vec![e1])), (Some(eg), evs(vec![]))]).flatten_unordered(None);
    let a = spawn(move || {
        f1.fire();
        g.fire();
    });
    let mut got = false;
    {
        let w = noop_waker();
        if let Poll::Ready(v) = poll_with(Pin::new(&mut st.next()), &w) {
            check!(v == Some(1), "got {v:?}");
            got = true;
        }
    }
    if got {
        expect(&mut st, &[], false);
    } else {
        expect(&mut st, &[1], false);
    }
    join(a);
    drop(st);
    Tok::check_all();
}
/// Dropped while being woken; wakers outlive the stream.
fn flat_drop() {
    let (f1, e1) = event(1);
    let (g, eg) = event(9);
    let mut st = base(vec![(None, evs(vec![e1])), (Some(eg), evs(vec![]))]).flatten_unordered(None);
    let n = choose(3);
    if n > 0 {
        let _ = poll_once(Pin::new(&mut st.next()));
    }
    let a = spawn(move || f1.fire());
    let b = spawn(move || g.fire());
    if n > 1 {
        let _ = poll_once(Pin::new(&mut st.next()));
    }
    drop(st);
    Tok::check_all();
    join(a);
    join(b);
}
/// A single poll that was pending: whatever is fired afterwards or meanwhile must wake it.
fn flat_try() {
    let (f1, e1) = event(1);
    let (g, eg) = event(9);
    let mut st = base(vec![(None, evs(vec![e1])), (Some(eg), evs(vec![]))])
        .map(|s| Ok::<_, u64>(s.map(Ok::<u64, u64>)))
        .try_flatten_unordered(None);
    let a = spawn(move || f1.fire());
    let b = spawn(move || g.fire());
    check!(block_on(st.next()) == Some(Ok(1)), "item");
    check!(block_on(st.next()).is_none(), "end");
    join(a);
    join(b);
    drop(st);
    Tok::check_all();
}
fn buffer_unordered() {
    let (f1, e1) = event(1);
    let (f2, e2) = event(2);
    let n = 1 + choose(2);
    let mut st = stream::iter(vec![e1, e2]).buffer_unordered(n);
    let a = spawn(move || f1.fire());
    let b = spawn(move || f2.fire());
    expect(&mut st, &[1, 2], false);
    join(a);
    join(b);
    drop(st);
    Tok::check_all();
}
fn buffered() {
    let (f1, e1) = event(1);
    let (f2, e2) = event(2);
    let n = 1 + choose(2);
    let mut st = stream::iter(vec![e1, e2]).buffered(n);
    let a = spawn(move || f2.fire());
    let b = spawn(move || f1.fire());
    check!(block_on(st.next()) == Some(1) && block_on(st.next()) == Some(2) && block_on(st.next()).is_none(), "order");
    join(a);
    join(b);
    drop(st);
    Tok::check_all();
}
fn for_each() {
    let (f1, e1) = event(1);
    let (f2, e2) = event(2);
    let n = 1 + choose(2);
    let a = spawn(move || f2.fire());
    let b = spawn(move || f1.fire());
    block_on(stream::iter(vec![e1, e2]).for_each_concurrent(n, |e| e.map(|_| ())));
    join(a);
    join(b);
    Tok::check_all();
}
fn select_all() {
    let (f1, e1) = event(1);
    let (f2, e2) = event(2);
    let (f3, e3) = event(3);
    let mut st = SelectAll::new();
    st.push(evs(vec![e1, e2]));
    st.push(evs(vec![e3]));
    let a = spawn(move || {
        f1.fire();
        f2.fire();
    });
    let b = spawn(move || f3.fire());
    expect(&mut st, &[1, 2, 3], false);
    join(a);
    join(b);
    drop(st);
    Tok::check_all();
}
/// join_all of more than 30 futures (the FuturesOrdered form), two of them fired by threads.
fn join_all_big() {
    let (f1, e1) = event(1);
    let (f2, e2) = event(2);
    let mut v: Vec<Pin<Box<dyn Future<Output = u64>>>> = vec![Box::pin(e1)];
    for i in 0..30u64 {
        v.push(Box::pin(futures::future::ready(100 + i)));
    }
    v.push(Box::pin(e2));
    let a = spawn(move || f1.fire());
    let b = spawn(move || f2.fire());
    let r = block_on(futures::future::join_all(v));
    check!(r.len() == 32 && r[0] == 1 && r[31] == 2 && r[1] == 100 && r[30] == 129, "outputs {r:?}");
    join(a);
    join(b);
    Tok::check_all();
}
/// Sets in sets: the wake-up has to pass through both.
fn nested() {
    let (f1, e1) = event(1);
    let (f2, e2) = event(2);
    let x = FuturesUnordered::new();
    x.push(e1);
    let y = FuturesUnordered::new();
    y.push(e2);
    let mut st = SelectAll::new();
    st.push(x);
    st.push(y);
    let a = spawn(move || f1.fire());
    let b = spawn(move || f2.fire());
    expect(&mut st, &[1, 2], false);
    join(a);
    join(b);
    drop(st);
    Tok::check_all();
}

pub const SCN: &[Scn] = &[
    s("flat_inner", "C20 C21 C31", (2, 0), (3, 1), flat_inner),
    s("flat_inner_stable", "C20 C21 C31", (2, 0), (3, 1), flat_inner_stable),
    s("flat_limit", "C20 C21 C31", (2, 1), (3, 2), flat_limit),
    s("flat_base", "C20 C21 C31", (2, 1), (3, 2), flat_base),
    s("flat_base_stable", "C20 C21 C31", (2, 1), (4, 2), flat_base_stable),
    s("flat_chain", "C20 C21 C31 C27", (2, 1), (3, 2), flat_chain),
    s("flat_migrate", "C20 C21 C31", (4, 2), (6, 3), flat_migrate),
    s("flat_drop", "C20 C27 C31", (4, 2), (6, 3), flat_drop),
    s("flat_try", "C20 C21 C31", (2, 1), (3, 2), flat_try),
    s("mc_buffer_unordered", "C20 C31", (2, 1), (3, 2), buffer_unordered),
    s("mc_buffered", "C20 C31", (2, 1), (3, 2), buffered),
    s("mc_for_each", "C20 C31", (2, 1), (3, 2), for_each),
    s("mc_select_all", "C21 C31", (1, 0), (2, 1), select_all),
    s("mc_join_all_big", "C16 C31", (2, 0), (3, 0), join_all_big),
    s("mc_nested", "C10 C21 C31", (2, 0), (3, 0), nested),
];
