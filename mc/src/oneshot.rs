//! C05: oneshot channel.
use crate::h::*;
use crate::{s, Scn};
use futures::channel::oneshot::{self, Canceled, Receiver, Sender};
use futures::future::FusedFuture;
use futures::FutureExt;
use std::pin::Pin;
use std::task::{Context, Poll};

/// Completion and waking: a receiver task always finishes with what the sender did.
fn send_recv() {
    let (tx, mut rx) = oneshot::channel::<Tok>();
    let sends = flip();
    let a = spawn(move || {
        if sends {
            check!(tx.send(Tok::new(7)).is_ok(), "send to a live receiver failed");
        } else {
            drop(tx);
        }
    });
    if flip() {
        // an earlier poll by another task must not keep the wake-up
        let w = counting_waker(1);
        match Pin::new(&mut rx).poll_unpin(&mut Context::from_waker(&w)) {
            Poll::Ready(r) => {
                check!(r.is_ok() == sends, "receiver got {r:?}");
                obs(1);
                drop(r);
                join(a);
                drop(rx);
                drop(w);
                Tok::check_all();
                return;
            }
            Poll::Pending => {}
        }
    }
    match block_on(&mut rx) {
        Ok(t) => check!(sends && t.0 == 7, "got a value that was never sent"),
        Err(Canceled) => check!(!sends, "sent value lost: receiver was told Canceled"),
    }
    check!(rx.is_terminated(), "completed receiver is not terminated");
    check!(rx.try_recv().is_err(), "second receive succeeded");
    join(a);
    drop(rx);
    Tok::check_all();
}
fn send_recv_stable() {
    let (tx, mut rx) = oneshot::channel::<Tok>();
    let sends = flip();
    let a = spawn(move || {
        if sends {
            check!(tx.send(Tok::new(7)).is_ok(), "send to a live receiver failed");
        }
    });
    match block_on_stable(&mut rx) {
        Ok(t) => check!(sends && t.0 == 7, "got a value that was never sent"),
        Err(Canceled) => check!(!sends, "sent value lost: receiver was told Canceled"),
    }
    join(a);
    drop(rx);
    Tok::check_all();
}

/// Sending against the receiver going away: the value is given back or dropped once; the
/// canceller side learns about it.
fn send_rxdrop() {
    let (tx, rx) = oneshot::channel::<Tok>();
    let polled = flip();
    let a = spawn(move || {
        let mut rx = rx;
        if polled {
            if let Poll::Ready(r) = poll_once(Pin::new(&mut rx)) {
                check!(r.is_ok(), "receiver got {r:?}");
                obs(3);
            }
        }
        drop(rx);
    });
    match tx.send(Tok::new(7)) {
        Ok(()) => obs(1),
        Err(t) => {
            check!(t.0 == 7, "another value came back");
            obs(2)
        }
    }
    join(a);
    Tok::check_all();
}

/// `close` against `send`: the value ends up on exactly one side, and what the receiver reports
/// agrees with what the sender was told.
fn send_close() {
    let (tx, mut rx) = oneshot::channel::<Tok>();
    let sent = Reg::new(1);
    let a = spawn(move || match tx.send(Tok::new(7)) {
        Ok(()) => {
            sent.set(1);
        }
        Err(t) => {
            check!(t.0 == 7, "another value came back");
            sent.set(2);
        }
    });
    rx.close();
    let how = choose(3);
    let got = match how {
        0 => match poll_once(Pin::new(&mut rx)) {
            Poll::Ready(r) => r.ok(),
            Poll::Pending => fail("closed receiver is pending".into()),
        },
        1 => match rx.try_recv() {
            Ok(Some(v)) => Some(v),
            Ok(None) => fail("closed receiver: try_recv returned None".into()),
            Err(Canceled) => None,
        },
        _ => block_on(&mut rx).ok(),
    };
    join(a);
    let s = sent.get();
    obs(s * 2 + got.is_some() as u64);
    if got.is_some() {
        check!(s == 1, "the value was received although the sender got it back");
    }
    check!(s != 0, "sender did not finish");
    // a failed send has given its value back; a successful one is available or was received
    if s == 1 && got.is_none() {
        let again = rx.try_recv();
        check!(matches!(again, Ok(Some(_))), "sender was told Ok but the value is gone: {again:?}");
    }
    drop(got);
    drop(rx);
    Tok::check_all();
}
/// Once `close` has returned, sends fail and hand the value back.
fn send_after_close() {
    let (tx, mut rx) = oneshot::channel::<Tok>();
    let closed = Reg::new(1);
    let a = spawn(move || {
        let before = closed.get();
        let can = tx.is_canceled();
        check!(before == 0 || can, "is_canceled() is false after close");
        match tx.send(Tok::new(7)) {
            Ok(()) => {
                check!(before == 0, "send succeeded after close had returned");
                obs(1);
            }
            Err(t) => {
                obs(2);
                drop(t);
            }
        }
    });
    if flip() {
        rx.close();
        closed.set(1);
        join(a);
        drop(rx);
    } else {
        drop(rx);
        closed.set(1);
        join(a);
    }
    Tok::check_all();
}

/// The sender's cancellation future completes (and is woken) when the receiver drops or closes.
fn cancellation() {
    let (mut tx, rx) = oneshot::channel::<Tok>();
    let close = flip();
    let a = spawn(move || {
        let mut rx = rx;
        if close {
            rx.close();
            check!(matches!(block_on(&mut rx), Err(Canceled)), "value out of nowhere");
        } else {
            drop(rx);
        }
    });
    if flip() {
        let w = counting_waker(1);
        let _ = tx.poll_canceled(&mut Context::from_waker(&w));
        drop(w);
    }
    if flip() {
        block_on(tx.cancellation());
    } else {
        block_on_stable(tx.cancellation());
    }
    check!(tx.is_canceled(), "canceled but is_canceled() is false");
    let r = tx.send(Tok::new(7));
    check!(r.is_err(), "send succeeded after cancellation");
    drop(r);
    join(a);
    Tok::check_all();
}
/// While the receiver is alive and open, the sender is not canceled, and vice versa.
fn no_spurious() {
    let (mut tx, mut rx) = oneshot::channel::<Tok>();
    let w = noop_waker();
    let a = spawn(move || {
        let mut cx = Context::from_waker(&w);
        check!(tx.poll_canceled(&mut cx).is_pending(), "sender canceled although the receiver is alive");
        check!(!tx.is_canceled(), "is_canceled although the receiver is alive");
        check!(tx.poll_canceled(&mut cx).is_pending(), "sender canceled although the receiver is alive");
        check!(tx.send(Tok::new(7)).is_ok(), "send failed");
    });
    let term = rx.is_terminated();
    check!(!term, "receiver terminated before it got its value");
    let mut n = 0;
    let v = loop {
        match rx.try_recv() {
            Ok(Some(v)) => break v,
            Ok(None) => {
                n += 1;
                if n > 1 {
                    match block_on(&mut rx) {
                        Ok(v) => break v,
                        Err(_) => fail("Canceled although the value was sent".into()),
                    }
                }
            }
            Err(_) => fail("Canceled although the value was sent".into()),
        }
    };
    check!(v.0 == 7, "wrong value");
    join(a);
    drop((v, rx));
    Tok::check_all();
}
/// Both sides wait on each other's disappearance at once.
fn both_drop() {
    let (mut tx, mut rx) = oneshot::channel::<Tok>();
    let a = spawn(move || {
        let _ = poll_once(Pin::new(&mut rx)).map(|r| check!(r.is_err(), "value out of nowhere"));
        drop(rx);
    });
    let _ = poll_once(Pin::new(&mut tx.cancellation()));
    drop(tx);
    join(a);
}
/// The receiver future moves to another task between polls; only the last waker counts.
fn migrate() {
    let (tx, mut rx) = oneshot::channel::<Tok>();
    let a = spawn(move || {
        let _ = tx.send(Tok::new(7));
    });
    let first = poll_once(Pin::new(&mut rx));
    match first {
        Poll::Ready(r) => check!(r.is_ok(), "value lost"),
        Poll::Pending => {
            let b = spawn(move || {
                check!(block_on(rx).is_ok(), "value lost");
            });
            join(b);
        }
    }
    join(a);
    Tok::check_all();
}

/// All operation sequences of one thread against a reference model.
fn seq() {
    let depth = if mcrt::thorough() { 6 } else { 5 };
    let (tx, rx) = oneshot::channel::<Tok>();
    let mut tx: Option<Sender<Tok>> = Some(tx);
    let mut rx: Option<Receiver<Tok>> = Some(rx);
    let mut slot = false; // value sent and not taken
    let mut closed = false; // receiver closed or gone
    let mut rx_w: Option<u64> = None; // waker that must be woken when the receiver's answer is known
    let mut tx_w: Option<u64> = None;
    let mut taken = false;
    for _ in 0..depth {
        let done = tx.is_none();
        match choose(9) {
            0 => {
                let Some(t) = tx.take() else { skip() };
                let r = t.send(Tok::new(7));
                check!(r.is_err() == closed, "send returned {r:?}, receiver closed: {closed}");
                slot = r.is_ok();
                if let Some(w) = rx_w.take() {
                    check!(wakes(w) > 0, "receiver task not woken by send");
                }
                tx_w = None;
            }
            1 => {
                let Some(t) = tx.take() else { skip() };
                drop(t);
                if let Some(w) = rx_w.take() {
                    check!(wakes(w) > 0, "receiver task not woken by the sender's drop");
                }
                tx_w = None;
            }
            2 => {
                let Some(t) = tx.as_mut() else { skip() };
                let id = fresh_id();
                let w = counting_waker(id);
                let r = t.poll_canceled(&mut Context::from_waker(&w));
                check!(r.is_ready() == closed, "poll_canceled is {r:?}, receiver closed: {closed}");
                if r.is_pending() {
                    tx_w = Some(id);
                }
            }
            3 => {
                let Some(t) = tx.as_mut() else { skip() };
                check!(t.is_canceled() == closed, "is_canceled differs from {closed}");
            }
            4 => {
                let Some(r) = rx.as_mut() else { skip() };
                let id = fresh_id();
                let w = counting_waker(id);
                let p = Pin::new(r).poll_unpin(&mut Context::from_waker(&w));
                match p {
                    Poll::Ready(Ok(v)) => {
                        check!(slot && v.0 == 7, "value out of nowhere");
                        slot = false;
                        taken = true;
                    }
                    Poll::Ready(Err(_)) => check!((done || closed) && !slot, "Canceled too early"),
                    Poll::Pending => {
                        check!(!done && !closed, "pending although finished");
                        rx_w = Some(id);
                    }
                }
            }
            5 => {
                let Some(r) = rx.as_mut() else { skip() };
                match r.try_recv() {
                    Ok(Some(v)) => {
                        check!(slot && v.0 == 7, "value out of nowhere");
                        slot = false;
                        taken = true;
                    }
                    Ok(None) => check!(!done && !closed, "try_recv is None although finished"),
                    Err(_) => check!((done || closed) && !slot, "Canceled too early"),
                }
            }
            6 => {
                let Some(r) = rx.as_mut() else { skip() };
                r.close();
                closed = true;
                if let Some(w) = tx_w.take() {
                    check!(wakes(w) > 0, "sender task not woken by close");
                }
            }
            7 => {
                let Some(r) = rx.take() else { skip() };
                drop(r);
                closed = true;
                slot = false;
                rx_w = None;
                if let Some(w) = tx_w.take() {
                    check!(wakes(w) > 0, "sender task not woken by the receiver's drop");
                }
            }
            _ => {
                let Some(r) = rx.as_mut() else { skip() };
                let t = r.is_terminated();
                check!(!(slot && t), "is_terminated although a value is waiting");
                check!(!(taken && !t), "not terminated after the value was received");
                check!(!t || done || closed, "is_terminated although the sender is alive");
                if let (Some(t), Some(r)) = (&tx, &rx) {
                    check!(t.is_connected_to(r), "halves do not know each other");
                }
            }
        }
    }
    drop(tx);
    if let Some(w) = rx_w {
        if rx.is_some() {
            check!(wakes(w) > 0, "receiver task not woken by the sender's drop");
        }
    }
    drop(rx);
    Tok::check_all();
}

/// A waker whose wake drops or uses the channel again (re-entrancy).
fn reentrant() {
    use futures::task::{ArcWake};
    use std::sync::{Arc, Mutex};
    struct W(Mutex<Option<Receiver<Tok>>>);
    impl ArcWake for W {
        fn wake_by_ref(a: &Arc<Self>) {
            let r = a.0.lock().unwrap().take();
            if let Some(mut r) = r {
                check!(matches!(r.try_recv(), Ok(Some(_)) | Err(_)), "woken but nothing there");
            }
        }
    }
    let (tx, mut rx) = oneshot::channel::<Tok>();
    let w = Arc::new(W(Mutex::new(None)));
    let wk = futures::task::waker(w.clone());
    let p = Pin::new(&mut rx).poll_unpin(&mut Context::from_waker(&wk));
    check!(p.is_pending(), "ready");
    *w.0.lock().unwrap() = Some(rx);
    if flip() {
        check!(tx.send(Tok::new(7)).is_ok(), "send failed");
    } else {
        drop(tx);
    }
    drop((w, wk));
    Tok::check_all();
}

pub const SCN: &[Scn] = &[
    s("oneshot_send_recv", "C05 C31 C27", (8, 4), (10, 5), send_recv),
    s("oneshot_stable", "C05 C31", (8, 4), (10, 5), send_recv_stable),
    s("oneshot_rxdrop", "C05 C27 C31", (8, 4), (10, 5), send_rxdrop),
    s("oneshot_close", "C05 C31 C27", (8, 4), (10, 5), send_close),
    s("oneshot_after_close", "C05 C31 C27", (8, 4), (10, 5), send_after_close),
    s("oneshot_cancellation", "C05 C31 C27", (8, 4), (10, 5), cancellation),
    s("oneshot_no_spurious", "C05 C31", (8, 4), (10, 5), no_spurious),
    s("oneshot_both_drop", "C05 C27 C31", (8, 4), (10, 5), both_drop),
    s("oneshot_migrate", "C05 C31", (8, 3), (10, 4), migrate),
    s("oneshot_seq", "C05 C27", (0, 0), (0, 0), seq),
    s("oneshot_reentrant", "C05 C31", (0, 0), (0, 0), reentrant),
];
