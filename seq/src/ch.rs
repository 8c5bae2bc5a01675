//! Exhaustive enumeration of choice sequences (depth-first), with replay.
use std::cell::RefCell;
use std::collections::HashSet;
use std::sync::atomic::{AtomicBool, AtomicU32, AtomicU64, Ordering::Relaxed};
use std::time::Instant;

#[derive(Default)]
pub struct St {
    path: Vec<(u16, u16)>,
    pos: usize,
    replay: bool,
    pub notes: Vec<String>,
    pub failure: Option<(String, String)>,
    pub skipped: bool,
    pub nodes: u64,
    pub transitions: u64,
    pub obs: u64,
    pub steps: u64,
    /// non-default choices taken so far (where they are counted)
    devs: u32,
    counting: bool,
}
thread_local! { static S: RefCell<St> = RefCell::new(St::default()); }
pub static TICK: AtomicU64 = AtomicU64::new(0);
/// the running execution's choices, for the watchdog
pub static mut CUR: Vec<(u16, u16)> = vec![];
static mut VERBOSE: bool = false;

pub struct Abort;

/// Long mode: large sizes, and all executions with at most this many non-default choices.
pub static LONG: AtomicBool = AtomicBool::new(false);
pub static DEV: AtomicU32 = AtomicU32::new(u32::MAX);
pub fn long() -> bool {
    LONG.load(Relaxed)
}
/// Huge mode: long mode with sizes beyond 256.
pub static HUGE: AtomicBool = AtomicBool::new(false);
pub fn huge() -> bool {
    HUGE.load(Relaxed)
}
/// From here on choices count as deviations (parameters of a scenario chosen before do not).
pub fn counting() {
    S.with(|s| s.borrow_mut().counting = true)
}
/// A choice that counts as a deviation even among the parameters.
pub fn dchoose(n: usize) -> usize {
    let c = S.with(|s| std::mem::replace(&mut s.borrow_mut().counting, true));
    let r = choose(n);
    S.with(|s| s.borrow_mut().counting = c);
    r
}
/// A choice that never counts as a deviation.
pub fn fchoose(n: usize) -> usize {
    let c = S.with(|s| std::mem::replace(&mut s.borrow_mut().counting, false));
    let r = choose(n);
    S.with(|s| s.borrow_mut().counting = c);
    r
}
/// A number of things: 0..=max, or something much larger in long mode.
pub fn count(max: usize) -> usize {
    if huge() {
        300
    } else if long() {
        [37, 70, 5][dchoose(3)]
    } else {
        choose(max + 1)
    }
}
/// A parameter of an adapter: 0..=max, and something much larger in long mode.
pub fn param(max: usize) -> usize {
    if long() {
        let k = choose(max + if huge() { 5 } else { 3 });
        if k > max { [33, 64, 256, 300][k - max - 1] } else { k }
    } else {
        choose(max + 1)
    }
}

/// Like param, with numbers beyond 16 and 32 bits too.
pub fn eparam(max: usize) -> usize {
    if huge() {
        let k = choose(max + 11);
        if k > max { [33, 64, 256, 300, 65_536, 65_537, 1 << 32, (1 << 32) + 1, usize::MAX - 1, usize::MAX][k - max - 1] } else { k }
    } else {
        param(max)
    }
}

/// Pick one of `n` alternatives; all of them get explored.
pub fn choose(n: usize) -> usize {
    if n <= 1 {
        return 0;
    }
    S.with(|s| {
        let s = &mut *s.borrow_mut();
        let counted = s.counting && long();
        if counted && s.devs >= DEV.load(Relaxed) {
            return 0;
        }
        s.transitions += 1;
        let r = if s.pos < s.path.len() {
            let (i, m) = s.path[s.pos];
            if m as usize != n && !s.replay {
                eprintln!("ENGINE-ERROR: nondeterminism: {} alternatives recorded, {} now", m, n);
                std::process::exit(3);
            }
            i as usize
        } else if s.replay {
            0
        } else {
            s.path.push((0, n as u16));
            unsafe { (*(&raw mut CUR)).push((0, n as u16)) };
            s.nodes += 1;
            0
        };
        s.pos += 1;
        if counted && r > 0 {
            s.devs += 1;
        }
        if unsafe { VERBOSE } {
            s.notes.push(format!("choice {} of {}", r, n));
        }
        r.min(n - 1)
    })
}
pub fn flip() -> bool {
    choose(2) == 1
}
pub fn note(f: impl FnOnce() -> String) {
    S.with(|s| {
        if s.borrow().replay {
            let m = f();
            s.borrow_mut().notes.push(m);
        }
    })
}
/// Every step of an execution goes through here: bounds runaway executions.
pub fn step() {
    let n = S.with(|s| {
        let mut s = s.borrow_mut();
        s.steps += 1;
        s.steps
    });
    if n > 100_000 {
        fail_kind("livelock", "execution exceeds 100000 polls of leaves".into());
    }
}
pub fn steps() -> u64 {
    S.with(|s| s.borrow().steps)
}
pub fn obs(v: u64) {
    S.with(|s| {
        let mut s = s.borrow_mut();
        s.obs = (s.obs ^ v).wrapping_mul(0x9E37_79B9_7F4A_7C15).rotate_left(29);
    })
}
pub fn fail_kind(kind: &str, m: String) -> ! {
    S.with(|s| {
        let mut s = s.borrow_mut();
        if s.failure.is_none() {
            s.failure = Some((kind.into(), m));
        }
    });
    std::panic::resume_unwind(Box::new(Abort))
}
pub fn fail(m: String) -> ! {
    fail_kind("assertion", m)
}
/// Record a failure from a place that must not unwind (destructors).
pub fn fail_soft(m: String) {
    S.with(|s| {
        if let Ok(mut s) = s.try_borrow_mut() {
            if s.failure.is_none() {
                s.failure = Some(("assertion".into(), m));
            }
        }
    });
}
pub fn failed() -> bool {
    S.with(|s| s.borrow().failure.is_some())
}
pub fn skip() -> ! {
    S.with(|s| s.borrow_mut().skipped = true);
    std::panic::resume_unwind(Box::new(Abort))
}
#[macro_export]
macro_rules! check {
    ($c:expr, $($a:tt)*) => { if !$c { $crate::ch::fail(format!($($a)*)) } };
}

pub struct Stats {
    pub executions: u64,
    pub skipped: u64,
    pub nodes: u64,
    pub transitions: u64,
    pub outcomes: HashSet<u64>,
    pub max_depth: usize,
    pub capped: bool,
    pub bound: u32,
    pub samples: Vec<String>,
}
pub struct Violation {
    pub kind: String,
    pub msg: String,
    pub choices: Vec<u16>,
    pub notes: Vec<String>,
    pub bound: u32,
}

thread_local! { pub static LAST_PANIC: RefCell<String> = RefCell::new(String::new()); }

fn one(f: fn(u32), b: u32) -> Option<(String, String)> {
    TICK.fetch_add(1, Relaxed);
    crate::leaf::reset();
    let mut r = std::panic::catch_unwind(|| f(b));
    if let Err(e) = &r {
        if crate::leaf::w(|w| w.chaos) && (e.is::<crate::leaf::LeafPanic>() || e.is::<crate::leaf::Cancelled>()) {
            r = Ok(());
        }
    }
    crate::leaf::finish(r.is_ok());
    S.with(|s| {
        let s = s.borrow_mut();
        if let Some(x) = &s.failure {
            return Some(x.clone());
        }
        match r {
            Ok(()) => None,
            Err(e) if e.is::<Abort>() => {
                if s.skipped {
                    None
                } else {
                    Some(("engine".into(), "abort without failure".into()))
                }
            }
            Err(_) => Some(("panic".into(), LAST_PANIC.with(|p| p.borrow().clone()))),
        }
    })
}

fn begin() {
    S.with(|s| {
        let s = &mut *s.borrow_mut();
        s.pos = 0;
        s.notes.clear();
        s.failure = None;
        s.skipped = false;
        s.obs = 0;
        s.steps = 0;
        s.devs = 0;
        s.counting = false;
        unsafe {
            let c = &mut *(&raw mut CUR);
            c.clear();
            c.extend_from_slice(&s.path);
        }
    })
}

/// In long mode the bound is that on deviations, and the scenario's own is fixed.
pub static LONG_ARG: AtomicU32 = AtomicU32::new(3);
fn arg(d: u32) -> u32 {
    if long() {
        DEV.store(if huge() { d - 1 } else { d }, Relaxed);
        LONG_ARG.load(Relaxed)
    } else {
        d
    }
}
/// Explore everything for bounds 1..=b.
pub fn explore(f: fn(u32), b: u32, wall_ms: u64, st: &mut Stats) -> Option<Violation> {
    let t0 = Instant::now();
    for d in 1..=b {
        S.with(|s| *s.borrow_mut() = St::default());
        let (mut ex, mut sk) = (0u64, 0u64);
        let mut outcomes = HashSet::new();
        let mut depth = 0;
        loop {
            begin();
            let v = one(f, arg(d));
            ex += 1;
            let done = S.with(|s| {
                let s = &mut *s.borrow_mut();
                if s.skipped {
                    sk += 1;
                } else {
                    outcomes.insert(s.obs);
                }
                depth = depth.max(s.path.len());
                if let Some((kind, msg)) = &v {
                    return Some(Some(Violation {
                        kind: kind.clone(),
                        msg: msg.clone(),
                        choices: s.path[..s.pos.min(s.path.len())].iter().map(|c| c.0).collect(),
                        notes: vec![],
                        bound: d,
                    }));
                }
                // the execution may have ended before using up its prefix only on nondeterminism
                if s.pos < s.path.len() {
                    eprintln!("ENGINE-ERROR: nondeterminism: execution used {} of {} choices", s.pos, s.path.len());
                    std::process::exit(3);
                }
                while let Some(l) = s.path.last_mut() {
                    if l.0 + 1 < l.1 {
                        l.0 += 1;
                        return None;
                    }
                    s.path.pop();
                }
                Some(None)
            });
            match done {
                Some(Some(v)) => {
                    S.with(|s| st.nodes += s.borrow().nodes);
                    st.executions += ex;
                    return Some(v);
                }
                Some(None) => break,
                None => {}
            }
            if ex % 256 == 0 && t0.elapsed().as_millis() as u64 > wall_ms {
                st.capped = true;
                break;
            }
        }
        if st.samples.len() < 3 {
            S.with(|s| st.samples.push(format!("bound {}: {} histories, last one with {} polls", d, ex, s.borrow().steps)));
        }
        S.with(|s| {
            let s = s.borrow();
            // the spaces of growing bounds contain each other: report the last complete one
            if !st.capped || st.bound == 0 {
                st.executions = ex;
                st.skipped = sk;
                st.nodes = s.nodes;
                st.transitions = s.transitions;
                st.outcomes = outcomes;
                st.max_depth = depth;
            }
        });
        if st.capped {
            break;
        }
        st.bound = d;
    }
    None
}

pub fn replay(f: fn(u32), b: u32, choices: &[u16]) -> (Option<(String, String)>, Vec<String>) {
    S.with(|s| *s.borrow_mut() = St { path: choices.iter().map(|c| (*c, 0)).collect(), replay: true, ..St::default() });
    unsafe { VERBOSE = std::env::var_os("SEQX_VERBOSE").is_some() };
    begin();
    let v = one(f, arg(b));
    let n = S.with(|s| s.borrow().notes.clone());
    (v, n)
}
