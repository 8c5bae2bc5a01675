//! What harnesses use: threads, choices, parking, observations; and the search loop.
use crate::engine::*;
use crate::sched::*;
use std::time::Instant;

// ---- harness side -----------------------------------------------------------------------

/// Runs `f` with instrumentation suspended.
fn rt<R>(f: impl FnOnce() -> R) -> R {
    unsafe {
        let was = IN_RT;
        IN_RT = true;
        let r = f();
        IN_RT = was;
        r
    }
}

pub fn active() -> bool {
    unsafe { ACTIVE }
}

pub(crate) unsafe fn new_tid() -> usize {
    let me = CUR;
    let e = eng();
    let t = e.nt;
    if t >= MAXT {
        engine_fail("too many threads");
    }
    e.nt += 1;
    e.th[t].status = Status::Runnable;
    e.th[t].c = e.th[me].c;
    e.th[t].c.vc[t] = 1;
    e.th[t].hash = mix(e.th[t].hash, e.th[me].hash);
    e.bump(me);
    t
}

pub fn spawn(f: impl FnOnce() + 'static) -> usize {
    let b: Box<dyn FnOnce()> = Box::new(f);
    rt(|| unsafe {
        assert!(!OS_MODE);
        let t = new_tid();
        eng().th[t].entry = Some(b);
        prepare_fiber(t);
        tr(|| format!("T{} spawns T{}", CUR, t));
        t
    })
}

pub(crate) unsafe fn join_tid(t: usize) {
    let me = CUR;
    if eng().th[t].status != Status::Finished {
        block(Status::Join(t));
    }
    let e = eng();
    let c = e.th[t].end_clk;
    e.th[me].c.join(&c);
    e.th[me].hash = mix(e.th[me].hash, e.th[t].hash);
    stepped(true);
}

pub fn join(t: usize) {
    rt(|| unsafe { join_tid(t) })
}

/// Index of the running logical thread.
pub fn tid() -> usize {
    unsafe { CUR }
}

/// Enumerates `0..n`.
pub fn choose(n: usize) -> usize {
    if n <= 1 {
        return 0;
    }
    rt(|| unsafe {
        let i = decide(Kind::Value, n);
        let e = eng();
        e.th[CUR].hash = mix(e.th[CUR].hash, 0xc0 + i as u64);
        e.transitions += 1;
        tr(|| format!("T{} chooses {} of {}", CUR, i, n));
        i
    })
}

/// Starts a new poll of the running thread's task: wakers of earlier polls no longer count.
pub fn next_gen() -> u64 {
    rt(|| unsafe {
        let th = &mut eng().th[CUR];
        th.wgen += 1;
        th.token = false;
        th.wgen
    })
}

/// Makes thread `t` runnable (or keeps a token for its next `park`).  `gen` != 0 counts only if
/// it is the generation of the latest poll.
pub fn unpark(t: usize, gen: u64) {
    rt(|| unsafe {
        sched_point();
        let me = CUR;
        let e = eng();
        let h = mix(e.th[me].hash, 0x7000 + t as u64);
        e.th[me].hash = h;
        if gen == 0 || gen == e.th[t].wgen {
            let c = e.th[me].c;
            e.th[t].token_clk.join(&c);
            e.th[t].token = true;
            e.th[t].token_by = me;
            if e.th[t].status == Status::Park {
                e.th[t].status = Status::Runnable;
            }
            e.bump(me);
            tr(|| format!("T{} wakes T{}", me, t));
        } else {
            tr(|| format!("T{} wakes T{} through an outdated waker (no effect)", me, t));
        }
        stepped(true);
    })
}

/// Blocks until a token is available and takes it.
pub fn park() {
    rt(|| unsafe {
        let me = CUR;
        if !eng().th[me].token {
            tr(|| format!("T{} parks", me));
            block(Status::Park);
        } else if eng().th[me].token_by == me {
            // woken by itself during the poll: let others run first
            yield_op();
        }
        let e = eng();
        e.th[me].token = false;
        let c = e.th[me].token_clk;
        e.th[me].c.join(&c);
        e.th[me].hash = mix(e.th[me].hash, 0x6000);
        stepped(true);
    })
}

pub fn yield_now() {
    rt(|| unsafe { yield_op() })
}

/// A register whose accesses are totally ordered visible operations but create no
/// happens-before edges (so that oracles do not hide races).
#[derive(Clone, Copy, Debug)]
pub struct Reg(pub u64);
impl Reg {
    pub fn new(id: u64) -> Reg {
        Reg(id)
    }
    pub fn update(&self, f: impl FnOnce(u64) -> u64) -> u64 {
        rt(|| unsafe {
            sched_point();
            let me = CUR;
            let e = eng();
            let ent = e.regs.entry(self.0).or_insert((0, mix(0x4e9, self.0)));
            let old = ent.0;
            ent.0 = f(old);
            let new = ent.0;
            let h = mix(mix(e.th[me].hash, self.0), ent.1);
            ent.1 = h;
            e.th[me].hash = mix(h, 5);
            tr(|| format!("T{} reg{} {} -> {}", me, self.0, old, new));
            stepped(true);
            old
        })
    }
    pub fn add(&self, n: u64) -> u64 {
        self.update(|v| v.wrapping_add(n))
    }
    pub fn sub(&self, n: u64) -> u64 {
        self.update(|v| v.wrapping_sub(n))
    }
    pub fn get(&self) -> u64 {
        self.update(|v| v)
    }
    pub fn set(&self, n: u64) -> u64 {
        self.update(|_| n)
    }
    /// Read without being a visible operation: only for values that are ordered anyway.
    pub fn peek(&self) -> u64 {
        rt(|| eng().regs.get(&self.0).map_or(0, |r| r.0))
    }
    /// Write without being a visible operation: only for order-insensitive accumulations.
    pub fn quiet_add(&self, n: u64) -> u64 {
        rt(|| {
            let e = eng();
            let ent = e.regs.entry(self.0).or_insert((0, mix(0x4e9, self.0)));
            ent.0 = ent.0.wrapping_add(n);
            ent.0
        })
    }
}

/// Adds to this thread's observation log (distinguishes outcomes, for vacuity checks).
pub fn obs(v: u64) {
    rt(|| unsafe {
        let e = eng();
        e.th[CUR].obs = mix(e.th[CUR].obs, v);
        tr(|| format!("T{} observes {}", CUR, v));
    })
}

/// Abandons this execution: it adds nothing to a shorter one that is explored anyway.
pub fn skip() -> ! {
    unsafe {
        IN_RT = true;
        if OS_MODE {
            engine_fail("skip in OS mode");
        }
        eng().pruned = true;
        abandon()
    }
}

static mut AT_END: Option<(fn(u64) -> Option<String>, u64)> = None;
/// A check to be made after all threads of this execution have ended.
pub fn at_end(f: fn(u64) -> Option<String>, a: u64) {
    unsafe { AT_END = Some((f, a)) }
}

static mut THOROUGH: bool = false;
/// Whether this is the deeper tier (set by MCX_TIER=thorough).
pub fn thorough() -> bool {
    unsafe { THOROUGH }
}

pub fn note(f: impl FnOnce() -> String) {
    rt(|| tr(f))
}

pub fn fail(msg: String) -> ! {
    unsafe {
        IN_RT = true;
        let m = msg.clone();
        violate("assertion", m)
    }
}

/// Suspends instrumentation and arena allocation.
pub fn quiet<R>(f: impl FnOnce() -> R) -> R {
    rt(f)
}

/// The scenario leaks memory by design.
pub fn allow_leak() {
    rt(|| eng().leak_ok = true)
}
/// Number of live heap allocations of this execution.
pub fn live_allocs() -> i64 {
    rt(|| eng().live)
}

/// Runs `f`, returning the panic message if it panics.
pub fn catch<R>(f: impl FnOnce() -> R) -> Result<R, ()> {
    std::panic::catch_unwind(std::panic::AssertUnwindSafe(f)).map_err(drop)
}

// ---- driver side --------------------------------------------------------------------------

static mut BOUND: (u32, u32) = (0, 0);
static mut OUT: Option<String> = None;
static mut SHARED0: Vec<usize> = Vec::new();
static mut LAST_PANIC: String = String::new();

fn jstr(s: &str) -> String {
    let mut o = String::from("\"");
    for c in s.chars() {
        match c {
            '"' => o.push_str("\\\""),
            '\\' => o.push_str("\\\\"),
            '\n' => o.push_str("\\n"),
            c if (c as u32) < 32 => o.push(' '),
            c => o.push(c),
        }
    }
    o.push('"');
    o
}

/// Writes the violation report and ends this (child) process with status 1.
pub(crate) fn emit(kind: &str, msg: String) -> ! {
    unsafe {
        ACTIVE = false;
        IN_RT = true;
        let e = eng();
        let ch: Vec<String> = e.choices[..e.pos.min(e.choices.len())].iter().map(|c| c.idx.to_string()).collect();
        let sh: Vec<String> = SHARED0.iter().map(|a| a.to_string()).collect();
        let tr: Vec<String> = e.trace.iter().map(|s| jstr(s)).collect();
        let s = format!(
            "{{\"kind\":{},\"msg\":{},\"bounds\":[{},{}],\"choices\":[{}],\"shared\":[{}],\"trace\":[{}]}}\n",
            jstr(kind),
            jstr(&msg),
            BOUND.0,
            BOUND.1,
            ch.join(","),
            sh.join(","),
            tr.join(",\n")
        );
        if let Some(p) = &OUT {
            let _ = std::fs::write(p, s);
        }
        libc_exit(1)
    }
}

static mut EXECS: u64 = 0;
static mut EXECS_SEEN: u64 = u64::MAX;

/// Every 20 s: an execution that has not ended since the previous tick hangs without performing
/// visible operations.
extern "C" fn on_alarm(_: i32) {
    unsafe {
        if ACTIVE && EXECS_SEEN == EXECS {
            emit("hang", format!("T{} runs without end", CUR))
        }
        EXECS_SEEN = EXECS;
        alarm(20);
    }
}

extern "C" fn on_signal(sig: i32) {
    unsafe {
        if !ACTIVE && sig != 14 {
            let m = b"ENGINE-ERROR: signal outside an execution\n";
            write(2, m.as_ptr(), m.len());
            libc_exit(3);
        }
        let n = match sig {
            11 | 7 => "invalid memory access",
            6 => "abort",
            4 | 5 => "illegal instruction / abort",
            _ => "signal",
        };
        emit("crash", format!("T{}: {} (signal {}); last panic: {}", CUR, n, sig, LAST_PANIC.clone()))
    }
}
extern "C" {
    fn write(fd: i32, p: *const u8, n: usize) -> isize;
    fn sigaction(s: i32, a: *const SigAction, o: *mut SigAction) -> i32;
    fn alarm(s: u32) -> u32;
    fn sigaltstack(a: *const [usize; 3], o: *mut u8) -> i32;
}
#[repr(C)]
struct SigAction {
    h: usize,
    mask: [u64; 16],
    flags: i32,
    rest: usize,
}

pub fn setup(out: Option<String>) {
    unsafe {
        VERBOSE = std::env::var_os("MCX_TRACE").is_some();
        THOROUGH = std::env::var("MCX_TIER").map_or(false, |v| v == "thorough");
        init();
        OUT = out;
        let st = Box::leak(vec![0u8; 128 << 10].into_boxed_slice());
        let ss = [st.as_mut_ptr() as usize, 0, 128 << 10];
        sigaltstack(&ss, std::ptr::null_mut());
        for s in [4, 6, 7, 8, 11] {
            let a = SigAction { h: on_signal as *const () as usize, mask: [0; 16], flags: 0x0800_0000 | 0x4000_0000, rest: 0 };
            sigaction(s, &a, std::ptr::null_mut());
        }
        let a = SigAction { h: on_alarm as *const () as usize, mask: [0; 16], flags: 0x0800_0000 | 0x1000_0000, rest: 0 };
        sigaction(14, &a, std::ptr::null_mut());
        alarm(20);
        std::panic::set_hook(Box::new(|i| {
            let was = IN_RT;
            IN_RT = true;
            let p = i.payload();
            let m = p.downcast_ref::<&str>().map(|s| s.to_string()).or_else(|| p.downcast_ref::<String>().cloned()).unwrap_or_default();
            let m = format!("{} at {}", m, i.location().map(|l| l.to_string()).unwrap_or_default());
            LAST_PANIC = m.clone();
            if !ACTIVE {
                eprintln!("panic outside an execution: {m}");
            } else {
                let e = eng();
                e.th[CUR].maybe_panicking = true;
                tr(|| format!("T{} panics: {}", CUR, m));
                e.user.push(m);
            }
            IN_RT = was;
        }));
        // touch lazily initialised thread-locals outside the arena
        let _ = std::thread::current();
        let _ = catch(|| std::panic::resume_unwind(Box::new(())));
    }
}

unsafe fn run_once(f: fn(), os: bool) {
    EXECS += 1;
    let e = eng();
    e.reset();
    OS_MODE = os;
    e.race_check = !os;
    PLAIN_HASH.clear();
    e.scenario = Some(f);
    e.nt = 1;
    e.th[0].status = Status::Runnable;
    e.th[0].c.vc[0] = 1;
    CUR = 0;
    IN_RT = true;
    ACTIVE = true;
    AT_END = None;
    if os {
        crate::os::run_os();
    } else {
        e.th[0].entry = Some(Box::new(f));
        prepare_fiber(0);
        run_fibers();
    }
    ACTIVE = false;
    IN_RT = false;
    let e = eng();
    if e.done && !e.pruned && !e.shared_grew {
        if let Some((f, a)) = AT_END {
            if let Some(m) = f(a) {
                IN_RT = true;
                emit("assertion", format!("after all threads have ended: {m}"));
            }
        }
    }
    let e = eng();
    if e.done && !e.pruned && e.live != 0 && !e.leak_ok && !e.shared_grew {
        IN_RT = true;
        emit("leak", format!("{} heap allocations are still live after everything was dropped", e.live));
    }
}

/// Explore scenario `f` within `b`; violations end the process.
pub fn explore(f: fn(), os: bool, b: &Bounds) -> Stats {
    let dbg = std::env::var_os("MCX_DEBUG").is_some();
    let t0 = Instant::now();
    let mut st = Stats { completed_preempt: -1, ..Default::default() };
    let mut outcomes = std::collections::HashSet::new();
    unsafe {
        eng().max_steps = b.max_steps;
        eng().shared.clear();
        SHARED0.clear();
        'bound: for p in 0..=b.preempt {
            'restart: loop {
                let e = eng();
                e.cache.clear();
                e.choices.clear();
                loop {
                    let e = eng();
                    e.preempt_left = p;
                    e.stale_left = b.stale;
                    BOUND = (p, b.stale);
                    e.shared_grew = false;
                    run_once(f, os);
                    let e = eng();
                    st.executions += 1;
                    st.max_depth = st.max_depth.max(e.steps as u64);
                    if e.pos < e.choices.len() {
                        engine_fail("execution ended before its recorded prefix");
                    }
                    if e.shared_grew {
                        SHARED0 = e.shared.iter().copied().collect();
                        st.restarts += 1;
                        continue 'restart;
                    }
                    if e.pruned {
                        st.pruned += 1;
                    } else {
                        let mut o = 0;
                        for t in 0..e.nt {
                            o = mix(o, e.th[t].obs);
                        }
                        if outcomes.insert(o) && st.samples.len() < 3 {
                            let ch: Vec<String> = e.choices.iter().map(|c| format!("{:?}:{}/{}", c.kind, c.idx, c.n)).collect();
                            st.samples.push(format!("steps={} choices=[{}]", e.steps, ch.join(" ")));
                        }
                    }
                    if dbg {
                        let ch: String = e.choices.iter().map(|c| format!("{}{}/{} ", match c.kind { Kind::Sched => "s", Kind::Block => "b", Kind::Stale => "w", Kind::Value => "v" }, c.idx, c.n)).collect();
                        eprintln!("p={p} pruned={} steps={} {}", e.pruned, e.steps, ch);
                    }
                    // next
                    while let Some(c) = e.choices.last() {
                        if c.idx + 1 < c.n {
                            break;
                        }
                        e.choices.pop();
                    }
                    match e.choices.last_mut() {
                        None => break,
                        Some(c) => c.idx += 1,
                    }
                    if e.cache.len() > b.max_states || t0.elapsed().as_millis() as u64 > b.wall_ms {
                        st.capped = true;
                        break 'bound;
                    }
                }
                break;
            }
            st.states = eng().cache.len() as u64;
            st.completed_preempt = p as i64;
        }
        let e = eng();
        if st.capped {
            st.states = st.states.max(e.cache.len() as u64);
        }
        st.transitions = e.transitions;
        st.outcomes = outcomes.len() as u64;
        st.shared = e.shared.len() as u64;
    }
    st
}

/// Re-run one recorded execution; returns if it does not violate anything.
pub fn replay(f: fn(), os: bool, choices: &[u8], shared: &[usize], b: &Bounds) {
    unsafe {
        let e = eng();
        e.max_steps = b.max_steps;
        e.shared = shared.iter().copied().collect();
        SHARED0 = shared.to_vec();
        e.choices = choices.iter().map(|&i| Choice { kind: Kind::Value, n: 0, idx: i, key: 0 }).collect();
        e.preempt_left = b.preempt;
        e.stale_left = b.stale;
        BOUND = (b.preempt, b.stale);
        e.replay = true;
        run_once(f, os);
    }
}

pub fn trace() -> Vec<String> {
    eng().trace.clone()
}
