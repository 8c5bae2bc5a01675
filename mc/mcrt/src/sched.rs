//! The scheduler: context switching, choice points, blocking, violations.
use crate::engine::*;

std::arch::global_asm!(
    ".globl mcrt_switch",
    "mcrt_switch:",
    "push rbp",
    "push rbx",
    "push r12",
    "push r13",
    "push r14",
    "push r15",
    "mov [rdi], rsp",
    "mov rsp, rsi",
    "pop r15",
    "pop r14",
    "pop r13",
    "pop r12",
    "pop rbx",
    "pop rbp",
    "ret",
    ".globl mcrt_fiber_start",
    "mcrt_fiber_start:",
    ".cfi_startproc",
    ".cfi_undefined rip",
    "xor ebp, ebp",
    "and rsp, -16",
    "call {entry}",
    "ud2",
    ".cfi_endproc",
    entry = sym fiber_entry,
);
extern "C" {
    fn mcrt_switch(save: *mut usize, to: usize);
    fn mcrt_fiber_start();
}

extern "C" fn fiber_entry() -> ! {
    unsafe {
        let f = eng().th[CUR].entry.take().unwrap();
        IN_RT = false;
        let r = std::panic::catch_unwind(std::panic::AssertUnwindSafe(f));
        IN_RT = true;
        if r.is_err() {
            let m = eng().user.last().cloned().unwrap_or_default();
            violate("panic", format!("T{} panicked: {}", CUR, m));
        }
        finish_thread();
        unreachable!()
    }
}

pub unsafe fn prepare_fiber(t: usize) {
    let top = STACKS + (t + 1) * STACK;
    let sp = (top - 64) & !15;
    let p = sp as *mut usize;
    // layout popped by mcrt_switch: r15 r14 r13 r12 rbx rbp ret; entry must see rsp % 16 == 0 at the call
    let base = p.sub(8);
    for i in 0..6 {
        *base.add(i) = 0;
    }
    *base.add(6) = mcrt_fiber_start as *const () as usize;
    *base.add(7) = 0;
    eng().th[t].rsp = base as usize;
}

/// Visible operations since the running thread got the processor.
pub static mut BURST: u32 = 0;
/// No scheduler starves a runnable thread for ever: after this many operations in a row the
/// running thread lets the others go first (without counting as a preemption).
pub const FAIR: u32 = 200;

/// Hand the processor to logical thread `t` and return when `me` is scheduled again.
pub unsafe fn transfer(me: usize, t: usize) {
    CUR = t;
    BURST = 0;
    if OS_MODE {
        crate::os::handoff(me, t);
    } else {
        let to = eng().th[t].rsp;
        mcrt_switch(&mut eng().th[me].rsp, to);
    }
}

/// Leave the execution for good (fiber mode): back to the controller.
pub unsafe fn abandon() -> ! {
    let mut dummy = 0usize;
    ACTIVE = false;
    mcrt_switch(&mut dummy, eng().ctrl_rsp);
    unreachable!()
}

pub unsafe fn run_fibers() {
    let to = eng().th[0].rsp;
    mcrt_switch(&mut eng().ctrl_rsp, to);
}

pub fn engine_fail(m: &str) -> ! {
    unsafe { ACTIVE = false };
    eprintln!("ENGINE-ERROR: {m}");
    unsafe { libc_exit(3) }
}
extern "C" {
    #[link_name = "_exit"]
    pub fn libc_exit(c: i32) -> !;
}

pub unsafe fn violate(kind: &str, msg: String) -> ! {
    ACTIVE = false;
    crate::api::emit(kind, msg)
}

fn state_key(kind: Kind, n: usize) -> u64 {
    let e = eng();
    let mut k = mix(unsafe { CUR } as u64, kind as u64 * 16 + n as u64);
    for t in 0..e.nt {
        let th = &e.th[t];
        let st = match th.status {
            Status::Runnable => 1,
            Status::Finished => 2,
            _ => 3,
        };
        k = mix(k, th.hash ^ ((th.yielded as u64) << 1) ^ (st << 8) ^ ((th.token as u64) << 12));
    }
    k
}

fn visited(key: u64) -> bool {
    let e = eng();
    let (p, s) = (e.preempt_left as u8 + 1, e.stale_left as u8);
    let ent = e.cache.entry(key).or_insert([0; 8]);
    for i in 0..4 {
        if ent[2 * i] >= p && ent[2 * i + 1] >= s {
            return true;
        }
    }
    for i in 0..4 {
        let (ep, es) = (ent[2 * i], ent[2 * i + 1]);
        if ep == 0 || (ep <= p && es <= s) {
            ent[2 * i] = p;
            ent[2 * i + 1] = s;
            return false;
        }
    }
    false
}

pub fn decide(kind: Kind, n: usize) -> usize {
    if n <= 1 {
        return 0;
    }
    let e = eng();
    if e.pos < e.choices.len() {
        let c = e.choices[e.pos];
        if c.n as usize != n && c.n != 0 || (c.n != 0 && c.kind != kind) {
            engine_fail(&format!("replay divergence at choice {}: recorded {:?}, now {:?}/{}", e.pos, c, kind, n));
        }
        if c.key != 0 && c.key != state_key(kind, n) {
            engine_fail(&format!("replay divergence (state) at choice {}", e.pos));
        }
        e.pos += 1;
        return c.idx as usize;
    }
    if e.nobranch || e.replay {
        return 0;
    }
    let key = state_key(kind, n);
    if e.choices.last().map_or(false, |c| c.key == key) {
        engine_fail("state key did not change between two choice points");
    }
    if visited(key) {
        e.pruned = true;
        if unsafe { OS_MODE } {
            e.nobranch = true;
            return 0;
        }
        unsafe { abandon() }
    }
    e.choices.push(Choice { kind, n: n as u8, idx: 0, key });
    e.pos += 1;
    0
}

/// Is switching possible at all right now?
unsafe fn locked_in() -> bool {
    let e = eng();
    if !OS_MODE && e.th[CUR].maybe_panicking {
        if std::thread::panicking() {
            return true;
        }
        e.th[CUR].maybe_panicking = false;
    }
    false
}

/// A scheduling point before a visible operation of the running thread.
pub unsafe fn sched_point() {
    let me = CUR;
    let e = eng();
    if e.preempt_left == 0 || locked_in() {
        return;
    }
    let mut opts = [0usize; MAXT];
    let mut n = 1;
    opts[0] = me;
    for t in 0..e.nt {
        if t != me && e.th[t].status == Status::Runnable && !e.th[t].yielded {
            opts[n] = t;
            n += 1;
        }
    }
    let i = decide(Kind::Sched, n);
    if i != 0 {
        let e = eng();
        e.preempt_left -= 1;
        tr(|| format!("-- preempt T{} -> T{}", me, opts[i]));
        transfer(me, opts[i]);
    }
}

/// The running thread cannot or need not continue: pick another one.
/// Returns when `me` runs again (never, if `me` has finished).
pub unsafe fn pick_next(me: usize) {
    let e = eng();
    let mut opts = [0usize; MAXT];
    let mut n = 0;
    for t in 0..e.nt {
        if e.th[t].status == Status::Runnable && !e.th[t].yielded {
            opts[n] = t;
            n += 1;
        }
    }
    if n == 0 {
        for t in 0..e.nt {
            if e.th[t].status == Status::Runnable {
                e.th[t].yielded = false;
                opts[n] = t;
                n += 1;
            }
        }
        if n > 0 {
            e.idle_yields += 1;
            if e.idle_yields > 400 {
                violate("livelock", format!("only spinning threads are left: {}", statuses()));
            }
        }
    }
    if n == 0 {
        if e.th[..e.nt].iter().all(|t| t.status == Status::Finished) {
            e.done = true;
            if OS_MODE {
                crate::os::to_controller();
                return;
            }
            abandon();
        }
        violate("deadlock", format!("no thread can run (lost wakeup or deadlock): {}", statuses()));
    }
    let i = decide(Kind::Block, n);
    let t = opts[i];
    if t != me {
        tr(|| format!("-- T{} stops, T{} runs", me, t));
        transfer(me, t);
    }
}

pub fn statuses() -> String {
    let e = eng();
    (0..e.nt).map(|t| format!("T{}={:?}{}", t, e.th[t].status, if e.th[t].yielded { "(yielded)" } else { "" })).collect::<Vec<_>>().join(" ")
}

pub static mut PANIC_PRUNED: u64 = 0;
pub unsafe fn block(st: Status) {
    let me = CUR;
    if locked_in() {
        // fibers share std's panic count: another fiber must not run now.  Give up this branch
        // (counted, and reported as not exhaustive); scenarios that matter use OS threads.
        PANIC_PRUNED += 1;
        eng().pruned = true;
        abandon();
    }
    eng().th[me].status = st;
    pick_next(me);
}

pub unsafe fn yield_op() {
    let me = CUR;
    if locked_in() {
        return;
    }
    let e = eng();
    if e.th.iter().take(e.nt).enumerate().all(|(i, t)| i == me || t.status != Status::Runnable) {
        e.idle_yields += 1;
        if e.idle_yields > 400 {
            violate("livelock", format!("T{} spins forever: {}", me, statuses()));
        }
        return;
    }
    e.th[me].yielded = true;
    pick_next(me);
    eng().th[me].yielded = false;
}

pub unsafe fn finish_thread() {
    let me = CUR;
    let e = eng();
    e.th[me].status = Status::Finished;
    e.th[me].end_clk = e.th[me].c;
    e.th[me].hash = mix(e.th[me].hash, 0xf1);
    for t in 0..e.nt {
        e.th[t].yielded = false;
        if e.th[t].status == Status::Join(me) {
            e.th[t].status = Status::Runnable;
        }
    }
    tr(|| format!("T{} finished", me));
    pick_next(me);
}

/// Bookkeeping after a visible operation.
pub unsafe fn stepped(write: bool) {
    let me = CUR;
    let e = eng();
    e.steps += 1;
    BURST += 1;
    e.time += 1;
    e.transitions += 1;
    if e.steps > e.max_steps {
        violate("horizon", format!("execution exceeds {} visible operations", e.max_steps));
    }
    if write {
        // whoever spins may see something new
        for t in 0..e.nt {
            if t != me {
                e.th[t].yielded = false;
            }
        }
        e.idle_yields = 0;
        e.th[me].spin = 0;
    }
}

pub static mut VERBOSE: bool = false;
#[inline]
pub fn tr(f: impl FnOnce() -> String) {
    let e = eng();
    if e.replay {
        let s = f();
        e.trace.push(s);
    } else if unsafe { VERBOSE } {
        eprintln!("  [{:x}] {}", (0..e.nt).fold(0, |a, t| mix(a, e.th[t].hash)), f());
    }
}
