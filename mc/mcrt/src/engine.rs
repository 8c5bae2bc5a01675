//! State of one execution: threads, clocks, store histories, shadow memory.
use crate::alloc::*;
use std::collections::HashMap;
use std::collections::HashSet;

pub const MAXT: usize = 7;
pub const STACK: usize = 256 << 10;
pub const STACKS: usize = 0x6100_0000_0000;

pub static mut ACTIVE: bool = false;
pub static mut IN_RT: bool = false;
pub static mut OS_MODE: bool = false;
pub static mut CUR: usize = 0;

#[inline(always)]
pub fn recording() -> bool {
    unsafe { ACTIVE && !IN_RT && (!OS_MODE || ME.with(|m| m.get()) == CUR) }
}
thread_local! {
    /// In OS-thread mode, the logical thread this thread is; an OS thread that is starting up or
    /// exiting (in libc's code, concurrently with the thread that has the baton) is none.
    pub static ME: std::cell::Cell<usize> = const { std::cell::Cell::new(usize::MAX) };
}

pub type Vc = [u16; MAXT];

#[derive(Clone, Copy, Default)]
pub struct Clk {
    pub vc: Vc,
    /// Stores that sequentially consistent fences make visible.
    pub sv: Vc,
    /// Execution time of the latest SC fence that happens before.
    pub stamp: u32,
}
impl Clk {
    pub fn join(&mut self, o: &Clk) {
        for i in 0..MAXT {
            self.vc[i] = self.vc[i].max(o.vc[i]);
            self.sv[i] = self.sv[i].max(o.sv[i]);
        }
        self.stamp = self.stamp.max(o.stamp);
    }
}

#[derive(Clone, Copy, PartialEq, Eq, Debug)]
pub enum Status {
    Free,
    Runnable,
    Futex(usize),
    Park,
    Join(usize),
    Finished,
}

pub struct Thread {
    pub status: Status,
    pub c: Clk,
    pub acqf: Clk,
    pub relf: Option<Clk>,
    pub hash: u64,
    pub yielded: bool,
    pub token: bool,
    pub token_by: usize,
    pub wgen: u64,
    pub token_clk: Clk,
    pub rsp: usize,
    pub entry: Option<Box<dyn FnOnce()>>,
    pub alloc_top: usize,
    pub alloc_seq: u32,
    pub obs: u64,
    pub spin: u32,
    pub end_clk: Clk,
    pub maybe_panicking: bool,
    /// OS mode: handoff futex word and TLS destructors.
    pub baton: *mut u32,
    pub dtors: Vec<(unsafe extern "C" fn(*mut u8), *mut u8)>,
    pub start: Option<(extern "C" fn(*mut u8) -> *mut u8, *mut u8)>,
    pub pthread: usize,
}

#[derive(Clone, Copy)]
pub struct Store {
    pub tid: u8,
    pub sc: bool,
    pub clk: u16,
    pub time: u32,
    pub val: u64,
    pub sync: Clk,
    pub hash: u64,
}

pub struct Loc {
    pub addr: usize,
    pub size: u8,
    pub reset: bool,
    pub last_sc: usize,
    pub stores: Vec<Store>,
    pub reads: Vec<(u8, u16, u32)>, // tid, clk of the first read, idx
    pub lr: Vc,                     // clock of each thread's latest read
}

pub const F_ALLOC: u8 = 1;
pub const F_FREED: u8 = 2;
pub const F_LOC: u8 = 4;
pub const F_START: u8 = 8;

#[repr(C)]
pub struct Gran {
    pub gen: u32,
    pub flags: u8,
    pub owner: u8, // 0xff: none, 0xfe: shared
    pub pr: [[u16; 8]; MAXT],
    pub pw: [[u16; 8]; MAXT],
    pub ar: [u16; MAXT],
    pub aw: [u16; MAXT],
}

#[derive(Clone, Copy, PartialEq, Eq, Debug)]
pub enum Kind {
    Sched,
    Block,
    Stale,
    Value,
}

#[derive(Clone, Copy, Debug)]
pub struct Choice {
    pub kind: Kind,
    pub n: u8,
    pub idx: u8,
    pub key: u64,
}

#[derive(Clone, Debug)]
pub struct Bounds {
    /// Maximum number of preemptions per execution.
    pub preempt: u32,
    /// Maximum number of stale (weak-memory) reads per execution.
    pub stale: u32,
    /// Wall-clock cap in milliseconds for the whole scenario.
    pub wall_ms: u64,
    pub max_steps: u32,
    pub max_states: usize,
}

#[derive(Clone, Debug, Default)]
pub struct Stats {
    pub executions: u64,
    pub pruned: u64,
    pub transitions: u64,
    pub states: u64,
    pub outcomes: u64,
    pub restarts: u64,
    pub shared: u64,
    pub max_depth: u64,
    pub completed_preempt: i64,
    pub capped: bool,
    pub samples: Vec<String>,
}

#[derive(Clone, Debug)]
pub struct Report {
    pub kind: String,
    pub msg: String,
    pub choices: Vec<u8>,
    pub shared: Vec<usize>,
    pub trace: Vec<String>,
}

pub struct Engine {
    pub th: Vec<Thread>,
    pub nt: usize,
    pub gen: u32,
    pub grans: *mut Gran,
    pub locs: Vec<Loc>,
    pub nlocs: usize,
    pub locmap: HashMap<usize, usize, std::hash::BuildHasherDefault<AddrHasher>>,
    pub shared: HashSet<usize, std::hash::BuildHasherDefault<AddrHasher>>,
    pub shared_grew: bool,
    pub sc_view: Vc,
    pub fence_hash: u64,
    pub time: u32,
    pub steps: u32,
    pub live: i64,
    pub ctrl_rsp: usize,
    // search
    pub choices: Vec<Choice>,
    pub pos: usize,
    pub nobranch: bool,
    pub preempt_left: u32,
    pub stale_left: u32,
    pub max_steps: u32,
    pub cache: HashMap<u64, [u8; 8], std::hash::BuildHasherDefault<AddrHasher>>,
    pub pruned: bool,
    pub done: bool,
    pub replay: bool,
    pub trace: Vec<String>,
    pub user: Vec<String>,
    pub report: Option<(String, String)>,
    pub idle_yields: u32,
    pub leak_ok: bool,
    pub regs: HashMap<u64, (u64, u64)>,
    pub transitions: u64,
    pub engine_error: Option<String>,
    pub scenario: Option<fn()>,
    pub start_live: i64,
    pub race_check: bool,
}

#[derive(Default)]
pub struct AddrHasher(u64);
impl std::hash::Hasher for AddrHasher {
    fn finish(&self) -> u64 {
        self.0
    }
    fn write(&mut self, b: &[u8]) {
        for x in b {
            self.0 = mix(self.0, *x as u64);
        }
    }
    fn write_usize(&mut self, x: usize) {
        self.0 = mix(0x51, x as u64);
    }
    fn write_u64(&mut self, x: u64) {
        self.0 = mix(0x51, x);
    }
}

#[inline]
pub fn mix(a: u64, b: u64) -> u64 {
    let x = (a ^ 0x9e37_79b9_7f4a_7c15).wrapping_mul(0xbf58_476d_1ce4_e5b9) ^ b.wrapping_mul(0x94d0_49bb_1331_11eb);
    let x = (x ^ (x >> 31)).wrapping_mul(0xd6e8_feb8_6659_fd93);
    x ^ (x >> 29)
}

pub static mut ENG: *mut Engine = std::ptr::null_mut();

#[inline(always)]
pub fn eng() -> &'static mut Engine {
    unsafe { &mut *ENG }
}

fn new_thread() -> Thread {
    Thread {
        status: Status::Free,
        c: Clk::default(),
        acqf: Clk::default(),
        relf: None,
        hash: 0,
        yielded: false,
        token: false,
        token_by: 0,
        wgen: 0,
        token_clk: Clk::default(),
        rsp: 0,
        entry: None,
        alloc_top: 0,
        alloc_seq: 0,
        obs: 0,
        spin: 0,
        end_clk: Clk::default(),
        maybe_panicking: false,
        baton: Box::into_raw(Box::new(0)),
        dtors: vec![],
        start: None,
        pthread: 0,
    }
}

extern "C" {
    fn mmap(a: *mut u8, l: usize, p: i32, f: i32, fd: i32, o: isize) -> *mut u8;
}
unsafe fn map(addr: usize, len: usize) -> usize {
    // PROT_READ|PROT_WRITE, MAP_PRIVATE|MAP_ANONYMOUS|MAP_NORESERVE|MAP_FIXED_NOREPLACE
    let fl = 0x2 | 0x20 | 0x4000 | if addr != 0 { 0x100000 } else { 0 };
    let p = mmap(addr as *mut u8, len, 3, fl, -1, 0) as usize;
    if p == usize::MAX || (addr != 0 && p != addr) {
        eprintln!("mcrt: mmap failed");
        std::process::exit(3);
    }
    p
}

pub fn init() {
    unsafe {
        if !ENG.is_null() {
            return;
        }
        map(ARENA, ARENA_SIZE);
        map(STACKS, STACK * MAXT);
        let grans = map(0, (ARENA_SIZE / 8) * std::mem::size_of::<Gran>()) as *mut Gran;
        let e = Engine {
            th: (0..MAXT).map(|_| new_thread()).collect(),
            nt: 0,
            gen: 0,
            grans,
            locs: vec![],
            nlocs: 0,
            locmap: Default::default(),
            shared: Default::default(),
            shared_grew: false,
            sc_view: [0; MAXT],
            fence_hash: 0,
            time: 0,
            steps: 0,
            live: 0,
            ctrl_rsp: 0,
            choices: vec![],
            pos: 0,
            nobranch: false,
            preempt_left: 0,
            stale_left: 0,
            max_steps: 20000,
            cache: Default::default(),
            pruned: false,
            done: false,
            replay: false,
            trace: vec![],
            user: vec![],
            report: None,
            idle_yields: 0,
            leak_ok: false,
            regs: Default::default(),
            transitions: 0,
            engine_error: None,
            scenario: None,
            start_live: 0,
            race_check: true,
        };
        ENG = Box::into_raw(Box::new(e));
    }
}

impl Engine {
    pub fn reset(&mut self) {
        self.gen += 1;
        for t in 0..MAXT {
            let th = &mut self.th[t];
            th.status = Status::Free;
            th.c = Clk::default();
            th.acqf = Clk::default();
            th.relf = None;
            th.hash = mix(t as u64, 77);
            th.yielded = false;
            th.token = false;
            th.wgen = 0;
            th.token_clk = Clk::default();
            std::mem::forget(th.entry.take()); // may live in the arena
            th.alloc_top = ARENA + t * REGION;
            th.alloc_seq = 0;
            th.obs = 0;
            th.spin = 0;
            th.maybe_panicking = false;
            th.dtors.clear();
            th.start = None;
        }
        self.nt = 0;
        for l in &mut self.locs[..self.nlocs] {
            l.stores.clear();
            l.reads.clear();
        }
        self.nlocs = 0;
        self.locmap.clear();
        self.sc_view = [0; MAXT];
        self.fence_hash = 0;
        self.time = 0;
        self.steps = 0;
        unsafe { crate::sched::BURST = 0 };
        self.live = 0;
        self.pos = 0;
        self.nobranch = false;
        self.pruned = false;
        self.done = false;
        self.trace.clear();
        self.user.clear();
        self.report = None;
        self.idle_yields = 0;
        self.leak_ok = false;
        self.regs.clear();
        unsafe { CUR = 0 };
    }

    #[inline(always)]
    pub fn gran(&mut self, addr: usize) -> &'static mut Gran {
        let g = unsafe { &mut *self.grans.add((addr - ARENA) / 8) };
        if g.gen != self.gen {
            *g = unsafe { std::mem::zeroed() };
            g.gen = self.gen;
            g.owner = 0xff;
        }
        g
    }

    pub fn bump(&mut self, t: usize) {
        let c = &mut self.th[t].c.vc[t];
        *c = c.checked_add(1).expect("clock overflow");
    }

    pub fn where_is(&self, addr: usize) -> String {
        if in_arena(addr) {
            let t = (addr - ARENA) / REGION;
            format!("heap[T{}+{:#x}]", t, (addr - ARENA) % REGION)
        } else if addr.wrapping_sub(STACKS) < STACK * MAXT {
            format!("stack[T{}]", (addr - STACKS) / STACK)
        } else {
            "static".to_string()
        }
    }
}

pub unsafe fn arena_alloc(size: usize, align: usize) -> *mut u8 {
    IN_RT = true;
    let e = eng();
    let th = &mut e.th[CUR];
    let align = align.max(16);
    let p = (th.alloc_top + align - 1) & !(align - 1);
    let sz = (size + 15) & !15;
    // one granule of red zone
    th.alloc_top = p + sz + 16;
    if th.alloc_top > ARENA + (CUR + 1) * REGION {
        crate::sched::engine_fail("arena exhausted");
    }
    th.alloc_seq += 1;
    let clk = th.c.vc[CUR];
    e.live += 1;
    let mut a = p;
    while a < p + sz {
        let g = e.gran(a);
        g.flags = F_ALLOC;
        g.owner = CUR as u8;
        g.pw[CUR] = [clk; 8];
        a += 8;
    }
    e.gran(p).flags |= F_START;
    IN_RT = false;
    p as *mut u8
}

pub unsafe fn arena_free(p: usize, size: usize) {
    IN_RT = true;
    let g = eng().gran(p);
    if g.flags & F_FREED != 0 {
        crate::sched::violate("double-free", format!("memory freed twice at {}", eng().where_is(p)));
    }
    if g.flags & F_START == 0 {
        crate::sched::violate("bad-free", format!("free of a pointer that is no allocation: {}", eng().where_is(p)));
    }
    // freeing conflicts with every unordered access
    access(p, size, true, true);
    let e = eng();
    e.live -= 1;
    let sz = (size + 15) & !15;
    let mut a = p;
    while a < p + sz {
        let g = e.gran(a);
        if g.flags & F_LOC != 0 {
            for o in 0..8 {
                if let Some(&l) = e.locmap.get(&(a + o)) {
                    e.locs[l].reset = true;
                }
            }
        }
        e.gran(a).flags |= F_FREED;
        a += 8;
    }
    std::ptr::write_bytes(p as *mut u8, 0xdd, size);
    IN_RT = false;
}

/// A plain access of `[addr, addr+size)`.  Called with IN_RT set.
#[inline]
/// In OS-thread mode std's own synchronisation is not seen, so an apparent race is no verdict;
/// instead such places become scheduling points (under this key in the shared set).
pub fn plain_key(a: usize) -> usize {
    (a & !7) | 1 << 63
}
/// Per granule: what happened there, for the state hash (cleared for every execution).
pub static mut PLAIN_HASH: Vec<(usize, u64)> = Vec::new();

pub unsafe fn access(addr: usize, size: usize, write: bool, freeing: bool) {
    if size == 0 {
        return;
    }
    let cur = CUR;
    let mut a = addr & !7;
    let end = addr + size;
    while a < end {
        let e = eng();
        let vc: *const Vc = &e.th[cur].c.vc;
        let clk = (*vc)[cur];
        let g = e.gran(a);
        let lo = addr.max(a) - a;
        let hi = end.min(a + 8) - a;
        if g.flags & (F_ALLOC | F_FREED) != F_ALLOC {
            let what = if g.flags & F_FREED != 0 { "use-after-free" } else { "out-of-bounds" };
            let w = e.where_is(addr);
            crate::sched::violate(
                what,
                format!("T{} {} {} bytes of freed or unallocated memory at {}", cur, if write { "writes" } else { "reads" }, size, w),
            );
        }
        if write && g.flags & F_LOC != 0 && !freeing {
            for o in lo..hi {
                if let Some(&l) = e.locmap.get(&(a + o)) {
                    e.locs[l].reset = true;
                }
            }
        }
        let g = e.gran(a);
        if g.owner != cur as u8 {
            g.owner = 0xfe;
            let mut bad = None;
            for t in 0..MAXT {
                if t == cur {
                    continue;
                }
                let k = (*vc)[t];
                for b in lo..hi {
                    if g.pw[t][b] > k || (write && g.pr[t][b] > k) {
                        bad = Some((t, if g.pw[t][b] > k { "write" } else { "read" }));
                    }
                }
                if g.aw[t] > k || (write && g.ar[t] > k) {
                    // granule-wide atomics: only if the atomic location overlaps
                    let mut ov = false;
                    for o in 0..8 {
                        if let Some(&l) = e.locmap.get(&(a + o)) {
                            let s = e.locs[l].size as usize;
                            if o < hi && o + s > lo {
                                let lc = &e.locs[l];
                                // exact per-location check
                                ov |= lc.stores.iter().any(|x| x.tid as usize == t && x.clk > k && x.clk != 0)
                                    || (write && lc.lr[t] > k);
                            }
                        }
                    }
                    if ov {
                        bad = Some((t, "atomic access"));
                    }
                }
            }
            if let Some((t, what)) = bad {
                if e.race_check {
                    let w = e.where_is(addr);
                    crate::sched::violate(
                        if freeing { "race-free" } else { "data-race" },
                        format!(
                            "T{} {} {} bytes at {} unordered with a {} by T{}",
                            cur,
                            if freeing { "frees" } else if write { "writes" } else { "reads" },
                            size,
                            w,
                            what,
                            t
                        ),
                    );
                } else if OS_MODE && !freeing {
                    crate::hooks::share(plain_key(a));
                }
            }
        }
        let g = e.gran(a);
        let arr = if write { &mut g.pw[cur] } else { &mut g.pr[cur] };
        for b in lo..hi {
            arr[b] = clk;
        }
        a += 8;
    }
}
