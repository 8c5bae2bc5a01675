//! The `__tsan_*` entry points the instrumented code calls, and libc interposition.
use crate::alloc::in_arena;
use crate::engine::*;
use crate::sched::*;
use std::sync::atomic::{self, AtomicU16, AtomicU32, AtomicU64, AtomicU8, Ordering::SeqCst};

#[derive(Clone, Copy, Debug)]
pub enum Op {
    Load,
    Store(u64),
    Xchg(u64),
    Add(u64),
    Sub(u64),
    And(u64),
    Or(u64),
    Xor(u64),
    Nand(u64),
    Cas(u64, u64),
}

unsafe fn rd(a: usize, sz: u8) -> u64 {
    match sz {
        1 => (*(a as *const AtomicU8)).load(SeqCst) as u64,
        2 => (*(a as *const AtomicU16)).load(SeqCst) as u64,
        4 => (*(a as *const AtomicU32)).load(SeqCst) as u64,
        _ => (*(a as *const AtomicU64)).load(SeqCst),
    }
}
unsafe fn wr(a: usize, sz: u8, v: u64) {
    match sz {
        1 => (*(a as *const AtomicU8)).store(v as u8, SeqCst),
        2 => (*(a as *const AtomicU16)).store(v as u16, SeqCst),
        4 => (*(a as *const AtomicU32)).store(v as u32, SeqCst),
        _ => (*(a as *const AtomicU64)).store(v, SeqCst),
    }
}
fn trunc(sz: u8, v: u64) -> u64 {
    if sz == 8 {
        v
    } else {
        v & ((1u64 << (sz * 8)) - 1)
    }
}
fn apply(op: Op, old: u64) -> u64 {
    match op {
        Op::Load => old,
        Op::Store(v) | Op::Xchg(v) => v,
        Op::Add(v) => old.wrapping_add(v),
        Op::Sub(v) => old.wrapping_sub(v),
        Op::And(v) => old & v,
        Op::Or(v) => old | v,
        Op::Xor(v) => old ^ v,
        Op::Nand(v) => !(old & v),
        Op::Cas(e, n) => {
            if old == e {
                n
            } else {
                old
            }
        }
    }
}

/// Real atomics, for code running outside an execution.
unsafe fn passthrough(a: usize, sz: u8, op: Op) -> u64 {
    macro_rules! go {
        ($t:ty, $at:ty) => {{
            let p = &*(a as *const $at);
            match op {
                Op::Load => p.load(SeqCst) as u64,
                Op::Store(v) => {
                    p.store(v as $t, SeqCst);
                    0
                }
                Op::Xchg(v) => p.swap(v as $t, SeqCst) as u64,
                Op::Add(v) => p.fetch_add(v as $t, SeqCst) as u64,
                Op::Sub(v) => p.fetch_sub(v as $t, SeqCst) as u64,
                Op::And(v) => p.fetch_and(v as $t, SeqCst) as u64,
                Op::Or(v) => p.fetch_or(v as $t, SeqCst) as u64,
                Op::Xor(v) => p.fetch_xor(v as $t, SeqCst) as u64,
                Op::Nand(v) => p.fetch_nand(v as $t, SeqCst) as u64,
                Op::Cas(e, n) => match p.compare_exchange(e as $t, n as $t, SeqCst, SeqCst) {
                    Ok(v) | Err(v) => v as u64,
                },
            }
        }};
    }
    match sz {
        1 => go!(u8, AtomicU8),
        2 => go!(u16, AtomicU16),
        4 => go!(u32, AtomicU32),
        _ => go!(u64, AtomicU64),
    }
}

pub unsafe fn get_loc(addr: usize, sz: u8) -> usize {
    let e = eng();
    let i = match e.locmap.get(&addr) {
        Some(&i) => i,
        None => {
            let i = e.nlocs;
            if i == e.locs.len() {
                e.locs.push(Loc { addr: 0, size: 0, reset: false, last_sc: 0, stores: vec![], reads: vec![], lr: [0; MAXT] });
            }
            e.nlocs += 1;
            let l = &mut e.locs[i];
            l.addr = addr;
            l.size = sz;
            l.reset = true;
            e.locmap.insert(addr, i);
            if in_arena(addr) {
                e.gran(addr).flags |= F_LOC;
            }
            i
        }
    };
    let l = &mut e.locs[i];
    l.size = sz;
    let mem = rd(addr, sz);
    if l.reset {
        l.stores.clear();
        l.reads.clear();
        l.lr = [0; MAXT];
        l.reset = false;
        l.stores.push(Store { tid: 0, sc: false, clk: 0, time: 0, val: mem, sync: Clk::default(), hash: mix(addr as u64, mem) });
    } else {
        let last = *l.stores.last().unwrap();
        if last.val != mem {
            // written by uninstrumented code (std's futex mutex slow path): keep its release clock
            l.stores.push(Store { tid: 0, sc: false, clk: 0, time: e.time, val: mem, sync: last.sync, hash: mix(last.hash, mem) });
        }
    }
    i
}

/// Order-sensitive pairs of accesses put their location into the shared set, which makes
/// accesses to it scheduling points; growing it restarts the search.
pub unsafe fn share(addr: usize) {
    let e = eng();
    if e.shared.insert(addr) {
        e.shared_grew = true;
        e.nobranch = true;
    }
}

pub unsafe fn atomic(a: usize, sz: u8, op: Op, mo: i32, fmo: i32) -> u64 {
    if !recording() {
        return passthrough(a, sz, op);
    }
    let me = CUR;
    let lo = STACKS + me * STACK;
    if a.wrapping_sub(lo) < STACK {
        let old = rd(a, sz);
        if !matches!(op, Op::Load) {
            wr(a, sz, trunc(sz, apply(op, old)));
        }
        return old;
    }
    IN_RT = true;
    let r = atomic_slow(a, sz, op, mo, fmo);
    IN_RT = false;
    r
}

unsafe fn atomic_slow(a: usize, sz: u8, op: Op, mo: i32, fmo: i32) -> u64 {
    let in_s = eng().shared.contains(&a);
    if in_s {
        if eng().th[CUR].spin > 16 {
            eng().th[CUR].spin = 0;
            yield_op();
        } else if BURST > FAIR {
            BURST = 0;
            yield_op();
        } else {
            sched_point();
        }
    }
    let me = CUR;
    let mut is_write = !matches!(op, Op::Load);
    if in_arena(a) {
        let e = eng();
        let vc = e.th[me].c.vc;
        let g = e.gran(a);
        if g.flags & (F_ALLOC | F_FREED) != F_ALLOC {
            let w = e.where_is(a);
            violate("use-after-free", format!("T{} atomic access ({:?}) to freed or unallocated memory at {}", me, op, w));
        }
        if g.owner != me as u8 {
            g.owner = 0xfe;
            let (lo, hi) = (a & 7, (a & 7) + sz as usize);
            for t in 0..MAXT {
                if t == me {
                    continue;
                }
                for b in lo..hi.min(8) {
                    if e.race_check && (e.gran(a).pw[t][b] > vc[t] || (is_write && e.gran(a).pr[t][b] > vc[t])) {
                        let w = e.where_is(a);
                        violate("data-race", format!("T{} atomic access ({:?}) at {} unordered with a plain access by T{}", me, op, w, t));
                    }
                }
            }
        }
        let clk = vc[me];
        let g = e.gran(a);
        if is_write {
            g.aw[me] = clk;
        } else {
            g.ar[me] = clk;
        }
    }
    let li = get_loc(a, sz);
    let e = eng();
    let old = e.locs[li].stores.last().unwrap().val;
    let mut mo = mo;
    if let Op::Cas(exp, _) = op {
        if old != exp {
            is_write = false;
            mo = fmo;
        }
    }
    // Does this access race with an earlier one of another thread?
    if !in_s {
        let vc = e.th[me].c.vc;
        let l = &e.locs[li];
        let mut race = l.stores.iter().any(|s| s.tid as usize != me && s.clk > vc[s.tid as usize]);
        if !matches!(op, Op::Load) {
            race |= (0..MAXT).any(|t| t != me && l.lr[t] > vc[t]);
        }
        if race {
            share(a);
        }
    }
    let acq = matches!(mo, 1 | 2 | 4 | 5);
    let rel = matches!(mo, 3 | 4 | 5);
    let sc = mo == 5;
    let ret;
    if !is_write {
        // which store to read from
        let n = e.locs[li].stores.len();
        let mut idx = n - 1;
        if in_s && matches!(op, Op::Load) && n > 1 && !OS_MODE && e.stale_left > 0 {
            let th = &e.th[me];
            let l = &e.locs[li];
            let mut lb = 0;
            for j in (0..n).rev() {
                let s = &l.stores[j];
                let k = s.tid as usize;
                if s.clk <= th.c.vc[k]
                    || s.clk <= th.c.sv[k]
                    || (s.sc && (sc || s.time < th.c.stamp))
                    || (sc && s.clk <= e.sc_view[k])
                {
                    lb = j;
                    break;
                }
            }
            for r in &l.reads {
                if r.1 <= th.c.vc[r.0 as usize] {
                    lb = lb.max(r.2 as usize);
                }
            }
            let k = decide(Kind::Stale, n - lb);
            if k > 0 {
                eng().stale_left -= 1;
                tr(|| format!("-- T{} reads a stale value", me));
            }
            idx = n - 1 - k;
        }
        let e = eng();
        let s = e.locs[li].stores[idx];
        ret = s.val;
        let th = &mut e.th[me];
        if acq {
            th.c.join(&s.sync);
        } else {
            th.acqf.join(&s.sync);
        }
        let clk = th.c.vc[me];
        let l = &mut e.locs[li];
        if !l.reads.iter().any(|r| r.0 as usize == me && r.2 == idx as u32) {
            l.reads.push((me as u8, clk, idx as u32));
        }
        l.lr[me] = clk;
        if in_s {
            let th = &mut e.th[me];
            th.hash = mix(th.hash, s.hash);
            th.spin += 1;
            tr(|| format!("T{} load {} -> {:#x} mo={}{}", me, eng().where_is(a), ret, mo, if matches!(op, Op::Cas(..)) { " (cas failed)" } else { "" }));
            stepped(false);
        }
    } else {
        ret = old;
        let rmw = !matches!(op, Op::Store(_));
        let nv = trunc(sz, apply(op, old));
        let prev = *e.locs[li].stores.last().unwrap();
        let time = e.time;
        let th = &mut e.th[me];
        if rmw {
            if acq {
                th.c.join(&prev.sync);
            } else {
                th.acqf.join(&prev.sync);
            }
        }
        let mut sync = if rel {
            th.c
        } else {
            th.relf.unwrap_or_default()
        };
        if rmw {
            sync.join(&prev.sync);
        }
        let clk = th.c.vc[me];
        let mut hash = 0;
        if in_s {
            hash = mix(mix(th.hash, a as u64), prev.hash);
            th.hash = mix(hash, 3);
        }
        let bump = rel || th.relf.is_some();
        e.locs[li].stores.push(Store { tid: me as u8, sc, clk, time, val: nv, sync, hash });
        wr(a, sz, nv);
        if bump {
            e.bump(me);
        }
        if in_s {
            tr(|| format!("T{} {:?} {} : {:#x} -> {:#x} mo={}", me, op, eng().where_is(a), old, nv, mo));
            stepped(true);
        }
    }
    ret
}

unsafe fn fence(mo: i32) {
    if !recording() {
        atomic::fence(SeqCst);
        return;
    }
    IN_RT = true;
    let sc = mo == 5;
    if sc {
        sched_point();
    }
    let me = CUR;
    let e = eng();
    let time = e.time;
    let th = &mut e.th[me];
    if matches!(mo, 1 | 2 | 4 | 5) {
        let a = th.acqf;
        th.c.join(&a);
    }
    if sc {
        for i in 0..MAXT {
            th.c.sv[i] = th.c.sv[i].max(e.sc_view[i]);
            e.sc_view[i] = e.sc_view[i].max(th.c.vc[i]);
        }
        th.c.stamp = time + 1;
        e.fence_hash = mix(mix(th.hash, 0xfe), e.fence_hash);
        th.hash = e.fence_hash;
    }
    if matches!(mo, 3 | 4 | 5) {
        th.relf = Some(th.c);
        e.bump(me);
    }
    if sc {
        tr(|| format!("T{} SC fence", me));
        stepped(true);
    }
    IN_RT = false;
}

macro_rules! atomics {
    ($sz:expr, $t:ty, $load:ident, $store:ident, $x:ident, $add:ident, $sub:ident, $and:ident, $or:ident, $xor:ident, $nand:ident, $cv:ident, $cs:ident, $cw:ident) => {
        #[no_mangle]
        pub unsafe extern "C-unwind" fn $load(a: *mut $t, mo: i32) -> $t {
            atomic(a as usize, $sz, Op::Load, mo, mo) as $t
        }
        #[no_mangle]
        pub unsafe extern "C-unwind" fn $store(a: *mut $t, v: $t, mo: i32) {
            atomic(a as usize, $sz, Op::Store(v as u64), mo, mo);
        }
        #[no_mangle]
        pub unsafe extern "C-unwind" fn $x(a: *mut $t, v: $t, mo: i32) -> $t {
            atomic(a as usize, $sz, Op::Xchg(v as u64), mo, mo) as $t
        }
        #[no_mangle]
        pub unsafe extern "C-unwind" fn $add(a: *mut $t, v: $t, mo: i32) -> $t {
            atomic(a as usize, $sz, Op::Add(v as u64), mo, mo) as $t
        }
        #[no_mangle]
        pub unsafe extern "C-unwind" fn $sub(a: *mut $t, v: $t, mo: i32) -> $t {
            atomic(a as usize, $sz, Op::Sub(v as u64), mo, mo) as $t
        }
        #[no_mangle]
        pub unsafe extern "C-unwind" fn $and(a: *mut $t, v: $t, mo: i32) -> $t {
            atomic(a as usize, $sz, Op::And(v as u64), mo, mo) as $t
        }
        #[no_mangle]
        pub unsafe extern "C-unwind" fn $or(a: *mut $t, v: $t, mo: i32) -> $t {
            atomic(a as usize, $sz, Op::Or(v as u64), mo, mo) as $t
        }
        #[no_mangle]
        pub unsafe extern "C-unwind" fn $xor(a: *mut $t, v: $t, mo: i32) -> $t {
            atomic(a as usize, $sz, Op::Xor(v as u64), mo, mo) as $t
        }
        #[no_mangle]
        pub unsafe extern "C-unwind" fn $nand(a: *mut $t, v: $t, mo: i32) -> $t {
            atomic(a as usize, $sz, Op::Nand(v as u64), mo, mo) as $t
        }
        #[no_mangle]
        pub unsafe extern "C-unwind" fn $cv(a: *mut $t, c: $t, v: $t, mo: i32, f: i32) -> $t {
            atomic(a as usize, $sz, Op::Cas(c as u64, v as u64), mo, f) as $t
        }
        #[no_mangle]
        pub unsafe extern "C-unwind" fn $cs(a: *mut $t, c: *mut $t, v: $t, mo: i32, f: i32) -> i32 {
            let old = atomic(a as usize, $sz, Op::Cas(*c as u64, v as u64), mo, f) as $t;
            let ok = old == *c;
            *c = old;
            ok as i32
        }
        #[no_mangle]
        pub unsafe extern "C-unwind" fn $cw(a: *mut $t, c: *mut $t, v: $t, mo: i32, f: i32) -> i32 {
            $cs(a, c, v, mo, f)
        }
    };
}
atomics!(1, u8, __tsan_atomic8_load, __tsan_atomic8_store, __tsan_atomic8_exchange, __tsan_atomic8_fetch_add, __tsan_atomic8_fetch_sub, __tsan_atomic8_fetch_and, __tsan_atomic8_fetch_or, __tsan_atomic8_fetch_xor, __tsan_atomic8_fetch_nand, __tsan_atomic8_compare_exchange_val, __tsan_atomic8_compare_exchange_strong, __tsan_atomic8_compare_exchange_weak);
atomics!(2, u16, __tsan_atomic16_load, __tsan_atomic16_store, __tsan_atomic16_exchange, __tsan_atomic16_fetch_add, __tsan_atomic16_fetch_sub, __tsan_atomic16_fetch_and, __tsan_atomic16_fetch_or, __tsan_atomic16_fetch_xor, __tsan_atomic16_fetch_nand, __tsan_atomic16_compare_exchange_val, __tsan_atomic16_compare_exchange_strong, __tsan_atomic16_compare_exchange_weak);
atomics!(4, u32, __tsan_atomic32_load, __tsan_atomic32_store, __tsan_atomic32_exchange, __tsan_atomic32_fetch_add, __tsan_atomic32_fetch_sub, __tsan_atomic32_fetch_and, __tsan_atomic32_fetch_or, __tsan_atomic32_fetch_xor, __tsan_atomic32_fetch_nand, __tsan_atomic32_compare_exchange_val, __tsan_atomic32_compare_exchange_strong, __tsan_atomic32_compare_exchange_weak);
atomics!(8, u64, __tsan_atomic64_load, __tsan_atomic64_store, __tsan_atomic64_exchange, __tsan_atomic64_fetch_add, __tsan_atomic64_fetch_sub, __tsan_atomic64_fetch_and, __tsan_atomic64_fetch_or, __tsan_atomic64_fetch_xor, __tsan_atomic64_fetch_nand, __tsan_atomic64_compare_exchange_val, __tsan_atomic64_compare_exchange_strong, __tsan_atomic64_compare_exchange_weak);

#[no_mangle]
pub unsafe extern "C-unwind" fn __tsan_atomic_thread_fence(mo: i32) {
    fence(mo)
}
#[no_mangle]
pub unsafe extern "C-unwind" fn __tsan_atomic_signal_fence(_mo: i32) {}

#[inline(always)]
unsafe fn plain(a: usize, sz: usize, w: bool) {
    if !in_arena(a) || !recording() {
        return;
    }
    IN_RT = true;
    if OS_MODE && sz > 0 {
        let mut g = a & !7;
        while g < a + sz {
            if eng().shared.contains(&plain_key(g)) {
                plain_point(g, w);
            }
            g += 8;
        }
    }
    access(a, sz, w, false);
    IN_RT = false;
}

#[allow(static_mut_refs)]
unsafe fn plain_point(g: usize, w: bool) {
    sched_point();
    let e = eng();
    let i = match PLAIN_HASH.iter().position(|x| x.0 == g) {
        Some(i) => i,
        None => {
            PLAIN_HASH.push((g, 0));
            PLAIN_HASH.len() - 1
        }
    };
    let th = &mut e.th[CUR];
    th.hash = mix(th.hash, mix(g as u64, PLAIN_HASH[i].1));
    if w {
        PLAIN_HASH[i].1 = th.hash;
    }
    tr(|| format!("T{} plain {} {}", CUR, if w { "write" } else { "read" }, eng().where_is(g)));
    stepped(w);
}

macro_rules! plains {
    ($($name:ident $sz:expr, $w:expr;)*) => { $(
        #[no_mangle]
        pub unsafe extern "C-unwind" fn $name(a: *mut u8) { plain(a as usize, $sz, $w) }
    )* };
}
plains! {
    __tsan_read1 1, false; __tsan_read2 2, false; __tsan_read4 4, false; __tsan_read8 8, false; __tsan_read16 16, false;
    __tsan_write1 1, true; __tsan_write2 2, true; __tsan_write4 4, true; __tsan_write8 8, true; __tsan_write16 16, true;
    __tsan_unaligned_read2 2, false; __tsan_unaligned_read4 4, false; __tsan_unaligned_read8 8, false; __tsan_unaligned_read16 16, false;
    __tsan_unaligned_write2 2, true; __tsan_unaligned_write4 4, true; __tsan_unaligned_write8 8, true; __tsan_unaligned_write16 16, true;
    __tsan_volatile_read1 1, false; __tsan_volatile_read2 2, false; __tsan_volatile_read4 4, false; __tsan_volatile_read8 8, false; __tsan_volatile_read16 16, false;
    __tsan_volatile_write1 1, true; __tsan_volatile_write2 2, true; __tsan_volatile_write4 4, true; __tsan_volatile_write8 8, true; __tsan_volatile_write16 16, true;
    __tsan_unaligned_volatile_read2 2, false; __tsan_unaligned_volatile_read4 4, false; __tsan_unaligned_volatile_read8 8, false; __tsan_unaligned_volatile_read16 16, false;
    __tsan_unaligned_volatile_write2 2, true; __tsan_unaligned_volatile_write4 4, true; __tsan_unaligned_volatile_write8 8, true; __tsan_unaligned_volatile_write16 16, true;
    __tsan_read_write1 1, true; __tsan_read_write2 2, true; __tsan_read_write4 4, true; __tsan_read_write8 8, true; __tsan_read_write16 16, true;
    __tsan_unaligned_read_write2 2, true; __tsan_unaligned_read_write4 4, true; __tsan_unaligned_read_write8 8, true; __tsan_unaligned_read_write16 16, true;
    __tsan_vptr_read 8, false;
}
#[no_mangle]
pub unsafe extern "C-unwind" fn __tsan_vptr_update(a: *mut u8, _v: *mut u8) {
    plain(a as usize, 8, true)
}
#[no_mangle]
pub unsafe extern "C-unwind" fn __tsan_read_range(a: *mut u8, n: usize) {
    plain(a as usize, n, false)
}
#[no_mangle]
pub unsafe extern "C-unwind" fn __tsan_write_range(a: *mut u8, n: usize) {
    plain(a as usize, n, true)
}
#[no_mangle]
pub unsafe extern "C-unwind" fn __tsan_memcpy(d: *mut u8, s: *const u8, n: usize) -> *mut u8 {
    plain(s as usize, n, false);
    plain(d as usize, n, true);
    std::ptr::copy_nonoverlapping(s, d, n);
    d
}
#[no_mangle]
pub unsafe extern "C-unwind" fn __tsan_memmove(d: *mut u8, s: *const u8, n: usize) -> *mut u8 {
    plain(s as usize, n, false);
    plain(d as usize, n, true);
    std::ptr::copy(s, d, n);
    d
}
#[no_mangle]
pub unsafe extern "C-unwind" fn __tsan_memset(d: *mut u8, c: i32, n: usize) -> *mut u8 {
    plain(d as usize, n, true);
    std::ptr::write_bytes(d, c as u8, n);
    d
}
#[no_mangle]
pub unsafe extern "C" fn __tsan_func_entry(_p: *mut u8) {}
#[no_mangle]
pub unsafe extern "C" fn __tsan_func_exit() {}
#[no_mangle]
pub unsafe extern "C" fn __tsan_init() {}

// ---- libc interposition -------------------------------------------------------------------

extern "C" {
    fn __errno_location() -> *mut i32;
}

unsafe fn raw_syscall(n: i64, a: [i64; 6]) -> i64 {
    let r: i64;
    std::arch::asm!("syscall", inlateout("rax") n => r, in("rdi") a[0], in("rsi") a[1], in("rdx") a[2], in("r10") a[3], in("r8") a[4], in("r9") a[5], lateout("rcx") _, lateout("r11") _);
    r
}
pub unsafe fn futex_wait_raw(p: *mut u32, v: u32) {
    raw_syscall(202, [p as i64, 128, v as i64, 0, 0, 0]);
}
pub unsafe fn futex_wake_raw(p: *mut u32, n: i32) {
    raw_syscall(202, [p as i64, 128 | 1, n as i64, 0, 0, 0]);
}

#[no_mangle]
pub unsafe extern "C" fn syscall(n: i64, a: i64, b: i64, c: i64, d: i64, e5: i64, f: i64) -> i64 {
    if n == 202 && recording() {
        let op = b & 0x7f;
        if op == 0 || op == 9 {
            IN_RT = true;
            let r = futex_wait(a as usize, c as u32, d != 0);
            IN_RT = false;
            if r != 0 {
                *__errno_location() = r;
                return -1;
            }
            return 0;
        }
        if op == 1 || op == 10 {
            IN_RT = true;
            let r = futex_wake(a as usize, c as i32);
            IN_RT = false;
            return r;
        }
    }
    let r = raw_syscall(n, [a, b, c, d, e5, f]);
    if r < 0 && r > -4096 {
        *__errno_location() = -r as i32;
        return -1;
    }
    r
}

unsafe fn futex_sync(addr: usize) {
    let me = CUR;
    let li = get_loc(addr, 4);
    let e = eng();
    let s = *e.locs[li].stores.last().unwrap();
    e.th[me].c.join(&s.sync);
    e.th[me].hash = mix(e.th[me].hash, mix(s.hash, s.val));
}

unsafe fn futex_wait(addr: usize, val: u32, timeout: bool) -> i32 {
    if rd(addr, 4) as u32 != val {
        return 11;
    }
    if timeout {
        yield_op();
        return 110;
    }
    let me = CUR;
    tr(|| format!("T{} futex wait {}", me, eng().where_is(addr)));
    block(Status::Futex(addr));
    futex_sync(addr);
    stepped(true);
    0
}

unsafe fn futex_wake(addr: usize, n: i32) -> i64 {
    let mut woken = 0;
    let me = CUR;
    loop {
        if woken >= n as i64 {
            break;
        }
        let e = eng();
        let w: Vec<usize> = (0..e.nt).filter(|&t| e.th[t].status == Status::Futex(addr)).collect();
        if w.is_empty() {
            break;
        }
        let i = if w.len() as i64 > n as i64 - woken { decide(Kind::Value, w.len()) } else { 0 };
        let e = eng();
        e.th[w[i]].status = Status::Runnable;
        e.th[w[i]].yielded = false;
        e.th[me].hash = mix(e.th[me].hash, 0x1000 + w[i] as u64);
        tr(|| format!("T{} futex wake T{}", me, w[i]));
        woken += 1;
    }
    stepped(true);
    woken
}

#[no_mangle]
pub unsafe extern "C" fn sched_yield() -> i32 {
    if recording() {
        IN_RT = true;
        yield_op();
        IN_RT = false;
        return 0;
    }
    raw_syscall(24, [0; 6]) as i32
}
