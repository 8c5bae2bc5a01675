//! OS-thread mode, for code that needs real thread-locals (executors): logical threads are real
//! pthreads on stacks of ours, and a baton makes sure exactly one of them runs.
use crate::engine::*;
use crate::hooks::{futex_wait_raw, futex_wake_raw};
use crate::sched::*;
use std::sync::atomic::{AtomicU32, Ordering::SeqCst};

type Start = extern "C" fn(*mut u8) -> *mut u8;
extern "C" {
    fn dlsym(h: *mut u8, n: *const u8) -> *mut u8;
    fn pthread_attr_init(a: *mut u8) -> i32;
    fn pthread_attr_setstack(a: *mut u8, p: *mut u8, n: usize) -> i32;
    fn pthread_attr_destroy(a: *mut u8) -> i32;
}
const RTLD_NEXT: *mut u8 = -1isize as *mut u8;

static mut CTRL: u32 = 0;

unsafe fn real(name: &'static str) -> *mut u8 {
    let p = dlsym(RTLD_NEXT, name.as_ptr());
    if p.is_null() {
        engine_fail("dlsym");
    }
    p
}

unsafe fn give(w: *mut u32) {
    (*(w as *const AtomicU32)).store(1, SeqCst);
    futex_wake_raw(w, 1);
}
unsafe fn take(w: *mut u32) {
    loop {
        for _ in 0..200 {
            if (*(w as *const AtomicU32)).compare_exchange(1, 0, SeqCst, SeqCst).is_ok() {
                return;
            }
            std::hint::spin_loop();
        }
        futex_wait_raw(w, 0);
    }
}

pub unsafe fn handoff(me: usize, t: usize) {
    let fin = eng().th[me].status == Status::Finished;
    let mine = eng().th[me].baton;
    give(eng().th[t].baton);
    if !fin {
        take(mine);
    }
}

pub unsafe fn to_controller() {
    ACTIVE = false;
    give(&raw mut CTRL);
}

unsafe extern "C" fn trampoline(t: *mut u8) -> *mut u8 {
    let t = t as usize;
    take(eng().th[t].baton);
    let (f, a) = eng().th[t].start.take().unwrap();
    ME.with(|m| m.set(t));
    IN_RT = false;
    f(a);
    // thread-local destructors, still under the scheduler
    loop {
        IN_RT = true;
        let d = eng().th[t].dtors.pop();
        IN_RT = false;
        match d {
            Some((f, p)) => f(p),
            None => break,
        }
    }
    IN_RT = true;
    ME.with(|m| m.set(usize::MAX));
    finish_thread();
    std::ptr::null_mut()
}

unsafe fn real_create(t: usize) {
    let mut attr = [0u64; 16];
    let ap = attr.as_mut_ptr() as *mut u8;
    pthread_attr_init(ap);
    pthread_attr_setstack(ap, (STACKS + t * STACK) as *mut u8, STACK);
    let f: unsafe extern "C" fn(*mut usize, *const u8, unsafe extern "C" fn(*mut u8) -> *mut u8, *mut u8) -> i32 =
        std::mem::transmute(real("pthread_create\0"));
    let mut h = 0usize;
    let r = f(&mut h, ap, trampoline, t as *mut u8);
    pthread_attr_destroy(ap);
    if r != 0 {
        engine_fail("pthread_create failed");
    }
    eng().th[t].pthread = h;
}

#[no_mangle]
pub unsafe extern "C" fn pthread_create(out: *mut usize, attr: *const u8, f: Start, a: *mut u8) -> i32 {
    if !(ACTIVE && OS_MODE) {
        let g: unsafe extern "C" fn(*mut usize, *const u8, Start, *mut u8) -> i32 = std::mem::transmute(real("pthread_create\0"));
        return g(out, attr, f, a);
    }
    let was = IN_RT;
    IN_RT = true;
    let t = crate::api::new_tid();
    eng().th[t].start = Some((f, a));
    real_create(t);
    *out = 0x7100_0000 + t;
    IN_RT = was;
    0
}
#[no_mangle]
pub unsafe extern "C" fn pthread_join(h: usize, ret: *mut *mut u8) -> i32 {
    if ACTIVE && OS_MODE && h.wrapping_sub(0x7100_0000) < MAXT {
        let was = IN_RT;
        IN_RT = true;
        crate::api::join_tid(h - 0x7100_0000);
        IN_RT = was;
        return 0;
    }
    let g: unsafe extern "C" fn(usize, *mut *mut u8) -> i32 = std::mem::transmute(real("pthread_join\0"));
    g(h, ret)
}
#[no_mangle]
pub unsafe extern "C" fn pthread_detach(h: usize) -> i32 {
    if h.wrapping_sub(0x7100_0000) < MAXT {
        return 0;
    }
    let g: unsafe extern "C" fn(usize) -> i32 = std::mem::transmute(real("pthread_detach\0"));
    g(h)
}
#[no_mangle]
pub unsafe extern "C" fn __cxa_thread_atexit_impl(f: unsafe extern "C" fn(*mut u8), p: *mut u8, d: *mut u8) -> i32 {
    if ACTIVE && OS_MODE {
        let was = IN_RT;
        IN_RT = true;
        eng().th[CUR].dtors.push((f, p));
        IN_RT = was;
        return 0;
    }
    let g: unsafe extern "C" fn(unsafe extern "C" fn(*mut u8), *mut u8, *mut u8) -> i32 =
        std::mem::transmute(real("__cxa_thread_atexit_impl\0"));
    g(f, p, d)
}

extern "C" fn main_entry(_: *mut u8) -> *mut u8 {
    unsafe {
        let f = {
            IN_RT = true;
            eng().scenario.unwrap()
        };
        IN_RT = false;
        let r = std::panic::catch_unwind(f);
        if r.is_err() {
            IN_RT = true;
            let m = eng().user.last().cloned().unwrap_or_default();
            violate("panic", format!("T{} panicked: {}", CUR, m));
        }
    }
    std::ptr::null_mut()
}

/// Run one execution in OS-thread mode.
pub unsafe fn run_os() {
    eng().th[0].start = Some((main_entry, std::ptr::null_mut()));
    for t in 0..MAXT {
        *eng().th[t].baton = 0;
        eng().th[t].pthread = 0;
    }
    CTRL = 0;
    real_create(0);
    give(eng().th[0].baton);
    take(&raw mut CTRL);
    IN_RT = true;
    let j: unsafe extern "C" fn(usize, *mut *mut u8) -> i32 = std::mem::transmute(real("pthread_join\0"));
    for t in 0..eng().nt {
        let h = eng().th[t].pthread;
        if h != 0 {
            let mut r = std::ptr::null_mut();
            j(h, &mut r);
        }
    }
}

/// std insists on a guard page below every thread's stack.
#[no_mangle]
pub unsafe extern "C" fn pthread_attr_getguardsize(a: *const u8, n: *mut usize) -> i32 {
    let g: unsafe extern "C" fn(*const u8, *mut usize) -> i32 = std::mem::transmute(real("pthread_attr_getguardsize\0"));
    let r = g(a, n);
    if *n == 0 {
        *n = 4096;
    }
    r
}

// ---- malloc -------------------------------------------------------------------------------
// std keeps its thread handles (and with them the word a parked thread waits on) in memory from
// the system allocator: in OS-thread mode that has to come from the arena as well, so that its
// addresses are the same in every execution.
extern "C" {
    fn __libc_malloc(n: usize) -> *mut u8;
    fn __libc_free(p: *mut u8);
    fn __libc_calloc(n: usize, m: usize) -> *mut u8;
    fn __libc_realloc(p: *mut u8, n: usize) -> *mut u8;
    fn __libc_memalign(a: usize, n: usize) -> *mut u8;
}
#[inline]
unsafe fn arena_mode() -> bool {
    OS_MODE && crate::engine::recording()
}
unsafe fn arena_sized(n: usize, align: usize) -> *mut u8 {
    // room for the size in front, so that free() knows it
    let a = align.max(16);
    let p = crate::engine::arena_alloc(n + a, a);
    eng().live -= 1; // not subject to the leak check
    *(p.add(a - 8) as *mut usize) = n + a;
    *(p.add(a - 16) as *mut usize) = a;
    p.add(a)
}
#[no_mangle]
pub unsafe extern "C" fn malloc(n: usize) -> *mut u8 {
    if arena_mode() {
        return arena_sized(n, 16);
    }
    __libc_malloc(n)
}
#[no_mangle]
pub unsafe extern "C" fn calloc(n: usize, m: usize) -> *mut u8 {
    if arena_mode() {
        let p = arena_sized(n * m, 16);
        std::ptr::write_bytes(p, 0, n * m);
        return p;
    }
    __libc_calloc(n, m)
}
#[no_mangle]
pub unsafe extern "C" fn free(p: *mut u8) {
    if crate::alloc::in_arena(p as usize) {
        if arena_mode() {
            let n = *(p.sub(8) as *mut usize);
            let a = *(p.sub(16) as *mut usize);
            eng().live += 1;
            crate::engine::arena_free(p as usize - a, n);
        }
        return;
    }
    __libc_free(p)
}
#[no_mangle]
pub unsafe extern "C" fn realloc(p: *mut u8, n: usize) -> *mut u8 {
    if crate::alloc::in_arena(p as usize) || arena_mode() {
        let q = malloc(n);
        if !p.is_null() {
            let old = if crate::alloc::in_arena(p as usize) { *(p.sub(8) as *mut usize) - *(p.sub(16) as *mut usize) } else { n };
            std::ptr::copy_nonoverlapping(p, q, old.min(n));
            free(p);
        }
        return q;
    }
    __libc_realloc(p, n)
}
#[no_mangle]
pub unsafe extern "C" fn posix_memalign(out: *mut *mut u8, a: usize, n: usize) -> i32 {
    *out = if arena_mode() { arena_sized(n, a) } else { __libc_memalign(a, n) };
    if (*out).is_null() {
        12
    } else {
        0
    }
}
#[no_mangle]
pub unsafe extern "C" fn aligned_alloc(a: usize, n: usize) -> *mut u8 {
    if arena_mode() {
        return arena_sized(n, a);
    }
    __libc_memalign(a, n)
}
#[no_mangle]
pub unsafe extern "C" fn memalign(a: usize, n: usize) -> *mut u8 {
    aligned_alloc(a, n)
}
