#![allow(suspicious_runtime_symbol_definitions)]
//! A stateless model checker for real, compiled Rust code.
//!
//! The crates under test are compiled with `-Zsanitizer=thread -Zexternal-clangrt`, so every
//! atomic operation and every plain memory access of theirs becomes a call to a `__tsan_*`
//! function.  Instead of linking the ThreadSanitizer runtime, this crate *is* the runtime: the
//! hooks hand control to a deterministic scheduler that enumerates thread interleavings (and
//! C11-consistent stale reads) by depth-first search with a preemption bound, happens-before
//! state caching, a vector-clock race detector, use-after-free detection and deadlock/livelock
//! detection.  This crate itself is compiled without instrumentation.
#![allow(static_mut_refs)]
#![allow(clippy::missing_safety_doc)]

pub mod alloc;
pub mod api;
pub mod engine;
mod hooks;
mod os;
mod sched;

pub use api::*;
pub use engine::{Bounds, Report, Stats};

pub fn panic_pruned() -> u64 {
    unsafe { sched::PANIC_PRUNED }
}
pub fn os_mode() -> bool {
    unsafe { engine::OS_MODE }
}
