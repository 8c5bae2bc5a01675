#![allow(dropping_copy_types, forgetting_copy_types)]
//! Concurrency scenarios for futures-rs, explored by mcrt.
#![feature(noop_waker)]
#![allow(clippy::all)]
#![allow(dead_code, stable_features, unused_imports)]
#[macro_use]
mod h;
mod atomic_waker;
mod comb;
mod exec;
mod fu;
mod litmus;
mod lock;
mod mpsc;
mod oneshot;
mod reent;
mod shared;

use mcrt::Bounds;

#[derive(Clone, Copy)]
pub struct Scn {
    pub name: &'static str,
    pub props: &'static str,
    pub os: bool,
    /// (preemptions, stale reads) per tier
    pub quick: (u32, u32),
    pub thorough: (u32, u32),
    pub f: fn(),
}

pub const fn s(name: &'static str, props: &'static str, quick: (u32, u32), thorough: (u32, u32), f: fn()) -> Scn {
    Scn { name, props, os: false, quick, thorough, f }
}
pub const fn os(name: &'static str, props: &'static str, quick: (u32, u32), thorough: (u32, u32), f: fn()) -> Scn {
    Scn { name, props, os: true, quick, thorough, f }
}

fn all() -> Vec<Scn> {
    let mut v = vec![];
    v.extend_from_slice(litmus::SCN);
    v.extend_from_slice(mpsc::SCN);
    v.extend_from_slice(oneshot::SCN);
    v.extend_from_slice(reent::SCN);
    v.extend_from_slice(atomic_waker::SCN);
    v.extend_from_slice(lock::SCN);
    v.extend_from_slice(exec::SCN);
    v.extend_from_slice(shared::SCN);
    v.extend_from_slice(fu::SCN);
    v.extend_from_slice(comb::SCN);
    v
}

fn find(n: &str) -> Scn {
    match all().into_iter().find(|s| s.name == n) {
        Some(s) => s,
        None => {
            eprintln!("no scenario {n}");
            std::process::exit(2)
        }
    }
}

extern "C" {
    fn personality(p: u64) -> i32;
}

fn bounds(p: u32, st: u32, wall: u64) -> Bounds {
    Bounds { preempt: p, stale: st, wall_ms: wall, max_steps: 20_000, max_states: 12_000_000 }
}

fn nums(s: &str, key: &str) -> Vec<usize> {
    let k = format!("\"{key}\":[");
    let a = s.find(&k).expect("bad replay file") + k.len();
    let b = a + s[a..].find(']').unwrap();
    s[a..b].split(',').filter(|x| !x.is_empty()).map(|x| x.trim().parse().unwrap()).collect()
}

fn main() {
    let a: Vec<String> = std::env::args().collect();
    // deterministic addresses
    unsafe {
        if personality(0xffff_ffff) & 0x0040000 == 0 && std::env::var_os("MCX_REEXEC").is_none() {
            personality(0x0040000);
            use std::os::unix::process::CommandExt;
            let e = std::process::Command::new("/proc/self/exe").args(&a[1..]).env("MCX_REEXEC", "1").exec();
            eprintln!("re-exec failed: {e}");
        }
    }
    match a.get(1).map(|s| s.as_str()) {
        Some("list") => {
            for s in all() {
                println!(
                    "{{\"name\":\"{}\",\"props\":\"{}\",\"os\":{},\"quick\":[{},{}],\"thorough\":[{},{}]}}",
                    s.name, s.props, s.os, s.quick.0, s.quick.1, s.thorough.0, s.thorough.1
                );
            }
        }
        // one NAME PREEMPT STALE WALL_MS OUT
        Some("one") => {
            let s = find(&a[2]);
            mcrt::setup(Some(a[6].clone()));
            let b = bounds(a[3].parse().unwrap(), a[4].parse().unwrap(), a[5].parse().unwrap());
            let st = mcrt::explore(s.f, s.os, &b);
            println!(
                "{{\"scenario\":\"{}\",\"executions\":{},\"pruned\":{},\"transitions\":{},\"states\":{},\"outcomes\":{},\"restarts\":{},\"shared\":{},\"max_depth\":{},\"completed_preempt\":{},\"stale\":{},\"capped\":{},\"panic_pruned\":{},\"samples\":[{}]}}",
                s.name, st.executions, st.pruned, st.transitions, st.states, st.outcomes, st.restarts, st.shared, st.max_depth,
                st.completed_preempt, b.stale, st.capped, mcrt::panic_pruned(),
                st.samples.iter().map(|x| format!("{:?}", x)).collect::<Vec<_>>().join(",")
            );
        }
        // replay NAME REPORT OUT
        Some("replay") => {
            let s = find(&a[2]);
            let r = std::fs::read_to_string(&a[3]).expect("replay file");
            let ch: Vec<u8> = nums(&r, "choices").into_iter().map(|x| x as u8).collect();
            let sh = nums(&r, "shared");
            let bd = nums(&r, "bounds");
            mcrt::setup(Some(a[4].clone()));
            mcrt::replay(s.f, s.os, &ch, &sh, &bounds(bd[0] as u32, bd[1] as u32, 60_000));
            for l in mcrt::trace() { println!("{l}"); }
            println!("no violation");
        }
        _ => {
            eprintln!("usage: mcx list | one ... | replay ...");
            std::process::exit(2)
        }
    }
}
