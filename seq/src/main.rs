//! Exhaustive exploration of histories of futures-rs' combinators.
#![allow(clippy::all)]
#![allow(dead_code, static_mut_refs)]
#[macro_use]
mod ch;
mod leaf;
mod acc;
mod model;
mod futs;
mod io;
mod compat;
mod conc;
mod pins;
mod sinks;
mod streams;
mod task;
mod trys;
mod tu;

use std::io::Write;
use std::sync::atomic::Ordering::Relaxed;

#[derive(Clone, Copy)]
pub struct Scn {
    pub name: &'static str,
    pub props: &'static str,
    pub quick: u32,
    pub thorough: u32,
    pub f: fn(u32),
}
pub const fn s(name: &'static str, props: &'static str, quick: u32, thorough: u32, f: fn(u32)) -> Scn {
    Scn { name, props, quick, thorough, f }
}
fn all() -> Vec<Scn> {
    let mut v = vec![];
    v.extend_from_slice(streams::SCN);
    v.extend_from_slice(futs::SCN);
    v.extend_from_slice(conc::SCN);
    v.extend_from_slice(trys::SCN);
    v.extend_from_slice(sinks::SCN);
    v.extend_from_slice(io::SCN);
    v.extend_from_slice(task::SCN);
    v.extend_from_slice(tu::SCN);
    v.extend_from_slice(acc::SCN);
    v.extend_from_slice(compat::SCN);
    v.extend_from_slice(pins::SCN);
    v.extend_from_slice(model::SCN);
    v
}
/// `h:NAME` is scenario NAME with sizes of several hundred, with everything ready at once (thorough:
/// and all single deviations from that).
///
/// `l:NAME` is scenario NAME with large sizes, explored for all executions with few deviations
/// from the one in which everything is ready at once.
///
/// `x:NAME` is scenario NAME with cancellation and a panic of a leaf allowed anywhere.
fn find(n: &str) -> Scn {
    let n = match n.strip_prefix("x:") {
        Some(r) => {
            leaf::CHAOS.store(true, std::sync::atomic::Ordering::SeqCst);
            let mut s = find(r);
            s.name = Box::leak(n.to_string().into_boxed_str());
            return s;
        }
        None => n,
    };
    if let Some(r) = n.strip_prefix("h:") {
        ch::LONG.store(true, Relaxed);
        ch::HUGE.store(true, Relaxed);
        let mut s = find(r);
        s.name = Box::leak(n.to_string().into_boxed_str());
        return s;
    }
    if let Some(r) = n.strip_prefix("l:") {
        ch::LONG.store(true, Relaxed);
        let mut s = find(r);
        s.name = Box::leak(n.to_string().into_boxed_str());
        return s;
    }
    if n.starts_with("ex_") {
        ch::LONG.store(true, Relaxed);
    }
    all().into_iter().find(|s| s.name == n).unwrap_or_else(|| {
        eprintln!("no scenario {n}");
        std::process::exit(2)
    })
}
/// The bounds of the long twin, if there is one.
fn long(s: &Scn) -> Option<(u32, u32)> {
    if !["st_", "fu_", "co_", "me_", "ts_", "sk_", "io_", "cp_", "m_"].iter().any(|p| s.name.starts_with(p)) {
        return None;
    }
    if ["m_oneshot", "m_fu_spawn"].contains(&s.name) {
        return None;
    }
    if s.name.starts_with("m_") || ["ts_try_flatten", "st_flatten", "me_select_all_set", "co_flatten_unordered", "co_try_buffered"].contains(&s.name) {
        return Some((1, 2));
    }
    Some((2, 3))
}
fn esc(s: &str) -> String {
    let mut o = String::from("\"");
    for c in s.chars() {
        match c {
            '"' => o.push_str("\\\""),
            '\\' => o.push_str("\\\\"),
            c if (c as u32) < 32 => o.push(' '),
            c => o.push(c),
        }
    }
    o.push('"');
    o
}
fn report(out: &str, s: &Scn, kind: &str, msg: &str, choices: &[u16], bound: u32, notes: &[String]) {
    let t = format!(
        "{{\"scenario\":{},\"kind\":{},\"msg\":{},\"bound\":{},\"choices\":[{}],\"trace\":[{}]}}\n",
        esc(s.name), esc(kind), esc(msg), bound,
        choices.iter().map(|c| c.to_string()).collect::<Vec<_>>().join(","),
        notes.iter().map(|n| esc(n)).collect::<Vec<_>>().join(",")
    );
    if let Ok(mut f) = std::fs::File::create(out) {
        let _ = f.write_all(t.as_bytes());
    }
}
fn watchdog(s: Scn, out: String, bound: u32) {
    std::thread::spawn(move || {
        let mut last = 0;
        let mut idle = 0;
        loop {
            std::thread::sleep(std::time::Duration::from_millis(500));
            let t = ch::TICK.load(Relaxed);
            if t == last && t != 0 {
                idle += 1;
            } else {
                idle = 0;
            }
            last = t;
            if idle >= 30 {
                let c: Vec<u16> = unsafe { ch::CUR.iter().map(|c| c.0).collect() };
                report(&out, &s, "hang", "a call into the library does not return", &c, bound, &[]);
                std::process::exit(1);
            }
        }
    });
}
static mut CRASH: Option<(Scn, String, u32)> = None;
extern "C" fn on_crash(sig: i32) {
    unsafe {
        libc::signal(sig, libc::SIG_DFL);
        if let Some((s, out, b)) = &*std::ptr::addr_of!(CRASH) {
            let c: Vec<u16> = ch::CUR.iter().map(|c| c.0).collect();
            report(out, s, "crash", &format!("the process dies with signal {sig}"), &c, *b, &[]);
            libc::_exit(1);
        }
    }
}
/// A crash of the code under test (double panic, memory error) is a violation with a replay.
fn catch_crashes(s: Scn, out: String, b: u32) {
    unsafe {
        CRASH = Some((s, out, b));
        for sig in [libc::SIGSEGV, libc::SIGABRT, libc::SIGBUS, libc::SIGILL, libc::SIGFPE] {
            let mut a: libc::sigaction = std::mem::zeroed();
            a.sa_sigaction = on_crash as *const () as usize;
            a.sa_flags = libc::SA_ONSTACK;
            libc::sigaction(sig, &a, std::ptr::null_mut());
        }
    }
}
fn main() {
    let a: Vec<String> = std::env::args().collect();
    std::panic::set_hook(Box::new(|i| {
        let m = if let Some(s) = i.payload().downcast_ref::<&str>() { s.to_string() } else if let Some(s) = i.payload().downcast_ref::<String>() { s.clone() } else { "?".into() };
        let l = i.location().map(|l| format!("{}:{}", l.file(), l.line())).unwrap_or_default();
        ch::LAST_PANIC.with(|p| *p.borrow_mut() = format!("{m} at {l}"));
    }));
    match a.get(1).map(|s| s.as_str()) {
        Some("list") => {
            for s in all() {
                println!("{{\"name\":\"{}\",\"props\":\"{}\",\"quick\":{},\"thorough\":{}}}", s.name, s.props, s.quick, s.thorough);
                if let Some((q, t)) = long(&s) {
                    println!("{{\"name\":\"l:{}\",\"props\":\"{}\",\"quick\":{q},\"thorough\":{t}}}", s.name, s.props);
                    if !["io_split_tasks", "cp_wakers"].contains(&s.name) {
                        println!("{{\"name\":\"h:{}\",\"props\":\"{}\",\"quick\":1,\"thorough\":2}}", s.name, s.props);
                    }
                }
                if !s.props.contains('!') {
                    println!("{{\"name\":\"x:{}\",\"props\":\"C27{}\",\"quick\":{},\"thorough\":{}}}", s.name, if s.name.starts_with("pin_") { " C33" } else { "" }, (s.quick - 1).max(1), (s.thorough - 1).max(1));
                }
            }
        }
        // one NAME BOUND WALL_MS OUT
        Some("one") => {
            let s = find(&a[2]);
            let b: u32 = a[3].parse().unwrap();
            let wall: u64 = a[4].parse().unwrap();
            watchdog(s, a[5].clone(), b);
            catch_crashes(s, a[5].clone(), b);
            let mut st = ch::Stats { executions: 0, skipped: 0, nodes: 0, transitions: 0, outcomes: Default::default(), max_depth: 0, capped: false, bound: 0, samples: vec![] };
            if let Some(v) = ch::explore(s.f, b, wall, &mut st) {
                let (_, notes) = ch::replay(s.f, v.bound, &v.choices);
                report(&a[5], &s, &v.kind, &v.msg, &v.choices, v.bound, &notes);
                std::process::exit(1);
            }
            println!(
                "{{\"scenario\":\"{}\",\"executions\":{},\"skipped\":{},\"transitions\":{},\"states\":{},\"outcomes\":{},\"max_depth\":{},\"bound\":{},\"capped\":{},\"samples\":[{}]}}",
                s.name, st.executions, st.skipped, st.transitions, st.nodes, st.outcomes.len(), st.max_depth, st.bound, st.capped,
                st.samples.iter().map(|x| esc(x)).collect::<Vec<_>>().join(",")
            );
        }
        // replay NAME REPORT OUT
        Some("replay") => {
            let s = find(&a[2]);
            let r = std::fs::read_to_string(&a[3]).expect("replay file");
            let k = "\"choices\":[";
            let p = r.find(k).unwrap() + k.len();
            let ch: Vec<u16> = r[p..p + r[p..].find(']').unwrap()].split(',').filter(|x| !x.is_empty()).map(|x| x.trim().parse().unwrap()).collect();
            let k = "\"bound\":";
            let p = r.find(k).unwrap() + k.len();
            let b: u32 = r[p..].chars().take_while(|c| c.is_ascii_digit()).collect::<String>().parse().unwrap();
            watchdog(s, a[4].clone(), b);
            catch_crashes(s, a[4].clone(), b);
            let (v, notes) = ch::replay(s.f, b, &ch);
            if let Some((kind, msg)) = v {
                report(&a[4], &s, &kind, &msg, &ch, b, &notes);
                std::process::exit(1);
            }
            for n in notes {
                println!("{n}");
            }
            println!("no violation");
        }
        _ => {
            eprintln!("usage: seqx list | one NAME BOUND WALL OUT | replay NAME REPORT OUT");
            std::process::exit(2)
        }
    }
}
