//! C04: every scenario of the other properties again, with allocations refused, each time in a
//! process of its own.
use crate::ev;
use crate::rng::{Ch, mix};
use crate::runner::seed_hashes;
use crate::world::{self, count, violate};
use crate::{alloc, props};

unsafe extern "C" {
    fn fork() -> i32;
    fn waitpid(p: i32, st: *mut i32, o: i32) -> i32;
    fn pipe(f: *mut i32) -> i32;
    fn dup2(a: i32, b: i32) -> i32;
    fn close(f: i32) -> i32;
    fn read(f: i32, b: *mut u8, n: usize) -> isize;
    fn write(f: i32, b: *const u8, n: usize) -> isize;
    fn _exit(c: i32) -> !;
    fn alarm(s: u32) -> u32;
    fn setrlimit(r: i32, l: *const [u64; 2]) -> i32;
}

const SCENARIOS: &[(&str, fn(&mut Ch))] = &[
    ("C02", props::build::c02),
    ("C01", props::build::c01),
    ("V01", props::vals::v01),
    ("V02", props::vals::v02),
    ("J01", props::json::j01),
    ("J02", props::json::j02),
    ("J03", props::json::j03),
    ("M01", props::msgp::m01),
    ("M02", props::msgp::m02),
    ("T01", props::toml::t01),
    ("Y01", props::yaml::y01),
    ("U01", props::form::u01),
    ("A01", props::args::a01),
    ("P01", props::pretty::p01),
    ("P02", props::pretty::p02),
];

struct Told {
    text: String,
    /// exit code or, negative, the signal
    how: i32,
}

/// Runs the scenario in a child; `fail`: the number of the allocation to refuse.
fn child(ch: &mut Ch, f: fn(&mut Ch), fail: u64, sticky: bool) -> Option<Told> {
    let mut fds = [0i32; 2];
    unsafe {
        if pipe(fds.as_mut_ptr()) != 0 {
            return None;
        }
        let p = fork();
        if p < 0 {
            close(fds[0]);
            close(fds[1]);
            return None;
        }
        if p == 0 {
            dup2(fds[1], 2);
            close(fds[0]);
            close(fds[1]);
            alarm(20);
            setrlimit(4, &[0, 0]);
            ch.mute();
            inside(ch, f, fail, sticky);
        }
        close(fds[1]);
        let mut text = Vec::new();
        let mut b = [0u8; 4096];
        loop {
            let n = read(fds[0], b.as_mut_ptr(), b.len());
            if n <= 0 {
                break;
            }
            text.extend_from_slice(&b[..n as usize]);
        }
        close(fds[0]);
        let mut st = 0;
        while waitpid(p, &mut st, 0) < 0 {}
        let how = if st & 0x7f == 0 { (st >> 8) & 0xff } else { -(st & 0x7f) };
        Some(Told { text: String::from_utf8_lossy(&text).into_owned(), how })
    }
}

fn tell(s: String) {
    unsafe {
        write(2, s.as_ptr(), s.len());
    }
}

fn inside(ch: &mut Ch, f: fn(&mut Ch), fail: u64, sticky: bool) -> ! {
    world::reset(false);
    let start = ch.rec.len();
    let hs = ch.below(1 << 16) as u64;
    seed_hashes(hs);
    alloc::reset(mix(hs), *ch.pick(&[alloc::Reuse::Never, alloc::Reuse::Lifo, alloc::Reuse::Random]));
    alloc::st().fail_at = fail;
    alloc::st().fail_sticky = sticky;
    let r = std::panic::catch_unwind(std::panic::AssertUnwindSafe(|| f(ch)));
    alloc::set_on(false);
    let refused = alloc::st().refused;
    if fail == 0 {
        let l: Vec<String> = ch.rec[start..].iter().map(|x| x.to_string()).collect();
        tell(format!("ALLOCS {} {}\n", alloc::st().allocs, l.join(",")));
        unsafe { _exit(if r.is_ok() { 0 } else { 96 }) }
    }
    let w = world::take();
    // it went on (or was never refused): only damage counts, not what the scenario made of it
    let bad = w.violations.iter().find(|(s, _)| {
        ["memory: bad", "memory: double", "memory: memory-write", "memory: out-of-bounds", "use of", "value destroyed twice", "destruction of", "panic"].iter().any(|p| s.starts_with(p))
    });
    if refused > 0 {
        if let Some((s, d)) = bad {
            tell(format!("DAMAGE {s}: {d}\n"));
            unsafe { _exit(98) }
        }
        unsafe { _exit(if r.is_ok() { 10 } else { 95 }) }
    }
    unsafe { _exit(11) }
}

pub fn c04(ch: &mut Ch) {
    alloc::off(|| c04_run(ch));
}

fn c04_run(ch: &mut Ch) {
    let (name, f) = *ch.pick(SCENARIOS);
    let sticky = ch.chance(1, 3);
    let points: Vec<usize> = (0..10).map(|_| ch.below(1 << 16)).collect();
    // undisturbed first: how many allocations there are
    let Some(t) = child(ch, f, 0, false) else { return };
    let Some((n, rec)) = t.text.lines().find_map(|l| l.strip_prefix("ALLOCS ")).and_then(|l| l.split_once(' ')) else {
        // the scenario itself fails: the other properties' concern
        ev!("{name}: no result ({})", t.how);
        return;
    };
    let n: u64 = n.parse().unwrap_or(0);
    ev!("{name}: {n} allocations, choices {:x}", world::hash_str(rec));
    count("probe.scenarios", 1);
    let mut at: Vec<u64> = if n <= 10 { (1..=n).collect() } else { points.iter().map(|p| 1 + *p as u64 % n).collect() };
    at.sort();
    at.dedup();
    for k in at {
        let Some(t) = child(ch, f, k, sticky) else { return };
        count(if sticky { "fault.allocations_refused_from_here_on" } else { "fault.allocation_refused" }, 1);
        let oom = t.text.contains("memory allocation of ") && t.text.contains(" bytes failed");
        match t.how {
            -6 if oom => {
                count("probe.standard_abort", 1);
                ev!("refusing {k}: standard abort");
            }
            10 => {
                count("probe.error_reported", 1);
                ev!("refusing {k}: went on");
            }
            11 => ev!("refusing {k}: never reached"),
            h => {
                let what = match h {
                    -11 => "memory fault after a refused allocation".to_string(),
                    -6 => "another abort after a refused allocation".to_string(),
                    -14 => "no end after a refused allocation".to_string(),
                    98 => "damage after a refused allocation".to_string(),
                    h => format!("unexpected end ({h}) after a refused allocation"),
                };
                let line = t.text.lines().rfind(|l| !l.trim().is_empty()).unwrap_or("").chars().take(300).collect::<String>();
                violate(what, format!("{name}, allocation {k} of {n} refused: {line}"));
                break;
            }
        }
    }
    ch.absorb(rec.split(',').filter_map(|x| x.parse().ok()));
}
