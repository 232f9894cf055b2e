//! Runs simulations: supervisor, workers, minimiser, replay, evidence.
use crate::alloc;
use crate::props::{self, Prop};
use crate::rng::{Ch, mix};
use crate::world;
use std::collections::{BTreeMap, HashSet};
use std::io::{BufRead, BufReader, Read, Write};
use std::process::{Child, Command, Stdio};
use std::sync::atomic::{AtomicU64, Ordering::Relaxed};
use std::sync::mpsc;
use std::time::{Duration, Instant};

pub static HASH_SEED: AtomicU64 = AtomicU64::new(0);
const STACK: usize = 8 << 20;
const HANG: Duration = Duration::from_secs(40);

#[derive(Clone, Debug, Default)]
pub struct Outcome {
    pub violations: Vec<(String, String)>,
    pub digest: u64,
    pub events: u64,
    pub counts: BTreeMap<&'static str, u64>,
    pub log: Vec<String>,
    pub rec: Vec<u32>,
    pub allocs: u64,
    pub reused: u64,
}

fn seed_of(seed: u64, prop: &str, i: u64) -> u64 {
    mix(mix(seed ^ world::hash_str(prop)).wrapping_add(mix(i)))
}

pub fn seed_hashes(x: u64) {
    HASH_SEED.store(x, Relaxed);
}

/// One simulated execution, on its own thread, wholly decided by `ch`.
fn run_one(p: &'static Prop, mut ch: Ch, keep_log: bool) -> Outcome {
    std::thread::Builder::new()
        .stack_size(STACK)
        .spawn(move || {
            world::reset(keep_log);
            let hs = ch.below(1 << 16) as u64;
            HASH_SEED.store(hs, Relaxed);
            let reuse = *ch.pick(&[alloc::Reuse::Never, alloc::Reuse::Lifo, alloc::Reuse::Lifo, alloc::Reuse::Random]);
            alloc::reset(mix(hs), reuse);
            (p.run)(&mut ch);
            alloc::set_on(false);
            for v in alloc::take_violations() {
                let sig = format!("memory: {}", v.split(':').next().unwrap_or(""));
                world::violate(sig, v);
            }
            let s = alloc::st();
            let (allocs, reused) = (s.allocs, s.reused);
            let w = world::take();
            Outcome {
                violations: w.violations,
                digest: w.digest,
                events: w.events,
                counts: w.counts,
                log: w.log,
                rec: std::mem::take(&mut ch.rec),
                allocs,
                reused,
            }
        })
        .unwrap()
        .join()
        .unwrap_or_else(|_| {
            eprintln!("HARNESS-ERROR: the harness itself panicked");
            std::process::exit(98)
        })
}

fn arg(a: &[String], i: usize) -> u64 {
    a.get(i).and_then(|s| s.parse().ok()).unwrap_or_else(|| die("bad arguments"))
}

fn die(m: &str) -> ! {
    eprintln!("HARNESS-ERROR: {m}");
    std::process::exit(2)
}

fn esc(s: &str) -> String {
    let mut o = String::new();
    for c in s.chars() {
        match c {
            '"' => o.push_str("\\\""),
            '\\' => o.push_str("\\\\"),
            '\n' => o.push_str("\\n"),
            c if (c as u32) < 32 => o.push_str(&format!("\\u{:04x}", c as u32)),
            c => o.push(c),
        }
    }
    o
}

fn one_line(s: &str) -> String {
    s.replace('\n', "\\n").replace('\r', "\\r")
}

pub fn main() -> i32 {
    let a: Vec<String> = std::env::args().collect();
    let p = |i: usize| -> &'static Prop {
        let id = a.get(i).map(|s| s.as_str()).unwrap_or("");
        props::all().iter().find(|p| p.id == id).unwrap_or_else(|| die("no such property"))
    };
    match a.get(1).map(|s| s.as_str()) {
        Some("list") => {
            for p in props::all() {
                println!("{}", p.id);
            }
            0
        }
        Some("check") => check(p(2)),
        Some("worker") => {
            world::install_hook();
            worker(p(2), arg(&a, 3), arg(&a, 4), arg(&a, 5), arg(&a, 6))
        }
        Some("exec") => {
            world::install_hook();
            exec(p(2), &a[3..])
        }
        Some("probe") => {
            world::install_hook();
            probe(p(2), &a[3])
        }
        Some("replay") => replay(&a[2]),
        Some("text") => {
            world::install_hook();
            let seed = arg(&a, 2);
            let _ = std::thread::Builder::new()
                .stack_size(STACK)
                .spawn(move || {
                    world::reset(false);
                    HASH_SEED.store(7, Relaxed);
                    alloc::reset(7, alloc::Reuse::Never);
                    props::pretty::text(seed);
                })
                .unwrap()
                .join();
            0
        }
        Some("digests") => digests(p(2), arg(&a, 3), arg(&a, 4), arg(&a, 5)),
        _ => die("usage: sim check|worker|exec|probe|replay|digests|list"),
    }
}

/// Prints the digest of many runs, for determinism checks.
fn digests(p: &'static Prop, seed: u64, n: u64, step: u64) -> i32 {
    world::install_hook();
    for i in 0..n {
        let i = i * step;
        let o = run_one(p, Ch::seeded(seed_of(seed, p.id, i)), false);
        println!("{i} {:016x} {} {}", o.digest, o.events, o.rec.len());
    }
    0
}

fn worker(p: &'static Prop, seed: u64, start: u64, step: u64, count: u64) -> i32 {
    let out = std::io::stdout();
    let mut i = start;
    let mut counts: BTreeMap<&'static str, u64> = BTreeMap::new();
    let mut digests: HashSet<u64> = HashSet::new();
    let (mut events, mut allocs, mut reused, mut runs, mut nontrivial) = (0u64, 0u64, 0u64, 0u64, 0u64);
    let mut sample: Vec<String> = Vec::new();
    while i < count {
        {
            let mut o = out.lock();
            writeln!(o, "R {i}").unwrap();
            o.flush().unwrap();
        }
        let keep = sample.len() < 2 && i >= step * 3;
        let o = run_one(p, Ch::seeded(seed_of(seed, p.id, i)), keep);
        runs += 1;
        events += o.events;
        allocs += o.allocs;
        reused += o.reused;
        if o.events >= p.min_events {
            nontrivial += 1;
            digests.insert(o.digest);
        }
        for (k, v) in &o.counts {
            *counts.entry(k).or_insert(0) += v;
        }
        if keep && o.events >= p.min_events {
            let mut l = o.log;
            l.truncate(60);
            sample.push(format!("run {i}: {}", l.join("; ")));
        }
        if let Some((sig, det)) = o.violations.first() {
            println!("V {i}\t{}\t{}", one_line(sig), one_line(det));
        }
        if runs % 512 == 0 || i + step >= count {
            // running totals survive a kill by the supervisor
            let mut s = format!("E {runs} {events} {allocs} {reused} {nontrivial}");
            for (k, v) in &counts {
                s.push_str(&format!("\t{k}={v}"));
            }
            println!("{s}");
            // distinctness is counted by the supervisor, over all workers
            let mut x = String::from("X");
            for d in digests.drain() {
                x.push_str(&format!(" {d:x}"));
            }
            println!("{x}");
        }
        i += step;
    }
    for s in sample {
        println!("S {}", one_line(&s));
    }
    println!("D");
    0
}

/// exec PROP seed SEED IDX OUT | exec PROP choices IN OUT
fn exec(p: &'static Prop, a: &[String]) -> i32 {
    let (mut ch, out) = match a[0].as_str() {
        "seed" => (Ch::seeded(seed_of(arg(a, 1), p.id, arg(a, 2))), &a[3]),
        "choices" => (Ch::replay(read_choices(&a[1])), &a[2]),
        _ => die("exec"),
    };
    let f = std::fs::File::create(out).unwrap_or_else(|_| die("cannot write"));
    ch.stream_to(f);
    let o = run_one(p, ch, true);
    for l in &o.log {
        println!("L {}", one_line(l));
    }
    println!("G {:016x}", o.digest);
    for (s, d) in &o.violations {
        println!("V 0\t{}\t{}", one_line(s), one_line(d));
    }
    println!("D");
    0
}

fn probe(p: &'static Prop, key: &str) -> i32 {
    let Some((_, f)) = p.probes.iter().find(|(k, _)| *k == key) else { die("no such probe") };
    let f = *f;
    std::thread::Builder::new()
        .stack_size(STACK)
        .spawn(move || {
            world::reset(false);
            HASH_SEED.store(7, Relaxed);
            alloc::reset(7, alloc::Reuse::Lifo);
            let mut ch = Ch::replay(Vec::new());
            f(&mut ch);
            for v in alloc::take_violations() {
                world::violate("memory", v);
            }
            let w = world::take();
            for (s, d) in w.violations {
                println!("V 0\t{}\t{}", one_line(&s), one_line(&d));
            }
            println!("D");
        })
        .unwrap()
        .join()
        .map(|_| 0)
        .unwrap_or(98)
}

fn read_choices(path: &str) -> Vec<u32> {
    let b = std::fs::read(path).unwrap_or_else(|_| die("cannot read choices"));
    b.chunks_exact(4).map(|c| u32::from_le_bytes(c.try_into().unwrap())).collect()
}

fn write_choices(path: &str, v: &[u32]) {
    let b: Vec<u8> = v.iter().flat_map(|x| x.to_le_bytes()).collect();
    std::fs::write(path, b).unwrap_or_else(|_| die("cannot write choices"));
}

fn me() -> Command {
    let mut c = Command::new(std::env::current_exe().unwrap());
    c.stdin(Stdio::null()).stdout(Stdio::piped()).stderr(Stdio::piped());
    c
}

/// Result of running a child to its end.
struct Ran {
    lines: Vec<String>,
    crash: Option<(String, String)>,
}

/// How a dead child is described: (class, detail)
fn classify(status: std::process::ExitStatus, stderr: &str) -> (String, String) {
    use std::os::unix::process::ExitStatusExt;
    if let Some(i) = stderr.rfind("FATAL-VIOLATION ") {
        let l = stderr[i + 16..].lines().next().unwrap_or("").to_string();
        return (l.clone(), l);
    }
    if status.code() == Some(2) {
        return ("HARNESS".into(), stderr.to_string());
    }
    if status.code() == Some(98) {
        // the simulator met a state its model says cannot be: never on a tree where the property holds
        return ("state impossible in the model".into(), stderr.lines().rev().take(6).collect::<Vec<_>>().join(" / "));
    }
    let tail: String = stderr.lines().rev().take(3).collect::<Vec<_>>().into_iter().rev().collect::<Vec<_>>().join(" / ");
    if stderr.contains("has overflowed its stack") {
        return ("stack overflow".into(), tail);
    }
    if stderr.contains("panic in a destructor") || stderr.contains("panicked while processing") || stderr.contains("cannot unwind") {
        return ("abort: panic while unwinding".into(), tail);
    }
    match status.signal() {
        Some(11) => ("crash: memory fault (SIGSEGV)".into(), tail),
        Some(7) => ("crash: memory fault (SIGBUS)".into(), tail),
        Some(6) => ("crash: abort (SIGABRT)".into(), tail),
        Some(4) => ("crash: illegal instruction (SIGILL)".into(), tail),
        Some(s) => (format!("crash: signal {s}"), tail),
        None => (format!("crash: exit status {:?}", status.code()), tail),
    }
}

fn finish(mut c: Child, limit: Duration) -> Ran {
    let so = c.stdout.take().unwrap();
    let se = c.stderr.take().unwrap();
    let t1 = std::thread::spawn(move || BufReader::new(so).lines().map_while(Result::ok).collect::<Vec<_>>());
    let t2 = std::thread::spawn(move || {
        let mut s = Vec::new();
        let _ = se.take(1 << 20).read_to_end(&mut s);
        String::from_utf8_lossy(&s).into_owned()
    });
    let t0 = Instant::now();
    let mut hung = false;
    let status = loop {
        if let Some(s) = c.try_wait().unwrap() {
            break s;
        }
        if t0.elapsed() > limit {
            hung = true;
            let _ = c.kill();
            break c.wait().unwrap();
        }
        std::thread::sleep(Duration::from_micros(500));
    };
    let lines = t1.join().unwrap();
    let err = t2.join().unwrap();
    let done = lines.last().is_some_and(|l| l == "D");
    let crash = if hung {
        Some(("no progress: the run hangs".into(), "killed by the supervisor".into()))
    } else if status.success() && done {
        None
    } else {
        Some(classify(status, &err))
    };
    Ran { lines, crash }
}

fn first_violation(r: &Ran) -> Option<(String, String)> {
    if let Some(c) = &r.crash {
        return Some(c.clone());
    }
    r.lines.iter().find(|l| l.starts_with("V ")).map(|l| {
        let mut p = l.splitn(3, '\t').skip(1);
        (p.next().unwrap_or("").to_string(), p.next().unwrap_or("").to_string())
    })
}

struct Execd {
    viol: Option<(String, String)>,
    rec: Vec<u32>,
    log: Vec<String>,
    digest: String,
}

fn run_exec(p: &Prop, args: &[&str], tmp: &str, limit: Duration) -> Execd {
    let out = format!("{tmp}/rec");
    let mut c = me();
    c.arg("exec").arg(p.id).args(args).arg(&out);
    let r = finish(c.spawn().unwrap_or_else(|_| die("spawn")), limit);
    Execd {
        viol: first_violation(&r),
        rec: read_choices(&out),
        log: r.lines.iter().filter_map(|l| l.strip_prefix("L ").map(|s| s.to_string())).collect(),
        digest: r.lines.iter().find_map(|l| l.strip_prefix("G ").map(|s| s.to_string())).unwrap_or_default(),
    }
}

fn class(s: &str) -> String {
    s.chars().filter(|c| !c.is_ascii_digit()).collect()
}

fn minimise(p: &Prop, rec: Vec<u32>, sig: &str, tmp: &str) -> (Vec<u32>, u64) {
    let want = class(sig);
    let t0 = Instant::now();
    let mut best = rec;
    let mut tries = 0u64;
    let inp = format!("{tmp}/in");
    let test = |v: &[u32], tries: &mut u64| -> Option<Vec<u32>> {
        *tries += 1;
        write_choices(&inp, v);
        let e = run_exec(p, &["choices", &inp], tmp, Duration::from_secs(8));
        match e.viol {
            Some((s, _)) if class(&s) == want => {
                let mut r = e.rec;
                while r.last() == Some(&0) {
                    r.pop();
                }
                Some(r)
            }
            _ => None,
        }
    };
    let over = |t: &Instant, n: u64| t.elapsed() > Duration::from_secs(60) || n > 1500;
    if want.contains("no progress") {
        return (best, 0);
    }
    loop {
        let before = best.clone();
        // cut chunks
        let mut size = (best.len() / 2).max(1);
        while size >= 1 && !over(&t0, tries) {
            let mut i = 0;
            while i < best.len() && !over(&t0, tries) {
                let mut v = best.clone();
                v.drain(i..(i + size).min(v.len()));
                match test(&v, &mut tries) {
                    Some(r) if r.len() < best.len() => best = r,
                    _ => i += size,
                }
            }
            if size == 1 {
                break;
            }
            size /= 2;
        }
        // zero and lower values
        let mut i = 0;
        while i < best.len() && !over(&t0, tries) {
            if best[i] != 0 {
                let mut v = best.clone();
                v[i] = 0;
                if let Some(r) = test(&v, &mut tries) {
                    if r.len() <= best.len() {
                        best = r;
                        i += 1;
                        continue;
                    }
                }
                if best[i] > 1 {
                    let mut v = best.clone();
                    v[i] /= 2;
                    if let Some(r) = test(&v, &mut tries) {
                        if r.len() <= best.len() {
                            best = r;
                            continue;
                        }
                    }
                }
            }
            i += 1;
        }
        if best == before || over(&t0, tries) {
            return (best, tries);
        }
    }
}

fn replay(path: &str) -> i32 {
    let text = std::fs::read_to_string(path).unwrap_or_else(|_| die("cannot read the replay file"));
    let get = |k: &str| text.lines().find_map(|l| l.strip_prefix(k)).unwrap_or("").trim().to_string();
    let id = get("property:");
    let Some(p) = props::all().iter().find(|p| p.id == id) else { die("unknown property in the replay file") };
    let tmp = tmpdir();
    if let Some(key) = text.lines().find_map(|l| l.strip_prefix("probe:")) {
        let mut c = me();
        c.arg("probe").arg(p.id).arg(key.trim());
        let r = finish(c.spawn().unwrap_or_else(|_| die("spawn")), HANG);
        let v = first_violation(&r);
        cleanup(&tmp);
        return match v {
            Some((s, d)) => {
                println!("reproduced: {s}: {d}");
                1
            }
            None => {
                println!("not reproduced");
                0
            }
        };
    }
    let v: Vec<u32> = get("choices:").split_whitespace().map(|x| x.parse().unwrap_or_else(|_| die("choices"))).collect();
    let inp = format!("{tmp}/in");
    write_choices(&inp, &v);
    let e = run_exec(p, &["choices", &inp], &tmp, HANG);
    cleanup(&tmp);
    for l in &e.log {
        println!("{l}");
    }
    match e.viol {
        Some((s, d)) => {
            let exact = s == get("violation:") && (get("digest:").is_empty() || e.digest == get("digest:"));
            println!("\n{}: {s}: {d}", if exact { "reproduced exactly" } else { "violated, differently" });
            1
        }
        None => {
            println!("\nnot reproduced");
            0
        }
    }
}

fn tmpdir() -> String {
    let base = std::env::var("SIM_TMP").unwrap_or_else(|_| "/tmp".into());
    let d = format!("{base}/simtmp.{}", std::process::id());
    std::fs::create_dir_all(&d).unwrap_or_else(|_| die("cannot create a scratch directory"));
    d
}
fn cleanup(d: &str) {
    let _ = std::fs::remove_dir_all(d);
}

enum Msg {
    Line(usize, String),
    End(usize),
}

struct Slot {
    child: Child,
    at: u64,
    since: Instant,
    err: Option<std::thread::JoinHandle<String>>,
    done: bool,
    gone: bool,
    stats: Option<(Vec<u64>, BTreeMap<String, u64>)>,
}

fn known_findings(id: &str) -> Vec<(String, String)> {
    let path = format!("{}/known-findings.txt", verif());
    let text = std::fs::read_to_string(path).unwrap_or_default();
    text.lines()
        .filter_map(|l| l.strip_prefix("finding: "))
        .filter_map(|l| {
            let l = l.strip_prefix(&format!("property={id} "))?;
            let l = l.strip_prefix("key=")?;
            let (k, d) = l.split_once(' ')?;
            Some((k.to_string(), d.to_string()))
        })
        .collect()
}

fn verif() -> String {
    std::env::var("SIM_VERIF").unwrap_or_else(|_| "/verif".into())
}

fn check(p: &'static Prop) -> i32 {
    let t0 = Instant::now();
    let seed: u64 = std::env::var("VERIF_SEED").ok().and_then(|s| s.parse().ok()).unwrap_or(1);
    let tier = if std::env::var("VERIF_TIER").as_deref() == Ok("thorough") { "thorough" } else { "quick" };
    let (count, secs) = if tier == "quick" { (p.quick, 90u64) } else { (u64::MAX / 2, p.thorough_secs) };
    let secs = std::env::var("SIM_SECS").ok().and_then(|s| s.parse().ok()).unwrap_or(secs);
    let count = std::env::var("SIM_COUNT").ok().and_then(|s| s.parse().ok()).unwrap_or(count);
    println!("property={} tier={tier} VERIF_SEED={seed}", p.id);
    let tmp = tmpdir();
    let rep_dir = format!("{}/replays", verif());
    let _ = std::fs::create_dir_all(&rep_dir);
    let known = known_findings(p.id);
    let mut viol: Option<(String, String, String)> = None; // sig, detail, replay file

    // the recorded findings first, each from its own exact input
    let mut probes_failed = 0;
    for (key, _) in p.probes {
        let mut c = me();
        c.arg("probe").arg(p.id).arg(key);
        let r = finish(c.spawn().unwrap_or_else(|_| die("spawn")), HANG);
        if let Some((s, d)) = first_violation(&r) {
            if s == "HARNESS" {
                die(&d);
            }
            probes_failed += 1;
            if let Some((_, what)) = known.iter().find(|(k, _)| k == key) {
                println!("KNOWN-FINDING: property={} {what} [{key}: {s}]", p.id);
            } else if viol.is_none() {
                let f = format!("{rep_dir}/{}-{key}.txt", p.id);
                let _ = std::fs::write(&f, format!("property: {}\nprobe: {key}\nviolation: {s}\ndetail: {d}\n", p.id));
                viol = Some((s, d, f));
            }
        }
    }

    let nw = std::env::var("SIM_WORKERS").ok().and_then(|s| s.parse().ok()).unwrap_or(8usize);
    let mut slots: Vec<Slot> = Vec::new();
    let (tx, rx) = mpsc::channel();
    let spawn = |w: usize, start: u64| -> Slot {
        let mut c = me();
        c.arg("worker").arg(p.id).arg(seed.to_string()).arg(start.to_string()).arg(nw.to_string()).arg(count.to_string());
        let mut child = c.spawn().unwrap_or_else(|_| die("spawn"));
        let so = child.stdout.take().unwrap();
        let se = child.stderr.take().unwrap();
        let tx = tx.clone();
        std::thread::spawn(move || {
            for l in BufReader::new(so).lines().map_while(Result::ok) {
                if tx.send(Msg::Line(w, l)).is_err() {
                    return;
                }
            }
            let _ = tx.send(Msg::End(w));
        });
        let err = std::thread::spawn(move || {
            let mut s = Vec::new();
            let _ = se.take(1 << 20).read_to_end(&mut s);
            String::from_utf8_lossy(&s).into_owned()
        });
        Slot { child, at: start, since: Instant::now(), err: Some(err), done: false, gone: false, stats: None }
    };
    if viol.is_none() {
        for w in 0..nw {
            slots.push(spawn(w, w as u64));
        }
    }
    let mut found: Option<(u64, String, String)> = None;
    let mut totals: Vec<u64> = vec![0; 5];
    let mut counts: BTreeMap<String, u64> = BTreeMap::new();
    let mut samples: Vec<String> = Vec::new();
    let mut runs_started = 0u64;
    let mut distinct: HashSet<u64> = HashSet::new();
    while slots.iter().any(|s| !s.gone) {
        match rx.recv_timeout(Duration::from_millis(200)) {
            Ok(Msg::Line(w, l)) => {
                if let Some(i) = l.strip_prefix("R ") {
                    slots[w].at = i.parse().unwrap_or(0);
                    slots[w].since = Instant::now();
                    runs_started += 1;
                } else if let Some(v) = l.strip_prefix("V ") {
                    let mut q = v.splitn(3, '\t');
                    let i: u64 = q.next().unwrap_or("0").parse().unwrap_or(0);
                    let s = q.next().unwrap_or("").to_string();
                    let d = q.next().unwrap_or("").to_string();
                    if found.as_ref().is_none_or(|f| i < f.0) {
                        found = Some((i, s, d));
                    }
                } else if let Some(e) = l.strip_prefix("E ") {
                    let mut q = e.split('\t');
                    let n: Vec<u64> = q.next().unwrap_or("").split(' ').map(|x| x.parse().unwrap_or(0)).collect();
                    let m = q.filter_map(|kv| kv.split_once('=').map(|(k, v)| (k.to_string(), v.parse().unwrap_or(0)))).collect();
                    slots[w].stats = Some((n, m));
                } else if let Some(x) = l.strip_prefix("X ") {
                    if distinct.len() < 30_000_000 {
                        distinct.extend(x.split(' ').filter_map(|h| u64::from_str_radix(h, 16).ok()));
                    }
                } else if let Some(s) = l.strip_prefix("S ") {
                    if samples.len() < 4 {
                        samples.push(s.chars().take(3000).collect());
                    }
                } else if l == "D" {
                    slots[w].done = true;
                }
            }
            Ok(Msg::End(w)) => {
                let st = slots[w].child.wait().unwrap();
                let err = slots[w].err.take().unwrap().join().unwrap();
                slots[w].gone = true;
                if !slots[w].done && found.is_none() && t0.elapsed().as_secs() < secs + 1000 {
                    let (s, d) = classify(st, &err);
                    if s == "HARNESS" {
                        eprintln!("{d}");
                        die("the harness failed");
                    }
                    if !killed_by_us(&st) {
                        let i = slots[w].at;
                        found = Some((i, s, d));
                    }
                }
            }
            Err(_) => {}
        }
        for s in slots.iter_mut().filter(|s| !s.gone) {
            if s.since.elapsed() > HANG && found.is_none() {
                found = Some((s.at, "no progress: the run hangs".into(), "killed by the supervisor".into()));
            }
        }
        if found.is_some() || t0.elapsed().as_secs() >= secs {
            for s in slots.iter_mut().filter(|s| !s.gone) {
                let _ = s.child.kill();
            }
        }
    }
    for s in &slots {
        if let Some((n, m)) = &s.stats {
            for (i, x) in n.iter().enumerate().take(5) {
                totals[i] += x;
            }
            for (k, v) in m {
                *counts.entry(k.clone()).or_insert(0) += v;
            }
        }
    }
    let search_s = t0.elapsed().as_secs_f64();

    let mut shrink = 0;
    if let Some((i, s, d)) = found {
        let e = run_exec(p, &["seed", &seed.to_string(), &i.to_string()], &tmp, HANG + Duration::from_secs(5));
        let f = format!("{rep_dir}/{}-{seed}-{i}.txt", p.id);
        match e.viol {
            None => {
                // seen in a worker, not when alone: still the recorded observation of run i
                let t = format!("property: {}\nseed: {seed}\nrun: {i}\nviolation: {s}\ndetail: {d}\nnote: did not recur when re-run alone\nchoices: {}\n", p.id, join(&e.rec));
                let _ = std::fs::write(&f, t);
                viol = Some((s, d, f));
            }
            Some((s, _)) => {
                let (best, tries) = minimise(p, e.rec, &s, &tmp);
                shrink = tries;
                let inp = format!("{tmp}/in");
                write_choices(&inp, &best);
                let e = run_exec(p, &["choices", &inp], &tmp, HANG);
                let (s, d) = e.viol.unwrap_or((s, d));
                let t = format!(
                    "property: {}\nseed: {seed}\nrun: {i}\nviolation: {s}\ndetail: {d}\ndigest: {}\nchoices: {}\ntrace:\n{}\n",
                    p.id,
                    e.digest,
                    join(&best),
                    e.log.join("\n")
                );
                let _ = std::fs::write(&f, t);
                viol = Some((s, d, f));
            }
        }
    }

    // a sample of runs again, alone, in another process: same seed, same execution
    let (mut redone, mut differ) = (0u64, 0u64);
    if viol.is_none() {
        let one = |n: &str| {
            let mut c = me();
            c.arg("digests").arg(p.id).arg(seed.to_string()).arg(n).arg("37");
            let r = finish(c.spawn().unwrap_or_else(|_| die("spawn")), Duration::from_secs(60));
            r.lines
        };
        let a = one("24");
        let b = one("24");
        redone = a.len() as u64;
        differ = a.iter().zip(b.iter()).filter(|(x, y)| x != y).count() as u64;
        if differ > 0 {
            println!("note: {differ} of {redone} re-run executions differed");
        }
    }
    cleanup(&tmp);

    let wall = t0.elapsed().as_secs_f64();
    let mut ev = String::new();
    let runs = totals[0].max(if viol.is_some() { runs_started } else { 0 });
    let dist = distinct.len();
    let nontrivial = totals[4];
    ev.push_str(&format!(
        "{{\n \"property\": \"{}\",\n \"tier\": \"{tier}\",\n \"seed\": {seed},\n \"level\": \"{}\",\n \"coverage\": {{\n",
        p.id, p.level
    ));
    ev.push_str(&format!("  \"evaluations\": {runs},\n  \"distinct_nontrivial\": {dist},\n  \"rule\": \"{}\",\n", esc(p.rule)));
    ev.push_str(&format!("  \"nontrivial_runs\": {nontrivial},\n  \"runs_per_hour\": {},\n", (runs as f64 / search_s.max(0.001) * 3600.0) as u64));
    ev.push_str(&format!("  \"events\": {},\n  \"simulated_allocations\": {},\n  \"addresses_reused\": {},\n", totals[1], totals[2], totals[3]));
    ev.push_str("  \"simulated_time\": \"the code has no clocks or timers; a run is measured in events\",\n");
    ev.push_str("  \"faults_injected\": {");
    if totals[3] > 0 {
        counts.insert("fault.address_reused".into(), totals[3]);
    }
    ev.push_str(&counts.iter().filter(|(k, _)| k.starts_with("fault.")).map(|(k, v)| format!("\"{}\": {v}", &k[6..])).collect::<Vec<_>>().join(", "));
    ev.push_str("},\n  \"probes_hit\": {");
    ev.push_str(&counts.iter().filter(|(k, _)| !k.starts_with("fault.")).map(|(k, v)| format!("\"{}\": {v}", k.trim_start_matches("probe."))).collect::<Vec<_>>().join(", "));
    ev.push_str("},\n");
    ev.push_str(&format!(
        "  \"distinct_measure\": \"digest of the whole event sequence of a run (steps, arguments, callback and sink interactions, results), each counted once over all workers\",\n  \"real_components\": \"{}\",\n  \"stubbed_components\": \"{}\",\n",
        esc(p.real),
        esc(p.stub)
    ));
    ev.push_str(&format!("  \"determinism_rechecked\": {redone},\n  \"determinism_differences\": {differ},\n  \"minimisation_executions\": {shrink},\n  \"known_findings_still_failing\": {probes_failed},\n"));
    ev.push_str(&format!("  \"samples\": [{}]\n }},\n", samples.iter().map(|s| format!("\"{}\"", esc(s))).collect::<Vec<_>>().join(",\n   ")));
    ev.push_str("  \"assumptions\": [\"sampling: a clean batch is evidence, not proof\", \"user code supplied by the simulator keeps its contracts except where a fault is injected\"],\n");
    ev.push_str(&format!(" \"wall_s\": {wall:.2},\n \"violations\": {}\n}}\n", viol.is_some() as u8));
    let _ = std::fs::create_dir_all(format!("{}/evidence", verif()));
    if std::fs::write(format!("{}/evidence/{}.json", verif(), p.id), ev).is_err() {
        die("cannot write the evidence file");
    }
    println!("{runs} runs, {dist} distinct non-trivial, {} events, {wall:.1} s", totals[1]);
    match viol {
        Some((s, d, f)) => {
            println!("{s}: {d}");
            println!("VIOLATION property={} replay={f}", p.id);
            1
        }
        None => {
            if runs == 0 {
                die("no run was executed");
            }
            0
        }
    }
}

fn killed_by_us(st: &std::process::ExitStatus) -> bool {
    use std::os::unix::process::ExitStatusExt;
    st.signal() == Some(9)
}

fn join(v: &[u32]) -> String {
    v.iter().map(|x| x.to_string()).collect::<Vec<_>>().join(" ")
}
