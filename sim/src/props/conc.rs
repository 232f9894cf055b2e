//! S01: operations in progress at the same time, on threads released one at a time.
//!
//! Every task runs on a thread of its own, but only the holder of the turn runs. The turn changes
//! hands at points the run decides: at allocations and releases, at calls of user code, at writes
//! to sinks, before reads and writes of static memory that the code changes (seen through compiler
//! instrumentation), and after any number of single instructions (the processor traps after each,
//! the run counts). At calls of user code and writes another task may also run nested on the
//! same thread. A task blocked on a lock of the code under test loses the turn.
use super::{args, build, form, json, msgp, toml, vals, yaml};
use crate::docs::{self, Value};
use crate::model::{Gen, gen_val};
use crate::rng::Ch;
use crate::sink::{Sink, TextSink};
use crate::world::{self, Act, Caught, audit, count, sut, violate};
use crate::{alloc, ev, native, view};
use std::cell::Cell;
use std::sync::Mutex;
use std::sync::atomic::{AtomicBool, AtomicI32, AtomicU32, AtomicU64, Ordering::SeqCst};

const MAX: usize = 4;
const STACK: usize = 4 << 20;

type Work = Box<dyn Fn() -> String + Send + Sync>;
struct Op {
    name: String,
    work: Work,
    /// the n-th call of user code fails
    plan: Option<(u64, Act)>,
}
impl Op {
    fn perform(&self) -> (String, bool) {
        let (r, fired) = world::task(self.plan, || alloc::off(|| (self.work)()));
        let r = placeless(&r);
        (if fired { format!("{r} (callback failed)") } else { r }, fired)
    }
}

/// Without the addresses an error text may contain.
fn placeless(s: &str) -> String {
    let mut out = String::new();
    let mut rest = s;
    while let Some(i) = rest.find("0x") {
        out += &rest[..i + 2];
        rest = rest[i + 2..].trim_start_matches(|c: char| c.is_ascii_hexdigit());
    }
    out + rest
}

struct Shared {
    ch: *mut Ch,
    gap: usize,
    n: usize,
    budget: i64,
    /// how far apart the changes of turn are
    spread: usize,
    /// operations to be run nested somewhere
    guests: Vec<usize>,
    ops: *const Vec<Op>,
    results: Vec<Option<(String, bool)>>,
    switches: u64,
    nested: u64,
    preempted: u64,
    /// accesses of static memory, and how many to let pass
    accesses: u64,
    mute: usize,
    /// waits for locks, and how many since anything else happened
    waits: u64,
    in_vain: u64,
}
static mut SH: Option<Shared> = None;
static TURN: AtomicU32 = AtomicU32::new(0);
static PROGRESS: AtomicU64 = AtomicU64::new(0);
static DONE: [AtomicBool; MAX] = [const { AtomicBool::new(false) }; MAX];
static WAITING: [AtomicBool; MAX] = [const { AtomicBool::new(false) }; MAX];
static TID: [AtomicI32; MAX] = [const { AtomicI32::new(0) }; MAX];
static STOLEN: AtomicU64 = AtomicU64::new(0);
static LATE: Mutex<Vec<(usize, (String, bool))>> = Mutex::new(Vec::new());

thread_local! {
    static ME: Cell<usize> = const { Cell::new(usize::MAX) };
    static DEPTH: Cell<usize> = const { Cell::new(0) };
    /// this task has a fault plan: nothing runs nested in it
    static ALONE: Cell<bool> = const { Cell::new(false) };
}

/// One system call. This stands in for libc's wrapper, through which the standard library's locks
/// wait: a task that has to wait for a lock passes the turn on instead, and looks again when it
/// is its turn.
#[unsafe(no_mangle)]
pub extern "C" fn syscall(n: i64, a: i64, b: i64, c: i64, d: i64, e: i64, f: i64) -> i64 {
    if n == 202 && matches!(b & 0x7f, 0 | 9) {
        let me = ME.with(|m| m.get());
        if me != usize::MAX && alloc::on() {
            return alloc::off(|| {
                wait(me);
                PROGRESS.fetch_add(1, SeqCst);
                let s = sh();
                s.waits += 1;
                if unsafe { *(a as *const u32) } == c as u32 {
                    s.in_vain += 1;
                    if s.in_vain > 20_000 {
                        alloc::fatal("deadlock: every operation waits for a lock");
                    }
                    switch(me, "lock");
                }
                0
            });
        }
    }
    let r: i64;
    unsafe {
        std::arch::asm!("syscall", inlateout("rax") n => r, in("rdi") a, in("rsi") b, in("rdx") c, in("r10") d, in("r8") e, in("r9") f, lateout("rcx") _, lateout("r11") _);
        if (-4095..0).contains(&r) {
            *__errno_location() = -r as i32;
            return -1;
        }
    }
    r
}

unsafe extern "C" {
    fn sigaction(s: i32, a: *const SigAction, o: *mut u8) -> i32;
    fn __errno_location() -> *mut i32;
}
#[repr(C)]
struct SigAction {
    f: usize,
    mask: [u64; 16],
    flags: i32,
    restorer: usize,
}

#[allow(static_mut_refs)]
fn sh() -> &'static mut Shared {
    unsafe { SH.as_mut().unwrap() }
}

fn futex_wait(v: u32) {
    let ts: [i64; 2] = [0, 1_500_000];
    syscall(202, &raw const TURN as i64, 128, v as i64, ts.as_ptr() as i64, 0, 0);
}
fn hand_to(k: usize) {
    TURN.store(k as u32, SeqCst);
    syscall(202, &raw const TURN as i64, 129, 64, 0, 0, 0);
}

/// Is that thread waiting for something inside the code under test?
fn blocked(k: usize) -> bool {
    let t = TID[k].load(SeqCst);
    let Ok(s) = std::fs::read_to_string(format!("/proc/self/task/{t}/stat")) else { return false };
    s.rsplit(')').next().is_some_and(|x| x.trim_start().starts_with('S'))
}

/// Waits until it is this task's turn.
fn wait(me: usize) {
    if TURN.load(SeqCst) as usize == me {
        return;
    }
    WAITING[me].store(true, SeqCst);
    wait_for(me);
    WAITING[me].store(false, SeqCst);
}
fn wait_for(me: usize) {
    let mut seen = (u32::MAX, 0u64);
    let mut stuck = 0;
    loop {
        let t = TURN.load(SeqCst);
        if t as usize == me {
            return;
        }
        futex_wait(t);
        let h = TURN.load(SeqCst);
        if h as usize == me {
            return;
        }
        // the holder may be waiting for something this task holds
        let now = (h, PROGRESS.load(SeqCst));
        if now != seen {
            seen = now;
            stuck = 0;
            continue;
        }
        let first = (0..MAX).find(|k| *k != h as usize && !DONE[*k].load(SeqCst) && WAITING[*k].load(SeqCst));
        if first != Some(me) {
            continue;
        }
        stuck += 1;
        if h as usize >= MAX || WAITING[h as usize].load(SeqCst) {
            // it has not woken up yet
            continue;
        }
        if (stuck >= 3 && blocked(h as usize) && blocked(h as usize)) || stuck > 700 {
            if TURN.compare_exchange(h, me as u32, SeqCst, SeqCst).is_ok() {
                STOLEN.fetch_add(1, SeqCst);
                return;
            }
        }
    }
}

/// Passes the turn to another task, if there is one, and waits for it to come back.
fn switch(me: usize, at: &str) {
    let s = sh();
    let other: Vec<usize> = (0..s.n).filter(|k| *k != me && !DONE[*k].load(SeqCst)).collect();
    if other.is_empty() {
        return;
    }
    let k = *unsafe { &mut *s.ch }.pick(&other);
    s.switches += 1;
    ev!("{at}: {me} > {k}");
    hand_to(k);
    wait(me);
}

fn point(at: &'static str, nestable: bool) {
    let me = ME.with(|m| m.get());
    if me == usize::MAX || std::thread::panicking() {
        return;
    }
    alloc::off(|| {
        wait(me);
        PROGRESS.fetch_add(1, SeqCst);
        let s = sh();
        s.in_vain = 0;
        if s.gap > 0 {
            s.gap -= 1;
            return;
        }
        let ch = unsafe { &mut *s.ch };
        s.gap = match ch.below(s.spread * 32) {
            0 => 200,
            g => g % s.spread,
        };
        match ch.below(8) {
            0 => {}
            1..=3 => switch(me, at),
            4 | 5 => {
                if nestable && !s.guests.is_empty() && DEPTH.with(|d| d.get()) < 2 && !ALONE.with(|a| a.get()) {
                    let i = ch.below(s.guests.len());
                    let g = s.guests.remove(i);
                    s.nested += 1;
                    ev!("{at}: {g} inside {me}");
                    DEPTH.with(|d| d.set(d.get() + 1));
                    let r = unsafe { &(&*s.ops)[g] }.perform();
                    DEPTH.with(|d| d.set(d.get() - 1));
                    LATE.lock().unwrap_or_else(|e| e.into_inner()).push((g, r));
                } else {
                    switch(me, at);
                }
            }
            _ => {
                let top = *ch.pick(&[16usize, 60, 250, 1000]);
                let k = 1 + ch.below(top) as i64;
                if s.budget > k {
                    s.budget -= k;
                    alloc::STEPS.with(|c| c.set(k));
                } else {
                    switch(me, at);
                }
            }
        }
    })
}

fn at_alloc() {
    point("heap", false);
}
fn at_call(what: &'static str) {
    point(what, true);
}

/// Before static memory that code under test writes is read or written.
#[cfg(feature = "cov")]
fn at_memory() {
    let me = ME.with(|m| m.get());
    if me == usize::MAX || std::thread::panicking() {
        return;
    }
    alloc::off(|| {
        wait(me);
        PROGRESS.fetch_add(1, SeqCst);
        let s = sh();
        s.in_vain = 0;
        s.accesses += 1;
        if s.mute > 0 {
            s.mute -= 1;
            return;
        }
        let ch = unsafe { &mut *s.ch };
        match ch.below(6) {
            0 | 1 => {}
            2 | 3 => switch(me, "memory"),
            4 => {
                s.mute = ch.below(40);
                switch(me, "memory");
            }
            _ => s.mute = ch.below(8),
        }
    })
}

/// After every instruction of a thread that is being stepped.
extern "C" fn trap(_: i32, _: *mut u8, uc: *mut u8) {
    // uc_mcontext.gregs[REG_EFL]
    let efl = unsafe { uc.add(40 + 17 * 8) as *mut u64 };
    let left = alloc::STEPS.with(|c| c.get());
    if left <= 0 || std::thread::panicking() {
        alloc::STEPS.with(|c| c.set(0));
        unsafe { *efl &= !0x100 };
        return;
    }
    if !alloc::steppable() {
        // stepped on when back in code under test
        unsafe { *efl &= !0x100 };
        return;
    }
    alloc::STEPS.with(|c| c.set(left - 1));
    if left > 1 {
        return;
    }
    unsafe { *efl &= !0x100 };
    let me = ME.with(|m| m.get());
    if me == usize::MAX {
        return;
    }
    let e = unsafe { *__errno_location() };
    alloc::off(|| {
        wait(me);
        PROGRESS.fetch_add(1, SeqCst);
        sh().preempted += 1;
        switch(me, "instruction");
    });
    unsafe { *__errno_location() = e };
}

fn install() {
    let mut a = SigAction { f: trap as *const () as usize, mask: [0; 16], flags: 4, restorer: 0 };
    a.mask[0] = 0;
    unsafe { sigaction(5, &a, std::ptr::null_mut()) };
}

/// A value that several tasks look at.
#[derive(Clone, Copy)]
struct Seen(&'static Value);
unsafe impl Send for Seen {}
unsafe impl Sync for Seen {}
impl Seen {
    fn get(&self) -> &'static Value {
        self.0
    }
}

fn outcome<T, E>(r: Result<Result<T, E>, Caught>, ok: impl FnOnce(T) -> String, err: impl FnOnce(E) -> String) -> String {
    match r {
        Ok(Ok(v)) => ok(v),
        Ok(Err(e)) => format!("error {}", err(e)),
        Err(Caught::Injected) => "unwound".into(),
        Err(Caught::Panic(m, l)) => format!("panic {m} at {l}"),
    }
}

fn small() -> Gen {
    Gen { finite: false, max_len: 3, big: false, max_depth: 4, plain_strings: false }
}

struct Stage {
    values: Vec<*mut Value>,
    /// kinds this run is limited to
    family: Option<usize>,
    /// most tasks do the very same
    twins: bool,
    /// the last operation's seed: two tasks may do the very same
    last: Option<(usize, u64)>,
    shared: Vec<(usize, usize, usize)>,
}

impl Stage {
    fn keep(&mut self, v: Value) -> Seen {
        let p = Box::into_raw(Box::new(v));
        self.values.push(p);
        Seen(unsafe { &*p })
    }

    /// a shared value of kind `k` (a registry), already there or new
    fn value(&mut self, k: usize, ch: &mut Ch) -> (usize, Seen) {
        let have: Vec<(usize, usize, usize)> = self.shared.iter().copied().filter(|x| x.0 == k).collect();
        if !have.is_empty() && ch.chance(2, 3) {
            let x = *ch.pick(&have);
            return (x.1, Seen(unsafe { &*self.values[x.2] }));
        }
        let (i, t) = match k {
            0 => {
                let l = docs::json_both();
                let i = ch.below(l.len());
                (i, l[i].t())
            }
            1 => {
                let l = docs::json_write();
                let i = ch.below(l.len());
                (i, l[i].t())
            }
            2 => {
                let l = docs::pretty_docs();
                let i = ch.below(l.len());
                (i, l[i].t())
            }
            3 => {
                let l = docs::mp_both();
                let i = ch.below(l.len());
                (i, l[i].t())
            }
            _ => {
                let l = native::all();
                let i = ch.below(l.len());
                (i, (l[i].ty)())
            }
        };
        let v = gen_val(t, ch, &small());
        let v = Value::new(t, &v);
        let s = self.keep(v);
        self.shared.push((k, i, self.values.len() - 1));
        (i, s)
    }

    fn op(&mut self, ch: &mut Ch) -> Op {
        let kind = match self.family {
            Some(k) if ch.chance(3, 4) => k,
            _ => ch.below(11),
        };
        let mut seed = ch.u64();
        if let Some((k, s)) = self.last {
            if k == kind && ch.chance(if self.twins { 7 } else { 2 }, 8) {
                seed = s;
            }
        }
        self.last = Some((kind, seed));
        let c = &mut Ch::seeded(seed);
        let (name, work): (String, Work) = match kind {
            0 | 1 => {
                let (i, v) = self.value(kind, ch);
                let d = if kind == 0 { &docs::json_both()[i] } else { &docs::json_write()[i] };
                let peek = c.chance(1, 2);
                let faults = c.chance(1, 2);
                (
                    format!("write {} as JSON", d.t().name),
                    Box::new(move || {
                        let mut c = Ch::seeded(seed);
                        let mut none = Ch::replay(vec![]);
                        let mut s = if faults { Sink::drawn(&mut c, 60) } else { Sink::perfect(&mut none) };
                        let v = v.get();
                        let r = sut(|| if peek { facet_json::peek_to_writer(&v.peek(), &mut s) } else { unsafe { (d.json_to_writer)(v.p, &mut s) } });
                        let r = outcome(r, |_| "written".into(), |e| format!("{:?}", e.kind()));
                        format!("{r} {:?}", String::from_utf8_lossy(&s.out))
                    }),
                )
            }
            2 => {
                let (i, v) = self.value(2, ch);
                let d = &docs::pretty_docs()[i];
                let at = if c.chance(1, 3) { c.below(200) } else { usize::MAX };
                let panics = c.chance(1, 3);
                let colors = c.chance(1, 2);
                let plain = c.chance(1, 2);
                (
                    format!("print {}", d.t().name),
                    Box::new(move || {
                        let mut s = TextSink::new(at, true, panics);
                        let v = v.get();
                        let p = || facet_pretty::PrettyPrinter::new().with_colors(colors);
                        let r = sut(|| if plain { unsafe { (d.pretty)(v.p, p(), &mut s) }.map(|_| String::new()) } else { Ok(p().format_peek(v.peek())) });
                        let r = outcome(r, |s| format!("printed {s:?}"), |_| String::new());
                        format!("{r} {:?}", s.out)
                    }),
                )
            }
            3 => {
                let (i, v) = self.value(3, ch);
                let d = &docs::mp_both()[i];
                (
                    format!("write {} as MessagePack", d.t().name),
                    Box::new(move || {
                        let v = v.get();
                        outcome(sut(|| Ok::<_, ()>(unsafe { (d.mp_write)(v.p) })), |b| format!("{b:?}"), |_| String::new())
                    }),
                )
            }
            4 => {
                let (i, v) = self.value(4, ch);
                let n = &native::all()[i];
                let vt = v.get().t.ops.shape.vtable;
                (
                    format!("look at {}", v.get().t.name),
                    Box::new(move || {
                        let v = v.get();
                        let mut out = String::new();
                        if vt.debug.is_some() && n.debug.is_some() {
                            out += &outcome(sut(|| Ok::<_, ()>(native::debug_opt(&v.peek(), 0))), |s| s.clone(), |_| String::new());
                        }
                        if vt.display.is_some() && n.display.is_some() {
                            out += &outcome(sut(|| Ok::<_, ()>(native::display_opt(&v.peek(), 0))), |s| s.clone(), |_| String::new());
                        }
                        if vt.hash.is_some() && n.hash.is_some() {
                            out += &outcome(sut(|| Ok::<_, ()>(vals::erased_hash(v.peek()))), |s| format!("{s:?}"), |_| String::new());
                        }
                        if vt.eq.is_some() && n.eq.is_some() {
                            out += &outcome(sut(|| Ok::<_, ()>(v.peek() == v.peek())), |s| format!("{s:?}"), |_| String::new());
                        }
                        if vt.partial_ord.is_some() && n.pcmp.is_some() {
                            out += &outcome(sut(|| Ok::<_, ()>(facet_reflect::Peek::partial_cmp(&v.peek(), &v.peek()))), |s| format!("{s:?}"), |_| String::new());
                        }
                        if let Ok(Some(x)) = sut(|| view::read(v.peek(), v.t)) {
                            out += &format!("{x:?}");
                        }
                        out
                    }),
                )
            }
            5 => {
                let (d, mut b) = if c.chance(1, 2) { json::document(c) } else { msgp::document(c) };
                let mp = std::str::from_utf8(&b).is_err() || crate::json::parse(&b).is_none();
                if c.chance(1, 3) {
                    docs::damage(c, &mut b, b"{}[]:,\"\\0 ");
                }
                (
                    format!("read {} from {:?}", d.t().name, String::from_utf8_lossy(&b)),
                    Box::new(move || {
                        let r = sut(|| if mp { (d.mp_read)(&b, true) } else { (d.json_read)(&b, true) });
                        outcome(r, |v| format!("{v:?}"), |e| e)
                    }),
                )
            }
            6 => {
                let (d, s) = match c.below(3) {
                    0 => toml::document(c),
                    1 => yaml::document(c),
                    _ => form::document(c),
                };
                let mut b = s.into_bytes();
                if c.chance(1, 3) {
                    docs::damage(c, &mut b, b"=\"[]:- &%\n");
                }
                let s = String::from_utf8_lossy(&b).into_owned();
                (format!("read {} from {s:?}", d.t().name), Box::new(move || outcome(sut(|| (d.read)(&s, true)), |v| format!("{v:?}"), |e| e)))
            }
            7 => {
                let (d, a) = args::line(c);
                (
                    format!("read {} from {a:?}", d.t().name),
                    Box::new(move || {
                        let w: Vec<&str> = a.iter().map(|s| s.as_str()).collect();
                        outcome(sut(|| Ok::<_, ()>((d.read)(&w))), |v| format!("{v:?}"), |_| String::new())
                    }),
                )
            }
            8 => {
                let n = 3 + c.below(10);
                ("operate".into(), Box::new(move || vals::task(&mut Ch::seeded(seed), n)))
            }
            _ => ("build".into(), Box::new(move || build::task(&mut Ch::seeded(seed)))),
        };
        let plan = if ch.chance(1, 6) { Some((1 + ch.below(12) as u64, if ch.chance(1, 3) { Act::Refuse } else { Act::Panic })) } else { None };
        Op { name, work, plan }
    }
}

/// On a fresh thread, with nothing else going on.
fn alone(op: &'static Op) -> (String, bool) {
    let wanted = alloc::on();
    alloc::set_on(false);
    let r = std::thread::Builder::new().stack_size(STACK).spawn(move || op.perform()).unwrap().join().unwrap_or_else(|_| ("harness panicked".into(), true));
    alloc::set_on(wanted);
    r
}

pub fn s01(ch: &mut Ch) {
    alloc::off(|| run(ch));
}

fn run(ch: &mut Ch) {
    install();
    let n = ch.range(2, MAX);
    let family = if ch.chance(1, 2) { Some(ch.below(11)) } else { None };
    let twins = family.is_some() && ch.chance(1, 2);
    let mut st = Stage { twins, values: vec![], family, last: None, shared: vec![] };
    // 1-2 operations per thread, and some to be run nested
    let mut queues: Vec<Vec<usize>> = vec![vec![]; n];
    let mut ops: Vec<Op> = Vec::new();
    for q in queues.iter_mut() {
        for _ in 0..ch.weighted(&[0, 4, 1]) {
            q.push(ops.len());
            ops.push(st.op(ch));
        }
    }
    let mut guests = Vec::new();
    for _ in 0..ch.below(3) {
        let mut o = st.op(ch);
        o.plan = None;
        guests.push(ops.len());
        ops.push(o);
    }
    for (i, o) in ops.iter().enumerate() {
        ev!("{i}: {} {:?}", o.name, o.plan);
    }
    let ops: &'static Vec<Op> = Box::leak(Box::new(ops));
    #[cfg(feature = "cov")]
    crate::cov::reset();
    let before: Vec<(String, bool)> = ops.iter().map(alone).collect();
    if world::violated() {
        // wrong even alone: the other properties' concern
        world::with(|w| w.violations.clear());
        alloc::take_violations();
        count("probe.wrong_even_alone", 1);
        return;
    }
    let truth: Vec<_> = st.values.iter().map(|v| unsafe { (**v).read() }).collect();
    for (i, r) in before.iter().enumerate() {
        ev!("{i} alone: {:x}", world::hash_str(&r.0));
    }

    // together
    let start = ch.below(n);
    let spread = *ch.pick(&[60, 30, 12, 6, 4]);
    let late_guests = guests.clone();
    unsafe {
        SH = Some(Shared {
            ch,
            gap: 0,
            n,
            budget: 3000,
            spread,
            guests,
            ops,
            results: ops.iter().map(|_| None).collect(),
            switches: 0,
            nested: 0,
            preempted: 0,
            accesses: 0,
            mute: 0,
            waits: 0,
            in_vain: 0,
        });
    }
    for k in 0..MAX {
        DONE[k].store(false, SeqCst);
        WAITING[k].store(false, SeqCst);
        TID[k].store(0, SeqCst);
    }
    LATE.lock().unwrap_or_else(|e| e.into_inner()).clear();
    STOLEN.store(0, SeqCst);
    TURN.store(u32::MAX, SeqCst);
    world::with(|w| w.yield_hook = Some(at_call));
    alloc::HOOK.store(at_alloc as *const () as usize, SeqCst);
    #[cfg(feature = "cov")]
    crate::cov::HOOK.store(at_memory as *const () as usize, SeqCst);
    let threads: Vec<_> = queues
        .into_iter()
        .enumerate()
        .map(|(me, q)| {
            std::thread::Builder::new()
                .stack_size(STACK)
                .spawn(move || {
                    TID[me].store(syscall(186, 0, 0, 0, 0, 0, 0) as i32, SeqCst);
                    while TURN.load(SeqCst) == u32::MAX {
                        futex_wait(u32::MAX);
                    }
                    wait(me);
                    for i in q {
                        ALONE.with(|a| a.set(ops[i].plan.is_some()));
                        ME.with(|m| m.set(me));
                        let r = ops[i].perform();
                        ME.with(|m| m.set(usize::MAX));
                        alloc::STEPS.with(|c| c.set(0));
                        wait(me);
                        LATE.lock().unwrap_or_else(|e| e.into_inner()).push((i, r));
                    }
                    DONE[me].store(true, SeqCst);
                    let s = sh();
                    let other: Vec<usize> = (0..s.n).filter(|k| !DONE[*k].load(SeqCst)).collect();
                    if !other.is_empty() {
                        let k = *unsafe { &mut *s.ch }.pick(&other);
                        hand_to(k);
                    }
                })
                .unwrap()
        })
        .collect();
    while (0..n).any(|k| TID[k].load(SeqCst) == 0) {
        std::thread::yield_now();
    }
    hand_to(start);
    for t in threads {
        if t.join().is_err() {
            violate("the harness's own thread panicked", "");
        }
    }
    alloc::HOOK.store(0, SeqCst);
    #[cfg(feature = "cov")]
    crate::cov::HOOK.store(0, SeqCst);
    world::with(|w| w.yield_hook = None);
    let s = sh();
    for (i, r) in LATE.lock().unwrap_or_else(|e| e.into_inner()).drain(..) {
        s.results[i] = Some(r);
    }
    count("probe.switches", s.switches);
    count("fault.preempted_between_instructions", s.preempted);
    count("fault.reentered", s.nested);
    count("probe.static_memory_accesses", s.accesses);
    count("probe.waited_for_a_lock", s.waits);
    if STOLEN.load(SeqCst) > 0 {
        count("probe.turn_taken_away", 1);
    }
    let together = std::mem::take(&mut s.results);
    unsafe { SH = None };
    let mut leaky = before.iter().any(|r| r.1);
    for (i, r) in together.iter().enumerate() {
        let Some(r) = r else {
            if !late_guests.contains(&i) {
                violate("an operation did not finish", ops[i].name.clone());
            }
            continue;
        };
        leaky |= r.1;
        if r.0 != before[i].0 {
            violate("another result than alone", format!("{}: {} instead of {}", ops[i].name, cut(&r.0), cut(&before[i].0)));
        }
    }
    count("probe.operations", ops.len() as u64);
    if !world::violated() {
        for (v, x) in st.values.iter().zip(&truth) {
            let y = unsafe { (**v).read() };
            if format!("{y:?}") != format!("{x:?}") {
                violate("a shared value was changed by reading it", format!("{} became {}", x.short(), y.short()));
            }
        }
        // and nothing is left behind that changes later operations
        for (i, o) in ops.iter().enumerate() {
            let r = alone(o);
            leaky |= r.1;
            if r.0 != before[i].0 && !world::violated() {
                violate("another result than before", format!("{}: {} instead of {}", o.name, cut(&r.0), cut(&before[i].0)));
            }
        }
    }
    drop(unsafe { Box::from_raw(ops as *const _ as *mut Vec<Op>) });
    if world::violated() {
        return;
    }
    for v in st.values {
        drop(unsafe { Box::from_raw(v) });
    }
    audit(!leaky);
}

fn cut(s: &str) -> String {
    if s.len() > 300 { s.chars().take(300).collect::<String>() + "…" } else { s.into() }
}
