//! The state of one simulated run: violations, event log, fault plan, counters.
use crate::alloc;
use std::any::Any;
use std::cell::{Cell, RefCell};
use std::collections::{BTreeMap, HashMap};
use std::panic::{AssertUnwindSafe, catch_unwind, resume_unwind};
use std::sync::Mutex;

/// Kinds of user code the simulator supplies and can make fail.
#[derive(Clone, Copy, PartialEq, Eq, Hash, Debug, PartialOrd, Ord)]
#[repr(usize)]
pub enum Cb {
    Parse,
    Default,
    Hash,
    Eq,
    Cmp,
    Clone,
    Invariant,
    Debug,
    Display,
}
pub const NCB: usize = 9;
pub const CBS: [Cb; NCB] =
    [Cb::Parse, Cb::Default, Cb::Hash, Cb::Eq, Cb::Cmp, Cb::Clone, Cb::Invariant, Cb::Debug, Cb::Display];

#[derive(Clone, Copy, PartialEq, Eq, Debug)]
pub enum Act {
    Panic,
    Refuse,
}

#[derive(Default)]
pub struct World {
    pub violations: Vec<(String, String)>,
    pub log: Vec<String>,
    pub keep_log: bool,
    pub digest: u64,
    pub events: u64,
    pub counts: BTreeMap<&'static str, u64>,
    pub cb_calls: [u64; NCB],
    pub plan: Vec<(Cb, u64, Act)>,
    pub plan_any: Option<(u64, Act)>,
    pub any_calls: u64,
    pub yield_hook: Option<fn(&'static str)>,
    // tokens
    pub next_id: u64,
    pub alive: HashMap<u64, u32>,
    pub created: u64,
    pub dropped: u64,
    pub zst_alive: i64,
    pub zst_created: u64,
    pub expect_secret: Vec<String>,
    pub invariant_reject: bool,
    pub invariant_seen: u64,
}

thread_local! {
    static FIRED: Cell<u64> = const { Cell::new(0) };
    /// one task's own fault plan: calls so far, the call to fail, how
    static TASK: Cell<Option<(u64, u64, Act)>> = const { Cell::new(None) };
}

/// How many callbacks were made to fail on this thread (in this task).
pub fn fired() -> u64 {
    FIRED.with(|f| f.get())
}
pub fn take_fired() -> bool {
    FIRED.with(|f| f.replace(0)) > 0
}

/// Runs a task with a fault plan of its own (the n-th call of user code fails); returns also
/// whether a fault fired.
pub fn task<R>(plan: Option<(u64, Act)>, f: impl FnOnce() -> R) -> (R, bool) {
    let was = TASK.with(|t| t.replace(Some(plan.map_or((0, 0, Act::Panic), |(n, a)| (0, n, a)))));
    let before = FIRED.with(|f| f.replace(0));
    let r = f();
    TASK.with(|t| t.set(was));
    let fired = FIRED.with(|f| f.replace(before)) > 0;
    (r, fired)
}

/// From here on nothing of this task is made to fail.
pub fn end_of_faults() {
    TASK.with(|t| {
        if let Some((n, _, a)) = t.get() {
            t.set(Some((n, 0, a)));
        }
    })
}

static W: Mutex<Option<Box<World>>> = Mutex::new(None);

pub fn with<R>(f: impl FnOnce(&mut World) -> R) -> R {
    alloc::off(|| {
        let mut g = W.lock().unwrap_or_else(|e| e.into_inner());
        f(g.get_or_insert_with(Default::default))
    })
}

pub fn reset(keep_log: bool) {
    FIRED.with(|f| f.set(0));
    TASK.with(|t| t.set(None));
    with(|w| {
        *w = World { keep_log, digest: 0xcbf29ce484222325, next_id: 1, ..Default::default() };
    });
}

pub fn take() -> World {
    with(|w| std::mem::take(w))
}

fn fnv(h: &mut u64, s: &str) {
    for b in s.bytes() {
        *h ^= b as u64;
        *h = h.wrapping_mul(0x100000001b3);
    }
    *h ^= 0xff;
    *h = h.wrapping_mul(0x100000001b3);
}

pub fn hash_str(s: &str) -> u64 {
    let mut h = 0xcbf29ce484222325;
    fnv(&mut h, s);
    h
}

/// Records an event of the run (part of its digest; kept as text on replay).
pub fn ev(s: impl AsRef<str>) {
    with(|w| {
        let s = s.as_ref();
        fnv(&mut w.digest, s);
        w.events += 1;
        if w.keep_log {
            w.log.push(s.to_string());
        }
    });
}

#[macro_export]
macro_rules! ev {
    ($($t:tt)*) => { $crate::alloc::off(|| $crate::world::ev(format!($($t)*))) };
}

/// Records a violation: `sig` is a short class, `detail` the specifics.
pub fn violate(sig: impl Into<String>, detail: impl Into<String>) {
    alloc::off(|| {
        let (sig, detail) = (sig.into(), detail.into());
        with(|w| {
            if w.keep_log {
                w.log.push(format!("!! {sig}: {detail}"));
            }
            if w.violations.len() < 20 {
                w.violations.push((sig, detail));
            }
        })
    })
}

pub fn count(k: &'static str, n: u64) {
    with(|w| *w.counts.entry(k).or_insert(0) += n);
}

pub fn violated() -> bool {
    alloc::NVIOL.load(std::sync::atomic::Ordering::Relaxed) > 0 || with(|w| !w.violations.is_empty())
}

/// Payload of a panic the simulator injected.
pub struct Injected;

/// A call of user code of kind `k`: fails if the fault plan says so.
pub fn callback(k: Cb) -> Option<Act> {
    let (hook, act) = with(|w| {
        w.cb_calls[k as usize] += 1;
        w.any_calls += 1;
        let n = w.cb_calls[k as usize];
        let mut act = None;
        if let Some(i) = w.plan.iter().position(|(c, m, _)| *c == k && *m == n) {
            act = Some(w.plan[i].2);
        }
        if let Some((m, a)) = w.plan_any {
            if m == w.any_calls {
                act = Some(a);
            }
        }
        if let Some((n, at, a)) = TASK.with(|t| t.get()) {
            act = (n + 1 == at).then_some(a);
            TASK.with(|t| t.set(Some((n + 1, at, a))));
        }
        if act.is_some() {
            FIRED.with(|f| f.set(f.get() + 1));
        }
        (w.yield_hook, act)
    });
    if let Some(h) = hook {
        h("callback");
    }
    if act.is_some() {
        let k2 = match k {
            Cb::Parse => "fault.callback_parse",
            Cb::Default => "fault.callback_default",
            Cb::Hash => "fault.callback_hash",
            Cb::Eq => "fault.callback_eq",
            Cb::Cmp => "fault.callback_cmp",
            Cb::Clone => "fault.callback_clone",
            Cb::Invariant => "fault.callback_invariant",
            Cb::Debug => "fault.callback_debug",
            Cb::Display => "fault.callback_display",
        };
        count(k2, 1);
        ev!("callback {k:?} fails: {:?}", act.unwrap());
    }
    act
}

/// As `callback`, for user code that can only panic.
pub fn callback_may_panic(k: Cb) {
    if callback(k).is_some() && !std::thread::panicking() {
        resume_unwind(Box::new(Injected));
    }
}

thread_local! {
    static LAST_PANIC: RefCell<Option<(String, String)>> = const { RefCell::new(None) };
}

pub fn install_hook() {
    std::panic::set_hook(Box::new(|info| {
        alloc::off(|| {
            let msg = if let Some(s) = info.payload().downcast_ref::<&str>() {
                s.to_string()
            } else if let Some(s) = info.payload().downcast_ref::<String>() {
                s.clone()
            } else {
                "<opaque>".into()
            };
            let loc = info
                .location()
                .map(|l| format!("{}:{}", l.file().trim_start_matches("/repo/"), l.line()))
                .unwrap_or_default();
            if std::env::var_os("SIM_PANICS").is_some() {
                eprintln!("panic: {msg} at {loc}");
            }
            LAST_PANIC.with(|p| *p.borrow_mut() = Some((msg, loc)));
        })
    }));
}

#[derive(Debug, Clone)]
pub enum Caught {
    /// the simulator's own injected failure came through
    Injected,
    /// the code under test panicked: message, location
    Panic(String, String),
}

/// Runs code under test: simulated allocator on, panics caught.
pub fn sut<R>(f: impl FnOnce() -> R) -> Result<R, Caught> {
    let was = alloc::set_on(true);
    let r = catch_unwind(AssertUnwindSafe(f));
    let r = match r {
        Ok(v) => Ok(v),
        Err(p) => {
            let inj = (*p).is::<Injected>();
            drop_payload(p);
            alloc::set_on(false);
            if inj {
                Err(Caught::Injected)
            } else {
                let (m, l) = LAST_PANIC
                    .with(|p| p.borrow_mut().take())
                    .unwrap_or(("<unknown>".into(), "?".into()));
                Err(Caught::Panic(m, l))
            }
        }
    };
    alloc::set_on(was);
    r
}

fn drop_payload(p: Box<dyn Any + Send>) {
    let _ = catch_unwind(AssertUnwindSafe(move || drop(p)));
}

/// As `sut`, where any panic that was not injected is a violation. None if it unwound.
pub fn sut_np<R>(what: &str, f: impl FnOnce() -> R) -> Option<R> {
    match sut(f) {
        Ok(v) => Some(v),
        Err(Caught::Injected) => None,
        Err(Caught::Panic(m, l)) => {
            violate(format!("panic in {what}"), format!("{m} at {l}"));
            None
        }
    }
}

/// Final accounting of a run.
pub fn audit(check_leak: bool) {
    let (n, bytes, d) = alloc::audit();
    for v in alloc::take_violations() {
        violate("memory: ".to_string() + v.split(':').next().unwrap_or(""), v);
    }
    let (alive, zst) = with(|w| (w.alive.clone(), w.zst_alive));
    if !alive.is_empty() {
        let mut v: Vec<_> = alive.into_iter().collect();
        v.sort();
        violate("value never destroyed", format!("{} values (id, label) {:?}", v.len(), &v[..v.len().min(4)]));
    }
    if zst != 0 {
        violate("zero-sized values not destroyed exactly once", format!("balance {zst}"));
    }
    if check_leak && n > 0 {
        violate("memory leak", format!("{n} blocks, {bytes} bytes:{d}"));
    }
}
