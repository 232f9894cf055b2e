//! Simulated allocator: the global allocator of the simulator process.
//!
//! While a thread is inside code under test (`ON`), every allocation comes from a fixed-address
//! arena and is decided by the run's seed: fresh address, or re-use of a freed block (newest,
//! oldest or a random one of the same layout). Every block has red zones, is poisoned while
//! uninitialised and while free, and is accounted for. Outside, the system allocator is used.
use std::alloc::{GlobalAlloc, Layout, System};
use std::cell::Cell;
use std::sync::atomic::{AtomicBool, AtomicUsize, Ordering::Relaxed};

pub struct SimAlloc;

thread_local! {
    static ON: Cell<bool> = const { Cell::new(false) };
    /// inside the allocator itself
    static BUSY: Cell<bool> = const { Cell::new(false) };
    /// single steps left before this thread is preempted
    pub static STEPS: Cell<i64> = const { Cell::new(0) };
}

/// Called before every allocation and release by code under test (0: nothing).
pub static HOOK: AtomicUsize = AtomicUsize::new(0);

fn hook() {
    let h = HOOK.load(Relaxed);
    if h != 0 {
        unsafe { std::mem::transmute::<usize, fn()>(h)() };
    }
}

/// Makes the processor trap after every instruction from here on (x86-64).
pub fn arm() {
    unsafe { std::arch::asm!("pushfq", "or qword ptr [rsp], 0x100", "popfq") }
}
/// In code under test, outside the allocator.
pub fn steppable() -> bool {
    ON.with(|c| c.get()) && !BUSY.with(|c| c.get())
}
fn rearm() {
    if STEPS.with(|c| c.get()) > 0 && steppable() {
        arm();
    }
}
struct Inside(bool);
impl Inside {
    fn new() -> Inside {
        Inside(BUSY.with(|c| c.replace(true)))
    }
}
impl Drop for Inside {
    fn drop(&mut self) {
        BUSY.with(|c| c.set(self.0));
        rearm();
    }
}

const BASE: usize = 0x2_0000_0000_0;
const CAP: usize = 1 << 30;
const HDR: usize = 64;
const RED: usize = 16;
const MAGIC: u64 = 0x5EED_B10C_A110_CA7E;
const FRESH: u8 = 0xA5;
const DEAD: u8 = 0xDB;
const REDB: u8 = 0x7C;
const MAXBLK: usize = 1 << 22;

#[repr(C)]
struct Hdr {
    magic: u64,
    size: usize,
    align: usize,
    seq: u64,
    live: u64, // 1 live, 2 freed
    _r: [u64; 3],
}

#[derive(Clone, Copy, PartialEq, Debug)]
pub enum Reuse {
    Never,
    Lifo,
    Random,
}

pub struct State {
    ready: bool,
    top: usize,
    blocks: *mut usize,
    nblocks: usize,
    freed: *mut usize,
    nfreed: usize,
    rng: u64,
    pub reuse: Reuse,
    pub allocs: u64,
    pub frees: u64,
    pub reused: u64,
    pub live: usize,
    pub live_bytes: usize,
    pub peak: usize,
    pub total_bytes: usize,
    /// refuse the n-th allocation from now (1-based); 0 = never
    pub fail_at: u64,
    pub fail_sticky: bool,
    pub refused: u64,
    pub limit_one: usize,
    pub limit_total: usize,
    pub step_limit: u64,
}

static mut ST: State = State {
    ready: false,
    top: 0,
    blocks: std::ptr::null_mut(),
    nblocks: 0,
    freed: std::ptr::null_mut(),
    nfreed: 0,
    rng: 1,
    reuse: Reuse::Never,
    allocs: 0,
    frees: 0,
    reused: 0,
    live: 0,
    live_bytes: 0,
    peak: 0,
    total_bytes: 0,
    fail_at: 0,
    fail_sticky: false,
    refused: 0,
    limit_one: usize::MAX,
    limit_total: usize::MAX,
    step_limit: u64::MAX,
};

static LOCK: AtomicBool = AtomicBool::new(false);
pub static NVIOL: AtomicUsize = AtomicUsize::new(0);
static mut VIOL: [(&str, usize, usize); 8] = [("", 0, 0); 8];

fn lock() {
    while LOCK.swap(true, std::sync::atomic::Ordering::Acquire) {
        std::hint::spin_loop();
    }
}
fn unlock() {
    LOCK.store(false, std::sync::atomic::Ordering::Release);
}

#[allow(static_mut_refs)]
pub fn st() -> &'static mut State {
    unsafe { &mut *std::ptr::addr_of_mut!(ST) }
}

fn viol(what: &'static str, a: usize, b: usize) {
    let n = NVIOL.fetch_add(1, Relaxed);
    if n < 8 {
        unsafe { VIOL[n] = (what, a, b) };
    }
}

pub fn take_violations() -> Vec<String> {
    let n = NVIOL.swap(0, Relaxed).min(8);
    (0..n)
        .map(|i| {
            let (w, a, b) = unsafe { VIOL[i] };
            format!("{w} (size {a}, {b})")
        })
        .collect()
}

unsafe extern "C" {
    fn mmap(a: *mut u8, l: usize, p: i32, f: i32, fd: i32, o: i64) -> *mut u8;
    fn madvise(a: *mut u8, l: usize, adv: i32) -> i32;
    fn write(fd: i32, b: *const u8, n: usize) -> isize;
    fn _exit(c: i32) -> !;
}

/// An unrecoverable observation: report it and end this process; the supervisor sees it.
pub fn fatal(what: &str) -> ! {
    set_on(false);
    let m = format_args!("\nFATAL-VIOLATION {what}\n").to_string();
    unsafe {
        write(2, m.as_ptr(), m.len());
        _exit(97)
    }
}

fn init() {
    let s = st();
    unsafe {
        let p = mmap(BASE as *mut u8, CAP, 3, 0x02 | 0x20 | 0x4000 | 0x100000, -1, 0);
        assert!(p as usize == BASE, "cannot map the arena");
        s.blocks = mmap(std::ptr::null_mut(), MAXBLK * 8, 3, 0x02 | 0x20 | 0x4000, -1, 0) as *mut usize;
        s.freed = mmap(std::ptr::null_mut(), MAXBLK * 8, 3, 0x02 | 0x20 | 0x4000, -1, 0) as *mut usize;
    }
    s.top = BASE;
    s.ready = true;
}

/// Memory for a value of the simulator's; out of memory is the standard abort.
pub fn obtain(l: Layout) -> *mut u8 {
    let p = unsafe { std::alloc::alloc(l) };
    if p.is_null() {
        std::alloc::handle_alloc_error(l);
    }
    p
}

/// Starts a run: empty arena, all choices derived from `seed`.
pub fn reset(seed: u64, reuse: Reuse) {
    let s = st();
    if !s.ready {
        init();
    }
    if s.top - BASE > (8 << 20) {
        unsafe { madvise((BASE + (8 << 20)) as *mut u8, s.top - BASE - (8 << 20), 4) };
    }
    s.top = BASE;
    s.nblocks = 0;
    s.nfreed = 0;
    s.rng = seed | 1;
    s.reuse = reuse;
    s.allocs = 0;
    s.frees = 0;
    s.reused = 0;
    s.live = 0;
    s.live_bytes = 0;
    s.peak = 0;
    s.total_bytes = 0;
    s.fail_at = 0;
    s.fail_sticky = false;
    s.refused = 0;
    s.limit_one = usize::MAX;
    s.limit_total = usize::MAX;
    s.step_limit = u64::MAX;
    NVIOL.store(0, Relaxed);
}

pub fn on() -> bool {
    ON.with(|c| c.get())
}
pub fn set_on(v: bool) -> bool {
    let was = ON.with(|c| c.replace(v));
    if v && !was {
        rearm();
    }
    was
}
/// Runs harness code with the system allocator, even when called from code under test.
pub fn off<R>(f: impl FnOnce() -> R) -> R {
    struct G(bool);
    impl Drop for G {
        fn drop(&mut self) {
            set_on(self.0);
        }
    }
    let _g = G(set_on(false));
    f()
}

fn rnd(s: &mut State) -> u64 {
    s.rng ^= s.rng << 13;
    s.rng ^= s.rng >> 7;
    s.rng ^= s.rng << 17;
    s.rng
}

fn hdr(p: usize) -> *mut Hdr {
    (p - HDR - RED) as *mut Hdr
}

unsafe fn filled(p: usize, n: usize, b: u8) -> bool {
    unsafe { std::slice::from_raw_parts(p as *const u8, n) }.iter().all(|x| *x == b)
}

unsafe fn check_red(p: usize, size: usize) -> bool {
    unsafe { filled(p - RED, RED, REDB) && filled(p + size, RED, REDB) }
}

unsafe fn sim_alloc(l: Layout) -> *mut u8 {
    let s = st();
    s.allocs += 1;
    if s.allocs > s.step_limit {
        fatal("no progress: allocation step limit exceeded");
    }
    if s.fail_at != 0 {
        if s.fail_at == 1 {
            s.refused += 1;
            if !s.fail_sticky {
                s.fail_at = 0;
            }
            return std::ptr::null_mut();
        }
        s.fail_at -= 1;
    }
    if l.size() > s.limit_one {
        fatal("unreasonably large allocation for the size of the input");
    }
    s.total_bytes += l.size();
    if s.total_bytes > s.limit_total {
        fatal("memory work out of proportion to the input");
    }
    s.live += 1;
    s.live_bytes += l.size();
    s.peak = s.peak.max(s.live_bytes);
    if s.reuse != Reuse::Never && s.nfreed > 0 {
        let r = rnd(s);
        if s.reuse == Reuse::Lifo || r % 4 != 0 {
            let start = if s.reuse == Reuse::Lifo { 0 } else { (r >> 8) as usize % s.nfreed };
            for k in 0..s.nfreed.min(256) {
                let i = (s.nfreed - 1 + s.nfreed - (start + k) % s.nfreed) % s.nfreed;
                let p = unsafe { *s.freed.add(i) };
                let h = hdr(p);
                let (hs, ha) = unsafe { ((*h).size, (*h).align) };
                if hs == l.size() && ha == l.align() {
                    unsafe {
                        if !filled(p, hs, DEAD) || !check_red(p, hs) {
                            viol("memory-write-after-free: a released block was modified", hs, (*h).seq as usize);
                        }
                        std::ptr::copy(s.freed.add(i + 1), s.freed.add(i), s.nfreed - i - 1);
                        s.nfreed -= 1;
                        (*h).live = 1;
                        (*h).seq = s.allocs;
                        std::ptr::write_bytes(p as *mut u8, FRESH, hs);
                        std::ptr::write_bytes((p - RED) as *mut u8, REDB, RED);
                        std::ptr::write_bytes((p + hs) as *mut u8, REDB, RED);
                    }
                    s.reused += 1;
                    return p as *mut u8;
                }
            }
        }
    }
    let a = l.align().max(16);
    let p = (s.top + HDR + RED + a - 1) & !(a - 1);
    let end = p + l.size() + RED;
    if end > BASE + CAP || s.nblocks >= MAXBLK {
        fatal("simulated memory exhausted");
    }
    s.top = (end + 15) & !15;
    unsafe {
        *s.blocks.add(s.nblocks) = p;
        s.nblocks += 1;
        *hdr(p) = Hdr { magic: MAGIC, size: l.size(), align: l.align(), seq: s.allocs, live: 1, _r: [0; 3] };
        std::ptr::write_bytes((p - RED) as *mut u8, REDB, RED);
        std::ptr::write_bytes(p as *mut u8, FRESH, l.size());
        std::ptr::write_bytes((p + l.size()) as *mut u8, REDB, RED);
    }
    p as *mut u8
}

unsafe fn sim_free(p: usize, l: Layout) {
    let s = st();
    s.frees += 1;
    if p % 16 != 0 || p < BASE + HDR + RED {
        viol("bad-free: address was never allocated", l.size(), 0);
        return;
    }
    let h = hdr(p);
    unsafe {
        if (*h).magic != MAGIC || p >= s.top {
            viol("bad-free: address was never allocated", l.size(), 0);
            return;
        }
        if (*h).live != 1 {
            viol("double-free: block released twice", l.size(), 0);
            return;
        }
        if (*h).size != l.size() || (*h).align != l.align() {
            viol("bad-layout: block released with another size or alignment", (*h).size, l.size());
        }
        let size = (*h).size;
        if !check_red(p, size) {
            viol("out-of-bounds-write: bytes next to a block were modified", size, 0);
        }
        (*h).live = 2;
        std::ptr::write_bytes(p as *mut u8, DEAD, size);
        if s.nfreed < MAXBLK {
            *s.freed.add(s.nfreed) = p;
            s.nfreed += 1;
        }
        s.live -= 1;
        s.live_bytes -= size;
    }
}

unsafe impl GlobalAlloc for SimAlloc {
    unsafe fn alloc(&self, l: Layout) -> *mut u8 {
        if !on() {
            return unsafe { System.alloc(l) };
        }
        hook();
        let _i = Inside::new();
        lock();
        let r = unsafe { sim_alloc(l) };
        unlock();
        r
    }
    unsafe fn dealloc(&self, p: *mut u8, l: Layout) {
        if on() {
            hook();
        }
        let a = p as usize;
        let _i = Inside::new();
        if a >= BASE && a < BASE + CAP {
            lock();
            unsafe { sim_free(a, l) };
            unlock();
        } else if on() && (a < 4096 || a == FRESH_PTR || a == DEAD_PTR) {
            viol("bad-free: address was never allocated", l.size(), 1);
        } else {
            unsafe { System.dealloc(p, l) }
        }
    }
    unsafe fn realloc(&self, p: *mut u8, l: Layout, n: usize) -> *mut u8 {
        let a = p as usize;
        if !on() && !(a >= BASE && a < BASE + CAP) {
            return unsafe { System.realloc(p, l, n) };
        }
        unsafe {
            let nl = Layout::from_size_align_unchecked(n, l.align());
            let q = self.alloc(nl);
            if !q.is_null() {
                std::ptr::copy_nonoverlapping(p, q, l.size().min(n));
                self.dealloc(p, l);
            }
            q
        }
    }
}

const FRESH_PTR: usize = 0xA5A5_A5A5_A5A5_A5A5;
const DEAD_PTR: usize = 0xDBDB_DBDB_DBDB_DBDB;

/// Checks every block at the end of a run; returns (live blocks, their bytes, description).
pub fn audit() -> (usize, usize, String) {
    let s = st();
    let mut n = 0;
    let mut bytes = 0;
    let mut d = String::new();
    for i in 0..s.nblocks {
        unsafe {
            let p = *s.blocks.add(i);
            let h = hdr(p);
            if (*h).magic != MAGIC {
                viol("out-of-bounds-write: block header overwritten", 0, 0);
                continue;
            }
            if !check_red(p, (*h).size) {
                viol("out-of-bounds-write: bytes next to a block were modified", (*h).size, 0);
            }
            if (*h).live == 1 {
                n += 1;
                bytes += (*h).size;
                if n <= 4 {
                    d.push_str(&format!(" [{} bytes, allocation #{}]", (*h).size, (*h).seq));
                }
            } else if !filled(p, (*h).size, DEAD) {
                viol("memory-write-after-free: a released block was modified", (*h).size, (*h).seq as usize);
            }
        }
    }
    (n, bytes, d)
}

/// Is this address inside a released (or never allocated) part of the arena?
pub fn is_dead(p: usize) -> bool {
    if p < BASE || p >= BASE + CAP {
        return false;
    }
    let s = st();
    // binary search over bump order
    let (mut lo, mut hi) = (0usize, s.nblocks);
    while lo < hi {
        let m = (lo + hi) / 2;
        if unsafe { *s.blocks.add(m) } <= p {
            lo = m + 1
        } else {
            hi = m
        }
    }
    if lo == 0 {
        return true;
    }
    let b = unsafe { *s.blocks.add(lo - 1) };
    let h = hdr(b);
    unsafe { (*h).live != 1 || p >= b + (*h).size.max(1) }
}
