//! Deterministic simulator for facet: see /verif/DESIGN.md.
mod alloc;
#[cfg(feature = "cov")]
mod cov;
mod docs;
mod json;
mod model;
mod native;
mod props;
mod rng;
mod runner;
mod sink;
mod tok;
mod uni;
mod view;
mod world;

#[global_allocator]
static GLOBAL: alloc::SimAlloc = alloc::SimAlloc;

/// All randomness of the process (hash seeds) is the run's: this stands in for libc's.
#[unsafe(no_mangle)]
pub extern "C" fn getrandom(buf: *mut u8, len: usize, _flags: u32) -> isize {
    let seed = runner::HASH_SEED.load(std::sync::atomic::Ordering::Relaxed);
    for i in 0..len {
        unsafe { *buf.add(i) = rng::mix(seed.wrapping_add(i as u64)) as u8 };
    }
    len as isize
}

fn main() {
    std::process::exit(runner::main());
}
