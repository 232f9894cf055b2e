//! Every load and store of static memory, seen through the compiler's own instrumentation
//! (`-sanitizer-coverage-trace-loads` and `-stores`): the places where operations running at the
//! same time can get in each other's way.
use crate::alloc;
use std::cell::Cell;
use std::sync::atomic::{AtomicU8, AtomicUsize, Ordering::Relaxed};

unsafe extern "C" {
    static __data_start: u8;
    static _end: u8;
}

std::arch::global_asm!(
    r#"
.macro cov_hook n
.globl __sanitizer_cov_load\n
__sanitizer_cov_load\n:
    lea rax, [rip + __data_start]
    cmp rdi, rax
    jb 1f
    lea rax, [rip + _end]
    cmp rdi, rax
    jae 1f
    xor esi, esi
    jmp {seen}
1:  ret
.globl __sanitizer_cov_store\n
__sanitizer_cov_store\n:
    lea rax, [rip + __data_start]
    cmp rdi, rax
    jb 1f
    lea rax, [rip + _end]
    cmp rdi, rax
    jae 1f
    mov esi, 1
    jmp {seen}
1:  ret
.endm
cov_hook 1
cov_hook 2
cov_hook 4
cov_hook 8
cov_hook 16
"#,
    seen = sym seen
);

thread_local! {
    static IN: Cell<bool> = const { Cell::new(false) };
}
const N: usize = 1 << 16;
/// which words code under test has written in this run
static WRITTEN: [AtomicU8; N] = [const { AtomicU8::new(0) }; N];
/// what happens before such an access (0: nothing)
pub static HOOK: AtomicUsize = AtomicUsize::new(0);

pub fn reset() {
    for w in &WRITTEN {
        if w.load(Relaxed) != 0 {
            w.store(0, Relaxed);
        }
    }
}

extern "C" fn seen(at: usize, store: u32) {
    if IN.with(|i| i.replace(true)) {
        return;
    }
    if alloc::steppable() {
        let k = (at - &raw const __data_start as usize) / 8;
        let known = k >= N || WRITTEN[k].load(Relaxed) != 0;
        if store == 1 && !known {
            WRITTEN[k].store(1, Relaxed);
        }
        let h = HOOK.load(Relaxed);
        if h != 0 && (known || store == 1) {
            unsafe { std::mem::transmute::<usize, fn()>(h)() };
        }
    }
    IN.with(|i| i.set(false));
}
