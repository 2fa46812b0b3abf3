//! System calls that bypass the interposed libc entry points.
use std::arch::asm;
use std::sync::atomic::{AtomicU32, Ordering};

#[inline]
pub unsafe fn sys6(n: i64, a: i64, b: i64, c: i64, d: i64, e: i64, f: i64) -> i64 {
    let r: i64;
    asm!("syscall", inlateout("rax") n => r, in("rdi") a, in("rsi") b, in("rdx") c,
         in("r10") d, in("r8") e, in("r9") f, out("rcx") _, out("r11") _, options(nostack));
    r
}

pub fn futex_wait(a: &AtomicU32, val: u32) {
    unsafe {
        sys6(libc::SYS_futex, a as *const _ as i64, (libc::FUTEX_WAIT | libc::FUTEX_PRIVATE_FLAG) as i64, val as i64, 0, 0, 0);
    }
}

pub fn futex_wake(a: &AtomicU32) {
    unsafe {
        sys6(libc::SYS_futex, a as *const _ as i64, (libc::FUTEX_WAKE | libc::FUTEX_PRIVATE_FLAG) as i64, 1, 0, 0, 0);
    }
}

/// A binary semaphore between exactly two parties.
pub struct Gate(AtomicU32);
impl Gate {
    pub const fn new() -> Self {
        Gate(AtomicU32::new(0))
    }
    pub fn open(&self) {
        self.0.store(1, Ordering::Release);
        futex_wake(&self.0);
    }
    pub fn pass(&self) {
        loop {
            if self.0.swap(0, Ordering::Acquire) == 1 {
                return;
            }
            futex_wait(&self.0, 0);
        }
    }
}
