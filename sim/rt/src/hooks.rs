//! Interposed libc entry points and the coverage callbacks of instrumented code.
use crate::raw::sys6;
use crate::sched;
use std::sync::atomic::{AtomicU64, Ordering};

pub static CLOCK_READS: AtomicU64 = AtomicU64::new(0);
pub static RANDOM_READS: AtomicU64 = AtomicU64::new(0);
pub static HASH_SEED: AtomicU64 = AtomicU64::new(0x5eed);
pub static FUTEX_WAITS: AtomicU64 = AtomicU64::new(0);

fn ret(r: i64) -> i64 {
    if r < 0 && r > -4096 {
        unsafe { *libc::__errno_location() = -r as i32 };
        -1
    } else {
        r
    }
}

#[no_mangle]
pub unsafe extern "C" fn syscall(n: i64, a: i64, b: i64, c: i64, d: i64, e: i64, f: i64) -> i64 {
    if n == libc::SYS_futex && sched::is_sim_thread() {
        let op = (b as i32) & !(libc::FUTEX_PRIVATE_FLAG | libc::FUTEX_CLOCK_REALTIME);
        match op {
            libc::FUTEX_WAIT | libc::FUTEX_WAIT_BITSET => {
                FUTEX_WAITS.fetch_add(1, Ordering::Relaxed);
                let bits = if op == libc::FUTEX_WAIT { !0 } else { f as u32 };
                let deadline = if d == 0 {
                    None
                } else {
                    let ts = &*(d as *const libc::timespec);
                    let t = ts.tv_sec as u64 * 1_000_000_000 + ts.tv_nsec as u64;
                    Some(if op == libc::FUTEX_WAIT { t + sched::now_ns() } else { t })
                };
                if std::ptr::read_volatile(a as *const u32) != c as u32 {
                    return ret(-(libc::EAGAIN as i64));
                }
                return ret(if sched::block(a as usize, bits, deadline) { 0 } else { -(libc::ETIMEDOUT as i64) });
            }
            libc::FUTEX_WAKE | libc::FUTEX_WAKE_BITSET => {
                let bits = if op == libc::FUTEX_WAKE { !0 } else { f as u32 };
                return sched::wake(a as usize, c as i32 as i64, bits);
            }
            _ => {}
        }
    }
    if n == libc::SYS_getrandom {
        return getrandom(a as *mut u8, b as usize, c as u32) as i64;
    }
    ret(sys6(n, a, b, c, d, e, f))
}

#[no_mangle]
pub unsafe extern "C" fn getrandom(buf: *mut u8, len: usize, _flags: u32) -> isize {
    let n = RANDOM_READS.fetch_add(1, Ordering::Relaxed);
    let who = if sched::is_sim_thread() { sched::number() + 1 } else { n << 8 };
    let mut r = crate::rng::Rng::new(HASH_SEED.load(Ordering::Relaxed) ^ crate::rng::mix(who));
    for i in 0..len {
        *buf.add(i) = r.next() as u8;
    }
    len as isize
}

#[no_mangle]
pub unsafe extern "C" fn sched_yield() -> i32 {
    if sched::is_sim_thread() {
        sched::yield_hint();
        0
    } else {
        ret(sys6(libc::SYS_sched_yield, 0, 0, 0, 0, 0, 0)) as i32
    }
}

#[no_mangle]
pub unsafe extern "C" fn clock_gettime(clk: i32, ts: *mut libc::timespec) -> i32 {
    if sched::is_sim_thread() {
        CLOCK_READS.fetch_add(1, Ordering::Relaxed);
        let t = sched::now_ns();
        (*ts).tv_sec = (t / 1_000_000_000) as i64;
        (*ts).tv_nsec = (t % 1_000_000_000) as i64;
        0
    } else {
        ret(sys6(libc::SYS_clock_gettime, clk as i64, ts as i64, 0, 0, 0, 0)) as i32
    }
}

#[no_mangle]
pub unsafe extern "C" fn nanosleep(req: *const libc::timespec, rem: *mut libc::timespec) -> i32 {
    clock_nanosleep(libc::CLOCK_MONOTONIC, 0, req, rem)
}

#[no_mangle]
pub unsafe extern "C" fn clock_nanosleep(clk: i32, flags: i32, req: *const libc::timespec, rem: *mut libc::timespec) -> i32 {
    if sched::is_sim_thread() {
        let t = (*req).tv_sec as u64 * 1_000_000_000 + (*req).tv_nsec as u64;
        let dl = if flags & libc::TIMER_ABSTIME != 0 { t } else { t + sched::now_ns() };
        sched::sleep(dl);
        0
    } else {
        ret(sys6(libc::SYS_clock_nanosleep, clk as i64, flags as i64, req as i64, rem as i64, 0, 0)) as i32
    }
}

pub const MAX_EDGES: usize = 1 << 20;
/// Bitmap of edges reached, one byte each; in memory shared with the driver.
pub static mut EDGE_HITS: *mut u8 = std::ptr::null_mut();
static mut N_EDGES: u32 = 0;

#[no_mangle]
pub unsafe extern "C" fn __sanitizer_cov_trace_pc_guard_init(mut a: *mut u32, b: *mut u32) {
    if a == b || *a != 0 {
        return;
    }
    while a < b {
        if (N_EDGES as usize) < MAX_EDGES - 1 {
            N_EDGES += 1;
        }
        *a = N_EDGES;
        a = a.add(1);
    }
}

pub fn n_edges() -> u32 {
    unsafe { N_EDGES }
}

#[no_mangle]
pub unsafe extern "C" fn __sanitizer_cov_trace_pc_guard(g: *mut u32) {
    let id = *g;
    if sched::step(id) {
        let p = EDGE_HITS;
        if !p.is_null() {
            *p.add(id as usize) = 1;
        }
    }
}

macro_rules! access {
    ($($n:ident)*) => { $(
        #[no_mangle]
        pub extern "C" fn $n(_: *const u8) { sched::step(0xACCE55); }
    )* }
}
access!(__sanitizer_cov_load1 __sanitizer_cov_load2 __sanitizer_cov_load4 __sanitizer_cov_load8 __sanitizer_cov_load16
        __sanitizer_cov_store1 __sanitizer_cov_store2 __sanitizer_cov_store4 __sanitizer_cov_store8 __sanitizer_cov_store16);
