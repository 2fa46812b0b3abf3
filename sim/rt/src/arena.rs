//! Simulated memory: a fixed-address arena with seeded placement.
use crate::rng::Rng;
use std::alloc::{GlobalAlloc, Layout, System};
use std::cell::UnsafeCell;

pub const BASE: usize = 0x1000_0000_0000;
pub const SIZE: usize = 1 << 40;
const SMALL: usize = BASE + (SIZE / 2);
/// Far memory, for blocks that agree in more than 20 address bits.
const FAR: usize = 0x2000_0000_0000;
const FAR_SIZE: usize = 1 << 44;
/// So many blocks are placed that way (each may cost a page of real memory).
const SMALL_MAX: usize = 100_000;
const CYCLE: usize = 256;
/// More live memory than this counts as memory exhausted.
const MAX_LIVE: i64 = 1 << 30;
/// Once this much has been handed out, freed blocks are used again whatever the placement.
const FRESH_BUDGET: usize = 400 << 20;

#[derive(Clone, Copy, Debug, PartialEq)]
pub enum Place {
    /// Freed blocks are handed out again at once, last in first out.
    Lifo,
    /// No address is ever used twice.
    Fresh,
    /// Small blocks all agree in their low `k` address bits; never reused.
    LowBits(u32),
    /// Seeded gaps between blocks, seeded reuse.
    Gaps(u64),
    /// Like `LowBits`, over the far part of the address space.
    Wide(u32),
}

pub struct Arena {
    ready: bool,
    pub place: Place,
    bump: usize,
    small: usize,
    far: usize,
    free: [usize; 48],
    rng: Rng,
    pub live: i64,
    pub live_bytes: i64,
    pub allocs: u64,
    pub reused: u64,
}

struct Cell_(UnsafeCell<Arena>);
unsafe impl Sync for Cell_ {}
static A: Cell_ = Cell_(UnsafeCell::new(Arena {
    ready: false,
    place: Place::Lifo,
    bump: BASE + 4096,
    small: SMALL,
    far: 0,
    free: [0; 48],
    rng: Rng::new(1),
    live: 0,
    live_bytes: 0,
    allocs: 0,
    reused: 0,
}));

/// Only the thread that holds the simulation token may call this.
#[allow(clippy::mut_from_ref)]
pub fn arena() -> &'static mut Arena {
    unsafe { &mut *A.0.get() }
}

pub fn reserve() -> bool {
    unsafe {
        let p = libc::mmap(
            BASE as *mut _,
            SIZE,
            libc::PROT_READ | libc::PROT_WRITE,
            libc::MAP_PRIVATE | libc::MAP_ANONYMOUS | libc::MAP_NORESERVE | libc::MAP_FIXED_NOREPLACE,
            -1,
            0,
        );
        let q = libc::mmap(
            FAR as *mut _,
            FAR_SIZE,
            libc::PROT_READ | libc::PROT_WRITE,
            libc::MAP_PRIVATE | libc::MAP_ANONYMOUS | libc::MAP_NORESERVE | libc::MAP_FIXED_NOREPLACE,
            -1,
            0,
        );
        let ok = p as usize == BASE && q as usize == FAR;
        arena().ready = ok;
        ok
    }
}

fn class(l: &Layout) -> usize {
    let n = l.size().max(l.align()).max(16).next_power_of_two();
    n.trailing_zeros() as usize
}

impl Arena {
    pub fn setup(&mut self, place: Place) {
        self.place = place;
        self.rng = Rng::new(match place {
            Place::Gaps(s) => s,
            _ => 7,
        });
    }

    fn low_bits(&self) -> u32 {
        match self.place {
            Place::LowBits(k) => k.min(20),
            _ => 0,
        }
    }

    unsafe fn take(&mut self, l: Layout) -> *mut u8 {
        let c = class(&l);
        self.allocs += 1;
        self.live += 1;
        self.live_bytes += l.size() as i64;
        let sz = 1usize << c;
        let reuse = match self.place {
            Place::Lifo => true,
            Place::Gaps(_) => self.rng.below(2) == 0,
            _ => self.bump > BASE + FRESH_BUDGET,
        };
        if self.live_bytes > MAX_LIVE {
            crate::sched::fatal("memory", "simulated memory exhausted");
        }
        let p = if reuse && self.free[c] != 0 {
            let p = self.free[c];
            self.free[c] = *(p as *const usize);
            self.reused += 1;
            p
        } else if let (Place::LowBits(k), true) = (self.place, l.size() <= 8 && self.small < SMALL + (SMALL_MAX << self.low_bits())) {
            let p = self.small;
            self.small += 1usize << k;
            p
        } else if let (Place::Wide(k), true, true) = (self.place, l.size() <= 8, self.far < FAR_SIZE >> 4) {
            // Round and round: neighbours in time are a multiple of 2^k apart, and
            // every `CYCLE` blocks the low bits move on by 16.
            let n = self.far;
            self.far += 1;
            let slots = (FAR_SIZE >> k).min(CYCLE);
            FAR + ((n % slots) << k) + n / slots * 16
        } else {
            if let (Place::Gaps(_), true) = (self.place, self.bump < BASE + FRESH_BUDGET) {
                self.bump += 16 * self.rng.below(64) as usize;
            }
            let a = l.align().max(16);
            let p = (self.bump + a - 1) & !(a - 1);
            self.bump = p + sz;
            if self.bump > SMALL {
                crate::sched::fatal("memory", "simulated address space exhausted");
            }
            p
        };
        std::ptr::write_bytes(p as *mut u8, 0xA5, l.size());
        p as *mut u8
    }

    unsafe fn give(&mut self, p: *mut u8, l: Layout) {
        let c = class(&l);
        self.live -= 1;
        self.live_bytes -= l.size() as i64;
        std::ptr::write_bytes(p, 0xDD, l.size());
        if p as usize >= SMALL && (p as usize) < BASE + SIZE || p as usize >= FAR {
            return;
        }
        *(p as *mut usize) = self.free[c];
        self.free[c] = p as usize;
    }
}

pub struct SimAlloc;

unsafe impl GlobalAlloc for SimAlloc {
    unsafe fn alloc(&self, l: Layout) -> *mut u8 {
        if crate::sched::in_sim() {
            crate::sched::step(0xA110C);
            let a = arena();
            if a.ready {
                return a.take(l);
            }
        }
        System.alloc(l)
    }
    unsafe fn dealloc(&self, p: *mut u8, l: Layout) {
        let a = p as usize;
        if (BASE..BASE + SIZE).contains(&a) || (FAR..FAR + FAR_SIZE).contains(&a) {
            arena().give(p, l)
        } else {
            System.dealloc(p, l)
        }
    }
}
