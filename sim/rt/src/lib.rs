//! Simulation runtime: who runs, where memory lives, what time it is.
pub mod arena;
pub mod hooks;
pub mod raw;
pub mod rng;
pub mod sched;

#[global_allocator]
static GLOBAL: arena::SimAlloc = arena::SimAlloc;
