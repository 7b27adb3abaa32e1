//! The simulator runtime. It knows nothing about the library under test.
pub mod alloc;
pub mod calls;
pub mod hooks;
pub mod process;
pub mod rng;
pub mod sched;
pub mod shm;
pub mod sites;
pub mod sys;

#[global_allocator]
static GLOBAL: alloc::SimAlloc = alloc::SimAlloc;
