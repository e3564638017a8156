//! Model checker for the bus1/sys crates.
//!
//! The engine and everything that is shared. The checks are in the binaries,
//! one for each area of the code.

pub mod driver;
pub mod engine;
pub mod mapio;
pub mod memory;
pub mod uncaught;

#[global_allocator]
static ALLOC: memory::Counting = memory::Counting;
