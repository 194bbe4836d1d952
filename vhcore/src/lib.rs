#![allow(static_mut_refs)]
#![allow(dead_code)]
pub mod alloc;
pub mod elem;
pub mod engine;
pub use alloc::{arm, pause, st, Plan};
pub use elem::*;
pub use engine::*;
pub mod vecs;
pub mod kv;
#[cfg(all(feature = "hash", not(feature = "btree")))]
pub mod hashes;
#[cfg(feature = "btree")]
pub mod world;
#[cfg(feature = "btree")]
pub mod sets;
#[cfg(feature = "btree")]
pub mod tall;
#[cfg(feature = "btree")]
pub mod tallset;
pub mod iters;
pub mod giant;
pub use fc;

#[cfg(not(feature = "foreign"))]
#[global_allocator]
static GLOBAL: alloc::VAlloc = alloc::VAlloc;
