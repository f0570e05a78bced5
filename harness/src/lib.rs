#![cfg_attr(kv_asan, feature(sanitize))]
pub mod alloc;
pub mod engine;
pub mod src;
pub use engine::*;
pub use src::Src;

#[global_allocator]
static GLOBAL: alloc::KvAlloc = alloc::KvAlloc;
