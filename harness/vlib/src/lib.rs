//! Shared by the harness crates: random programs, the reference semantics, and the drivers of the real code.
pub mod dynf;
pub mod engine;
pub mod prng;
pub mod prog;
