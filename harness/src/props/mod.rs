pub mod roundtrip;
pub mod usedef;
pub mod passes;
pub mod callgraph;
pub mod structure;
pub mod convert;
pub mod optimize;
#[cfg(feature = "exec")]
pub mod native;
#[cfg(feature = "exec")]
pub mod wasm;
#[cfg(feature = "rt")]
pub mod runtime;
#[cfg(feature = "exec")]
pub mod data;
#[cfg(feature = "exec")]
pub mod bytes;
#[cfg(feature = "exec")]
pub mod effects;
#[cfg(feature = "exec")]
pub mod console;
