//! Collaborators of the modules under test: an exact ledger, a scheduler and a preimage store.
//! All of their state lives in the stand-in's store, so storage layers roll it back.
#[doc(hidden)]
pub use {frame_support, sp_runtime};
pub mod kv;
pub mod ledger;
pub mod preimages;
pub mod scheduler;
