//! Stand-ins for the crates the runtime is put together from, one module each.
pub mod gov;
pub mod messages;
pub mod money;
pub mod plain;
pub mod prims;

pub use gov::*;
pub use messages::*;
pub use money::*;
pub use plain::*;
pub use prims::*;
