#[allow(unused_imports)]
pub use kreivo_deps::parachains_common::*;
