#[allow(unused_imports)]
pub use kreivo_deps::polkadot_core_primitives::*;
