#[allow(unused_imports)]
pub use kreivo_deps::polkadot_parachain_primitives::*;
