#[allow(unused_imports)]
pub use kreivo_deps::polkadot_runtime_common::*;
pub use kreivo_deps::prod_or_fast;
