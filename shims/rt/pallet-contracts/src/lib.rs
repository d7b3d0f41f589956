#[allow(unused_imports)]
pub use kreivo_deps::pallet_contracts::*;
