#[allow(unused_imports)]
pub use kreivo_deps::cumulus_pallet_xcmp_queue::*;
