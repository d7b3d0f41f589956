#[allow(unused_imports)]
pub use kreivo_deps::cumulus_pallet_parachain_system::*;
pub use kreivo_deps::register_validate_block;
