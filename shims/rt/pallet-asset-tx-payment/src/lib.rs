#[allow(unused_imports)]
pub use kreivo_deps::pallet_asset_tx_payment::*;
