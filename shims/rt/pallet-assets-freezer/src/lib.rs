#[allow(unused_imports)]
pub use kreivo_deps::pallet_assets_freezer::*;
