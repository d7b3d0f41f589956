#[allow(unused_imports)]
pub use kreivo_deps::pallet_referenda::*;
pub use kreivo_deps::pallet_referenda::{impl_tracksinfo_get, TrackInfoOf};
