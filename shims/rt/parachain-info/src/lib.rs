#[allow(unused_imports)]
pub use kreivo_deps::parachain_info::*;
