#[allow(unused_imports)]
pub use kreivo_deps::xcm_executor::*;
