#[allow(unused_imports)]
pub use kreivo_deps::sp_version::*;
