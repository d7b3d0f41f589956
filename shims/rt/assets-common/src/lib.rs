#[allow(unused_imports)]
pub use kreivo_deps::assets_common::*;
