#[allow(unused_imports)]
pub use kreivo_deps::frame_executive::*;
