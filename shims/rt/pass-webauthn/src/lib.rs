#[allow(unused_imports)]
pub use kreivo_deps::pass_webauthn::*;
