#[allow(unused_imports)]
pub use kreivo_deps::fc_traits_authn::*;
pub use kreivo_deps::composite_authenticator;
