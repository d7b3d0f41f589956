#[allow(unused_imports)]
pub use kreivo_deps::cumulus_primitives_utility::*;
