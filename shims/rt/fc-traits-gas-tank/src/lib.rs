#[allow(unused_imports)]
pub use kreivo_deps::fc_traits_gas_tank::*;
