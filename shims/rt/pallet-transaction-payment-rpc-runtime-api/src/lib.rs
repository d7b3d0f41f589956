#[allow(unused_imports)]
pub use kreivo_deps::pallet_transaction_payment_rpc_runtime_api::*;
