#[allow(unused_imports)]
pub use kreivo_deps::frame_system_rpc_runtime_api::*;
