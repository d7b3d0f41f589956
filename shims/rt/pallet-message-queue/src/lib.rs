#[allow(unused_imports)]
pub use kreivo_deps::pallet_message_queue::*;
