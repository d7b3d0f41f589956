include!("../vkit/config_items.rs");

fn main() {
	config_items("pallet-communities");
}
