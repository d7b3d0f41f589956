include!("../vkit/config_items.rs");

fn main() {
	config_items("pallet-communities");
	config_items("pallet-communities-manager");
}
