//! A01..A05: the common crate.
mod assets;
mod ids;

fn main() {
	let mut checks = ids::checks();
	checks.extend(assets::checks());
	vkit::main_with(checks)
}
