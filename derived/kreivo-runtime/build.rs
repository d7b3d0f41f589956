//! The sources include what the real build script leaves.
fn main() {
	let out = std::env::var("OUT_DIR").expect("set by cargo");
	std::fs::write(format!("{out}/wasm_binary.rs"), "pub const WASM_BINARY: Option<&[u8]> = Some(&[0x57]);\n").expect("a writable OUT_DIR");
}
