// Included by the build scripts of the harnesses that configure a module themselves. What a module asks
// for in its `Config` decides what it is given, so that one that no longer asks for something is not refused.
fn config_items(module: &str) {
	let manifest = format!("../derived/{module}/Cargo.toml");
	println!("cargo:rerun-if-changed={manifest}");
	let text = std::fs::read_to_string(&manifest).expect("manifest");
	let lib = text.split("path = \"").nth(1).and_then(|x| x.split('"').next()).expect("path");
	let dir = std::path::Path::new(lib).parent().expect("directory");
	println!("cargo:rerun-if-changed={}", dir.display());
	let name = module.replace('-', "_");
	let mut todo = vec![dir.to_path_buf()];
	while let Some(p) = todo.pop() {
		if p.is_dir() {
			todo.extend(std::fs::read_dir(&p).expect("directory").map(|e| e.expect("entry").path()));
			continue;
		}
		if p.extension().map_or(true, |e| e != "rs") {
			continue;
		}
		let Ok(text) = std::fs::read_to_string(&p) else { continue };
		let words: Vec<&str> = text.split_whitespace().collect();
		for w in words.windows(3).filter(|w| w[0] == "type") {
			let item: String = w[1].chars().take_while(|c| c.is_alphanumeric() || *c == '_').collect();
			// An item that is asked for, rather than given.
			if w[1][item.len()..].starts_with(':') || w[2].starts_with(':') {
				println!("cargo:rustc-cfg={name}=\"{item}\"");
			}
		}
	}
}
