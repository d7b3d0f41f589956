//! S01: the tool that writes the description of a chain. S02: money on the other network.
mod paseo;
mod tool;

use vkit::{Check, Part};

const ASSUMPTIONS: &[&str] = &[
	"the real sources of the tool and of the runtime are compiled, for Paseo and for Kusama, against stand-ins for the framework crates",
	"the description of the live chain on Kusama is not in the repository, and a short one stands in for it",
	"keys are stood in for by hashes, and the raw form of a description by a mark",
];

fn main() {
	vkit::main_with(vec![
		Check {
			id: "S01",
			rule: "a name that is known or nearly so, or a file that can be read",
			assumptions: ASSUMPTIONS,
			parts: vec![
				Box::new(Part::<tool::NameCase> { name: "names", quick: 8_000, thorough: 60_000, strategy: tool::names, check: tool::check_names, sweep: Some(tool::all_names) }),
				Box::new(Part::<tool::FileCase> { name: "files", quick: 20_000, thorough: 150_000, strategy: tool::files, check: tool::check_files, sweep: None }),
			],
		},
		Check {
			id: "S02",
			rule: "both the time and the proof size have a price",
			assumptions: ASSUMPTIONS,
			parts: vec![Box::new(Part::<paseo::PriceCase> { name: "prices", quick: 4_000_000, thorough: 30_000_000, strategy: paseo::prices, check: paseo::check_prices, sweep: None })],
		},
	])
}
