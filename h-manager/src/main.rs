//! G01, G02: the communities manager.
#[path = "../../h-communities/src/members.rs"]
#[allow(dead_code)]
mod members;
mod mint;
mod parts;
#[path = "../../h-communities/src/polls.rs"]
#[allow(dead_code)]
mod polls;
mod register;
mod runtime;

use vkit::{Check, Part};

const ASSUMPTIONS: &[&str] = &[
	"the real sources of the manager and of the communities module are compiled against stand-ins for the framework crates (storage with transactional calls, dispatch, origins, asset ledger)",
	"collections, items, tracks and the collective do what their interfaces say or fail without effect",
];

fn main() {
	vkit::main_with(vec![
		Check {
			id: "G01",
			rule: "a history in which a registration was done and another was refused",
			assumptions: ASSUMPTIONS,
			parts: vec![Box::new(Part::<register::Case> {
				name: "histories",
				quick: 200_000,
				thorough: 2_400_000,
				strategy: register::strategy,
				check: register::check,
				sweep: None,
			})],
		},
		Check {
			id: "G02",
			rule: "a history in which memberships were created and either another creation followed, identifiers ran out, or a creation was refused",
			assumptions: ASSUMPTIONS,
			parts: vec![Box::new(Part::<mint::Case> {
				name: "histories",
				quick: 400_000,
				thorough: 4_800_000,
				strategy: mint::strategy,
				check: mint::check,
				sweep: None,
			})],
		},
	])
}
