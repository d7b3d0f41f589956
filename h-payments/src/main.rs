//! P01..P11: the payments module.
mod case;
mod exec;
mod runtime;

use case::*;
use vkit::{proptest::prelude::*, Check, Ctx, Part, Verdict};

fn run(c: &Case, ctx: &mut Ctx, id: &'static str, counts: fn(&exec::Stats) -> bool) -> Verdict {
	let mut w = exec::World::new(c);
	for (n, op) in c.ops.iter().enumerate() {
		let found = w.step(op);
		if let Some(f) = found.iter().find(|f| f.tags.contains(&id)) {
			return Err(format!("step {n}: {}", f.what));
		}
		// Something that only speaks against other properties: nothing more can be said of this history.
		if !found.is_empty() {
			ctx.label("given up: another property is in question");
			return Ok(());
		}
	}
	let s = &w.stats;
	if counts(s) {
		ctx.nontrivial(&format!("{c:?}"));
	}
	ctx.label_n("payments created", s.pays);
	ctx.label_n("payments requested", s.requests);
	ctx.label_n("released", s.released);
	ctx.label_n("accepted", s.accepted);
	ctx.label_n("cancelled", s.cancelled);
	ctx.label_n("refund accepted by the beneficiary", s.refunded);
	ctx.label_n("refunded at the deadline", s.auto_refunded);
	ctx.label_n("disputed", s.disputed);
	ctx.label_n("resolved", s.resolved);
	ctx.label_n("resolved with fees of both kinds", s.resolved_mixed);
	ctx.label_n("refused operations", s.refused);
	ctx.label_n("operations by somebody else", s.wrong_party);
	ctx.label_n("operations out of turn", s.wrong_state);
	ctx.label_n("identifiers used again", s.collisions);
	ctx.label_n("requests replaced", s.replaced_requests);
	ctx.label_n("injected failures hit", s.faults_hit);
	ctx.label_n("disputes too late", s.late_disputes);
	Ok(())
}

const ASSUMPTIONS: &[&str] = &[
	"the module's real source is compiled against stand-ins for the framework crates (storage with transactional calls, dispatch, origins, scheduler, asset ledger)",
	"the ledger is exact: no dust is removed when an account falls below the minimum",
	"disagreements that only concern another property end the history without a verdict",
];

macro_rules! check {
	($id:literal, $n:literal, $max:literal, $mix:expr, $rule:literal, $counts:expr) => {
		Check {
			id: $id,
			rule: $rule,
			assumptions: ASSUMPTIONS,
			parts: vec![Box::new(Part::<Case> {
				name: "histories",
				quick: $n,
				thorough: $n * 12,
				strategy: || history($mix, $max),
				check: |c, ctx| run(c, ctx, $id, $counts),
				sweep: None,
			})],
		}
	};
}

fn main() {
	const EVEN: Mix = Mix { pay: 18, request: 6, act: 22, next: 36, time: 8, trouble: 10 };
	const STRAY: Mix = Mix { pay: 18, request: 8, act: 46, next: 20, time: 6, trouble: 2 };
	const PATHS: Mix = Mix { pay: 20, request: 8, act: 8, next: 48, time: 8, trouble: 8 };
	const DISPUTES: Mix = Mix { pay: 22, request: 1, act: 6, next: 56, time: 5, trouble: 10 };
	const TIME: Mix = Mix { pay: 20, request: 1, act: 14, next: 32, time: 24, trouble: 6 };
	const TROUBLE: Mix = Mix { pay: 20, request: 6, act: 12, next: 36, time: 8, trouble: 18 };
	const IDS: Mix = Mix { pay: 30, request: 22, act: 10, next: 28, time: 8, trouble: 2 };
	const ASKS: Mix = Mix { pay: 8, request: 24, act: 34, next: 20, time: 6, trouble: 8 };
	vkit::main_with(vec![
		check!("P01", 300_000, 24, TROUBLE, "a history in which money moved and at least one operation was refused", |s| s.pays + s.accepted > 0 && s.refused > 0),
		check!("P02", 300_000, 24, EVEN, "a history in which two payments were open at once and one was ended", |s| s.open_at_once >= 2
			&& s.released + s.resolved + s.cancelled + s.refunded + s.auto_refunded > 0),
		check!("P03", 300_000, 20, PATHS, "a history in which a payment with fees was released or accepted", |s| s.settled_with_fees > 0),
		check!("P04", 300_000, 24, STRAY, "a history in which an operation was tried out of turn on a known payment", |s| s.wrong_state > 0),
		check!("P05", 300_000, 24, STRAY, "a history in which an operation was tried by somebody it is not open to", |s| s.wrong_party > 0),
		check!("P06", 300_000, 24, TIME, "a history in which a refund completed at its deadline or was disputed", |s| s.auto_refunded + s.disputed + s.late_disputes > 0),
		check!("P07", 300_000, 20, DISPUTES, "a history in which a dispute was resolved", |s| s.resolved > 0),
		check!("P08", 300_000, 20, PATHS, "a history in which a payment was cancelled or refunded", |s| s.cancelled + s.refunded + s.auto_refunded > 0),
		check!("P09", 300_000, 20, ASKS, "a history in which a payment was requested and an operation tried on the request", |s| s.requests > 0 && s.on_requests > 0),
		check!("P10", 300_000, 24, IDS, "a history in which an identifier was used again", |s| s.collisions > 0),
		check!("P11", 300_000, 24, EVEN, "a history in which a payment was created or requested and something else happened to one", |s| s.pays + s.requests > 0
			&& s.released + s.accepted + s.resolved + s.cancelled + s.refunded + s.auto_refunded + s.disputed > 0),
	])
}
