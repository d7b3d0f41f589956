//! C01..C10: the communities module.
mod case;
mod direct;
mod exec;
mod members;
mod polls;
mod probe;
mod runtime;

use case::*;
use vkit::{Check, Ctx, Part, Verdict};

fn run(c: &Case, ctx: &mut Ctx, id: &'static str, counts: fn(&exec::Stats) -> bool) -> Verdict {
	let mut w = exec::World::new(c);
	let prelude = exec::World::prelude(c);
	for (n, op) in prelude.iter().chain(&c.ops).enumerate() {
		if n == prelude.len() {
			// Only what the history itself does is counted.
			w.stats = Default::default();
		}
		let found = w.step(op);
		if let Some(v) = judge(found, ctx, id, || if n < prelude.len() { "setting up".into() } else { format!("step {}", n - prelude.len()) }) {
			return v;
		}
	}
	let found = w.last_look();
	if let Some(v) = judge(found, ctx, id, || "last look".into()) {
		return v;
	}
	let s = &w.stats;
	if counts(s) {
		ctx.nontrivial(&format!("{c:?}"));
	}
	ctx.label_n("communities created", s.created);
	ctx.label_n("handed over", s.handed_over);
	ctx.label_n("administrators asked who have a community", s.taken_admin);
	ctx.label_n("operations refused", s.refused);
	ctx.label_n("operations by callers without a community", s.stray);
	ctx.label_n("operations aimed at another community", s.across);
	ctx.label_n("members added", s.members);
	ctx.label_n("members removed", s.removed);
	ctx.label_n("ranks changed", s.ranks);
	ctx.label_n("decision methods set", s.methods);
	ctx.label_n("votes cast", s.votes);
	ctx.label_n("votes replaced", s.replaced);
	ctx.label_n("votes taken back", s.unvoted);
	ctx.label_n("votes refused", s.vote_refused);
	ctx.label_n("votes with an amount", s.amount_votes);
	ctx.label_n("votes with a rank other than one", s.ranked_votes);
	ctx.label_n("votes at or above the largest weight", s.limit_votes);
	ctx.label_n("votes by accounts with several locks", s.two_locks);
	ctx.label_n("unlocked", s.unlocked);
	ctx.label_n("calls run as the community", s.dispatched);
	ctx.label_n("injected failures hit", s.faults_hit);
	ctx.label_n("announcements", s.announced);
	Ok(())
}
fn judge(found: Vec<exec::Finding>, ctx: &mut Ctx, id: &'static str, at: impl Fn() -> String) -> Option<Verdict> {
	let mut elsewhere = false;
	for f in found {
		// Recorded findings are followed by the model, so the history can go on.
		if let Some(k) = f.known {
			if f.tags.contains(&id) && !ctx.is_known(k) {
				return Some(Err(format!("{}: {}", at(), f.what)));
			}
			continue;
		}
		if f.tags.contains(&id) {
			return Some(Err(format!("{}: {}", at(), f.what)));
		}
		elsewhere = true;
	}
	// Something that only speaks against other properties: nothing more can be said of this history.
	elsewhere.then(|| {
		ctx.label("given up: another property is in question");
		Ok(())
	})
}

const ASSUMPTIONS: &[&str] = &[
	"the module's real source is compiled against stand-ins for the framework crates (storage with transactional calls, dispatch, origins, polls, membership manager, asset ledger)",
	"the membership manager does what its interface says; a community's account is never a member of another community",
	"disagreements that only concern another property end the history without a verdict",
];

macro_rules! check {
	($id:literal, $n:literal, $max:literal, $mix:expr, $rule:literal, $counts:expr $(, $part:expr)*) => {
		Check {
			id: $id,
			rule: $rule,
			assumptions: ASSUMPTIONS,
			parts: vec![
				Box::new(Part::<Case> {
					name: "histories",
					quick: $n,
					thorough: $n * 12,
					strategy: || history($mix, $max),
					check: |c, ctx| run(c, ctx, $id, $counts),
					sweep: None,
				}),
				$(Box::new($part)),*
			],
		}
	};
}

fn main() {
	const ADMIN: Mix = Mix { admin: 60, member: 8, method: 6, vote: 0, unvote: 0, unlock: 0, dispatch: 8, polls: 0, around: 10, stray: 25, amounts: 40 };
	const REACH: Mix = Mix { admin: 14, member: 30, method: 16, vote: 6, unvote: 2, unlock: 2, dispatch: 12, polls: 2, around: 10, stray: 50, amounts: 40 };
	const MEMBERS: Mix = Mix { admin: 4, member: 70, method: 2, vote: 4, unvote: 0, unlock: 0, dispatch: 2, polls: 0, around: 14, stray: 15, amounts: 30 };
	const TALLY: Mix = Mix { admin: 0, member: 10, method: 5, vote: 50, unvote: 16, unlock: 3, dispatch: 0, polls: 6, around: 10, stray: 5, amounts: 45 };
	const WEIGHT: Mix = Mix { admin: 0, member: 10, method: 10, vote: 60, unvote: 4, unlock: 0, dispatch: 0, polls: 6, around: 10, stray: 5, amounts: 55 };
	const LOCKS: Mix = Mix { admin: 0, member: 8, method: 6, vote: 46, unvote: 12, unlock: 14, dispatch: 0, polls: 14, around: 8, stray: 5, amounts: 85 };
	const ACTS: Mix = Mix { admin: 20, member: 4, method: 2, vote: 0, unvote: 0, unlock: 0, dispatch: 50, polls: 0, around: 8, stray: 20, amounts: 30 };
	const EVEN: Mix = Mix { admin: 20, member: 25, method: 8, vote: 25, unvote: 8, unlock: 4, dispatch: 6, polls: 6, around: 10, stray: 15, amounts: 45 };
	vkit::main_with(vec![
		check!("C01", 120_000, 24, ADMIN, "a history in which a community was created or handed over and an origin that already administers one was asked", |s| s.created + s.handed_over > 0 && s.taken_admin > 0),
		check!("C02", 120_000, 24, REACH, "a history in which an operation was tried by a caller without a community and one was aimed at another community", |s| s.stray > 0 && s.across > 0),
		check!("C03", 120_000, 24, MEMBERS, "a history in which a member was added or removed and a rank changed", |s| s.members + s.removed > 0 && s.ranks > 0),
		check!("C04", 120_000, 28, TALLY, "a history in which a vote was cast and one replaced or taken back", |s| s.votes > 0 && s.replaced + s.unvoted > 0),
		check!("C05", 120_000, 24, WEIGHT, "a history in which a vote was accepted and one refused", |s| s.votes > 0 && s.vote_refused > 0),
		check!("C06", 120_000, 24, WEIGHT, "a history in which a vote with an amount or a rank other than one was cast", |s| s.amount_votes + s.ranked_votes > 0),
		check!("C07", 60_000, 24, TALLY, "a history in which votes were cast; or a tally with ayes and nays, or with bare ayes and an electorate", |s| s.votes > 1,
			Part::<direct::Fraction> { name: "fractions", quick: 400_000, thorough: 4_800_000, strategy: direct::fraction, check: direct::check_fraction, sweep: None }),
		check!("C08", 120_000, 28, LOCKS, "a history in which a vote with an amount was cast and one taken back, replaced or unlocked", |s| s.amount_votes > 0 && s.unvoted + s.replaced + s.unlocked > 0),
		check!("C09", 120_000, 20, ACTS, "a history in which a call was run as the community; or two different communities", |s| s.dispatched > 0,
			Part::<direct::Pair> { name: "accounts", quick: 400_000, thorough: 4_800_000, strategy: direct::pair, check: direct::check_pair, sweep: None }),
		check!("C11", 120_000, 24, EVEN, "a history in which something was announced and an operation refused", |s| s.announced > 0 && s.refused > 0),
		Check {
			id: "C10",
			rule: "every voice, location and origin",
			assumptions: ASSUMPTIONS,
			parts: vec![Box::new(Part::<direct::Voice> {
				name: "voices",
				quick: 1_000_000,
				thorough: 12_000_000,
				strategy: direct::voice,
				check: direct::check_voice,
				sweep: None,
			})],
		},
	])
}
