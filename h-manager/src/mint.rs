//! G02: creating memberships.
use crate::parts::{self, Item};
use crate::runtime::*;
use pallet_communities_manager as mgr;
use serde::{Deserialize, Serialize};
use sp_runtime::traits::Dispatchable;
use std::collections::BTreeMap;
use vkit::proptest::{collection::vec, prelude::*};
use vkit::{req, req_eq, Ctx, Verdict};

#[derive(Clone, Debug, Serialize, Deserialize)]
pub struct Op {
	/// 0..: the one who may, nobody, a person, the shopkeeper, a community
	by: u8,
	amount: u16,
	start: u32,
	price: u64,
	/// the n-th change fails
	fault: Option<u16>,
}
#[derive(Clone, Debug, Serialize, Deserialize)]
pub struct Case {
	/// items that exist already, and whether in the same collection
	have: Vec<(u32, bool)>,
	ops: Vec<Op>,
}
pub fn strategy() -> BoxedStrategy<Case> {
	let id = || prop_oneof![3 => 0u32..60, 3 => (0u32..40).prop_map(|d| LAST - d), 1 => 0..=LAST, 1 => (0u32..3).prop_map(|d| LAST + d)];
	let amount = prop_oneof![
		40 => 0u16..20,
		20 => 0u16..70,
		2 => (0u16..6).prop_map(|d| 1027 - d),
		1 => 0u16..=1024,
		1 => any::<u16>(),
	];
	let price = prop_oneof![2 => Just(0u64), 2 => 1u64..100, 1 => Just(u64::MAX), 2 => any::<u64>()];
	let op = (prop_oneof![12 => Just(0u8), 2 => 1u8..6], amount, id(), price, prop_oneof![8 => Just(None), 1 => (0u16..40).prop_map(Some)])
		.prop_map(|(by, amount, start, price, fault)| Op { by, amount, start, price, fault });
	(vec((id(), any::<bool>()), 0..3), vec(op, 1..5)).prop_map(|(have, ops)| Case { have, ops }).boxed()
}
pub fn check(c: &Case, ctx: &mut Ctx) -> Verdict {
	sp_io::storage::reset();
	parts::fail_at(None);
	frame_system::Pallet::<Runtime>::set_block_number(1);
	let mut model: BTreeMap<(Cid, Mid), Item<AccountId>> = BTreeMap::new();
	for (i, same) in &c.have {
		let k = (Cid(if *same { SHELF } else { 1 }), Mid(*i));
		let it = Item { owner: person(3), price: None };
		parts::put_item(k.0, k.1, &it);
		model.insert(k, it);
	}
	let (mut done, mut short, mut undone) = (0u64, 0u64, 0u64);
	for (step, op) in c.ops.iter().enumerate() {
		let origin: OriginCaller = match op.by {
			0 => OriginCaller::system(frame_system::RawOrigin::Root),
			1 => OriginCaller::system(frame_system::RawOrigin::None),
			2 => OriginCaller::system(frame_system::RawOrigin::Signed(person(1))),
			3 => OriginCaller::system(frame_system::RawOrigin::Signed(shopkeeper())),
			4 => CouncilOrigin(0).into(),
			_ => OriginCaller::Communities(pallet_communities::Origin::<Runtime>::new(Cid(SHELF))),
		};
		let what = format!("step {step}: creating {} from {} by {origin:?}", op.amount, op.start);
		let left = (LAST + 1).saturating_sub(op.start).max(1);
		let n = (op.amount as u32).min(left);
		let ids = || (0..n).map(|k| (Cid(SHELF), Mid(op.start + k)));
		let against = if op.by != 0 {
			Some("refused: the caller may not")
		} else if op.amount > 1024 {
			Some("refused: too many at once")
		} else if ids().any(|k| model.contains_key(&k)) {
			Some("refused: one of them exists")
		} else {
			None
		};
		frame_system::Pallet::<Runtime>::reset_events();
		let before = sp_io::storage::snapshot();
		parts::fail_at(op.fault.map(|f| f as u32));
		let call = mgr::Call::<Runtime>::create_memberships { amount: op.amount, starting_at: Mid(op.start), price: op.price as u128 };
		let r = RuntimeCall::from(call).dispatch(origin.into()).map_err(|e| e.error);
		let hit = op.fault.is_some() && !parts::pending();
		parts::fail_at(None);
		let events = frame_system::Pallet::<Runtime>::events();
		frame_system::Pallet::<Runtime>::reset_events();
		if let Err(e) = r {
			req!(against.is_some() || hit, "{what}: refused with {e:?} though nothing stands against it");
			let after = sp_io::storage::snapshot();
			req!(before == after, "{what}: refused with {e:?} but something changed");
			ctx.label(if hit { "refused: a part failed" } else { against.unwrap_or("refused") });
			undone += 1;
			continue;
		}
		req!(!hit, "{what}: done though a part of it failed");
		if let Some(why) = against {
			return Err(format!("{what}: done though it should be {why}"));
		}
		done += (n > 0) as u64;
		short += (n < op.amount as u32) as u64;
		for k in ids() {
			model.insert(k, Item { owner: shopkeeper(), price: Some((op.price as u128, None)) });
		}
		let got: BTreeMap<(Cid, Mid), Item<AccountId>> = parts::items().into_iter().collect();
		if got != model {
			let odd = got
				.iter()
				.find(|(k, v)| model.get(k) != Some(v))
				.map(|x| format!("{x:?} is there"))
				.or_else(|| model.keys().find(|k| !got.contains_key(k)).map(|k| format!("{k:?} is not there")));
			return Err(format!("{what}: {}", odd.unwrap_or_default()));
		}
		let told: Vec<(Mid, u32)> = events
			.iter()
			.filter_map(|e| match &e.event {
				RuntimeEvent::Manager(mgr::Event::MembershipsCreated { starting_at, amount }) => Some((*starting_at, *amount)),
				_ => None,
			})
			.collect();
		req_eq!(told, vec![(Mid(op.start), n)], "{what}: what was announced");
		ctx.label(if n < op.amount as u32 {
			"identifiers ran out"
		} else if n >= 1000 {
			"created a thousand or more"
		} else {
			"created"
		});
	}
	if done > 0 && (short > 0 || undone > 0 || done > 1) {
		ctx.nontrivial(&format!("{c:?}"));
	}
	Ok(())
}
