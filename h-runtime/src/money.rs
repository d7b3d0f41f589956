//! R01, R02, R09, R15: what payments, weights and transactions cost and who gets it.
use crate::world::*;
use kreivo_deps::{pallet_asset_tx_payment, pallet_transaction_payment};
use kreivo_runtime::*;
use pallet_payments::{FeeHandler as _, PaymentId as _};
use serde::{Deserialize, Serialize};
use std::collections::BTreeMap;
use virto_common::{FungibleAssetLocation, NetworkId};
use vkit::proptest::{collection::vec, prelude::*};
use vkit::{req, req_eq, Ctx, Verdict};
use vmock::ledger;

pub fn asset_n(n: u8) -> FungibleAssetLocation {
	match n % 4 {
		0 => FungibleAssetLocation::Here(n as u32 / 4),
		1 => FungibleAssetLocation::External { network: NetworkId::Polkadot, child: None },
		2 => FungibleAssetLocation::External { network: NetworkId::Kusama, child: None },
		_ => FungibleAssetLocation::External { network: NetworkId::Ethereum { chain_id: n as u64 / 4 }, child: None },
	}
}

/// The whole percentage of an amount, rounded down.
pub fn share(percent: u128, amount: u128) -> u128 {
	amount / 100 * percent + amount % 100 * percent / 100
}
pub fn schedule(percent: u128, who: &AccountId, amount: u128, min: u128) -> u128 {
	if community_of(who).is_some() {
		0
	} else {
		share(percent, amount).max(min)
	}
}

// ---- R01

#[derive(Clone, Debug, Serialize, Deserialize)]
pub struct FeeCase {
	asset: u8,
	/// the asset's minimum balance, if it exists
	min: Option<u64>,
	sender: Acc,
	beneficiary: Acc,
	amount: u128,
	remark: Option<Vec<u8>>,
}
pub fn amount() -> BoxedStrategy<u128> {
	prop_oneof![3 => 0u128..2_000, 3 => (0u128..200, 0u128..100).prop_map(|(a, b)| a * 100 + b), 4 => vkit::edgy_u128(), 2 => any::<u64>().prop_map(u128::from)].boxed()
}
pub fn fees() -> BoxedStrategy<FeeCase> {
	let min = prop_oneof![1 => Just(None), 6 => prop_oneof![Just(1u64), 0u64..100, any::<u32>().prop_map(u64::from), any::<u64>()].prop_map(Some)];
	(any::<u8>(), min, acc(), acc(), amount(), prop_oneof![Just(None), vec(any::<u8>(), 0..50).prop_map(Some)])
		.prop_map(|(asset, min, sender, beneficiary, amount, remark)| FeeCase { asset, min, sender, beneficiary, amount, remark })
		.boxed()
}
pub fn check_fees(c: &FeeCase, cx: &mut Ctx) -> Verdict {
	fresh();
	let asset = asset_n(c.asset);
	if let Some(min) = c.min {
		ledger::set_asset(&asset, &ledger::Asset { issuance: 0, min: min as u128 });
	}
	let (s, b) = (c.sender.account(), c.beneficiary.account());
	let f = <Runtime as pallet_payments::Config>::FeeHandler::apply_fees(&asset, &s, &b, &c.amount, c.remark.as_deref());
	let min = c.min.unwrap_or(0) as u128;
	for (what, who, percent, fees) in [("sender", &s, 1, &f.sender_pays), ("beneficiary", &b, 3, &f.beneficiary_pays)] {
		let due = schedule(percent, who, c.amount, min);
		let mut paid = 0u128;
		for (to, fee, in_disputes) in fees.iter() {
			if *fee == 0 {
				continue;
			}
			req!(*to == treasury(), "{what} fee of {fee} goes to {to:?}, not to the treasury");
			req!(*in_disputes, "{what} fee of {fee} is not due in disputes");
			paid += fee;
		}
		req_eq!(paid, due, "the {what} {who:?} pays {paid} on {}, not {due}", c.amount);
	}
	let spared = community_of(&s).is_some() || community_of(&b).is_some();
	cx.label(if spared { "a community is a party" } else { "no community is a party" });
	cx.label(if share(1, c.amount) < min { "the minimum applies" } else { "the percentage applies" });
	let odd = |a: &Acc| !matches!(a, Acc::User(_) | Acc::Raw(_));
	if odd(&c.sender) || odd(&c.beneficiary) || share(3, c.amount) <= min {
		cx.nontrivial(&(c.asset, c.min, &c.sender, &c.beneficiary, c.amount));
	}
	Ok(())
}

// ---- R02

#[derive(Clone, Debug, Serialize, Deserialize)]
pub struct IdCase(Vec<(Step, Acc, Acc)>);
#[derive(Clone, Debug, Serialize, Deserialize, Hash)]
pub enum Step {
	Next(u32),
	Extrinsic(u16),
	Outside,
	Jump(u32, u16),
}
pub fn ids() -> BoxedStrategy<IdCase> {
	let idx = || prop_oneof![4 => 0u16..4, 2 => (0u8..16).prop_map(|b| 1u16 << b), 1 => any::<u16>(), 1 => Just(u16::MAX), 1 => (0u16..4).prop_map(|b| b << 8)];
	let step = prop_oneof![
		3 => prop_oneof![4 => 1u32..3, 1 => Just(256u32), 1 => Just(65_536), 1 => (0u32..31).prop_map(|b| 1 << b)].prop_map(Step::Next),
		4 => idx().prop_map(Step::Extrinsic),
		1 => Just(Step::Outside),
		2 => (prop_oneof![any::<u32>(), 0u32..4, (0u8..32).prop_map(|b| 1u32 << b)], idx()).prop_map(|(b, i)| Step::Jump(b, i)),
	];
	vec((step, acc(), acc()), 2..10).prop_map(IdCase).boxed()
}
pub fn check_ids(c: &IdCase, cx: &mut Ctx) -> Verdict {
	fresh();
	let mut idx = Some(0u32);
	let mut block = 1u32;
	let mut seen = BTreeMap::<u64, (u32, u32, [u8; 2])>::new();
	let mut keys = std::collections::BTreeSet::new();
	for (step, sender, beneficiary) in &c.0 {
		match step {
			Step::Next(n) => {
				block = block.wrapping_add(*n);
				idx = Some(0)
			}
			Step::Extrinsic(i) => idx = Some(*i as u32),
			Step::Outside => idx = None,
			Step::Jump(b, i) => {
				block = *b;
				idx = Some(*i as u32)
			}
		}
		System::set_block_number(block);
		match idx {
			Some(i) => System::set_extrinsic_index(i),
			None => frame_system::ExtrinsicIndex::<Runtime>::kill(),
		}
		let (s, b) = (sender.account(), beneficiary.account());
		let id = <Runtime as pallet_payments::Config>::PaymentId::next(&s, &b);
		let Some(i) = idx else {
			req!(id.is_none(), "outside of an extrinsic {id:?} was issued");
			cx.label("outside of an extrinsic");
			continue;
		};
		let Some(id) = id else { return Err(format!("no identifier in block {block}, extrinsic {i}")) };
		req_eq!(id.block_number(), block, "{id:?} names block {}, not {block}", id.block_number());
		req_eq!(id.extrinsic_index(), i, "{id:?} names extrinsic {}, not {i}", id.extrinsic_index());
		let bytes: [u8; 32] = b.into();
		let key = (block, i, [bytes[0], bytes[1]]);
		let n: u64 = id.into();
		if let Some(other) = seen.insert(n, key) {
			req!(other == key, "{id:?} stands both for {other:?} and for {key:?} (block, extrinsic, beneficiary's first bytes)");
		}
		keys.insert(key);
	}
	if keys.len() > 1 {
		cx.nontrivial(&keys);
	}
	Ok(())
}

// ---- R09

#[derive(Clone, Debug, Serialize, Deserialize)]
pub struct WeightCase {
	time: u64,
	proof: u64,
	more_time: u64,
	more_proof: u64,
	length: u32,
}
/// A cent is the hundredth part of the thirtieth part of the token, which has twelve decimals.
pub const CENT: u128 = 1_000_000_000_000 / 30 / 100;
pub const MILLICENT: u128 = CENT / 1_000;
pub fn weights() -> BoxedStrategy<WeightCase> {
	let w = || prop_oneof![1 => Just(0u64), 3 => 0u64..3_000_000_000_000, 2 => 0u64..50_000_000, 2 => vkit::edgy_u64(), 2 => 0u64..20_000];
	(w(), w(), w(), w(), prop_oneof![0u32..10_000, any::<u32>()])
		.prop_map(|(time, proof, more_time, more_proof, length)| WeightCase { time, proof, more_time, more_proof, length })
		.boxed()
}
pub fn check_weights(c: &WeightCase, cx: &mut Ctx) -> Verdict {
	use frame_support::weights::{constants::ExtrinsicBaseWeight, Weight};
	fresh();
	let fee = |t, p| Runtime::api_query_weight_to_fee(Weight::from_parts(t, p));
	// The exact price as a fraction: a base extrinsic costs a hundredth of a cent, ten kilobytes a cent.
	let base = ExtrinsicBaseWeight::get().ref_time() as u128;
	let near = |got: u128, units: u64, per: u128| {
		let exact = (units as u128) * CENT / per;
		let slack = units as u128 / 1_000_000_000 + 1;
		got.abs_diff(exact) <= slack
	};
	let (time, proof) = (fee(c.time, 0), fee(0, c.proof));
	req!(near(time, c.time, 100 * base), "time {} costs {time}", c.time);
	req!(near(proof, c.proof, 10_000), "proof {} costs {proof}", c.proof);
	req_eq!(fee(c.time, c.proof), time.max(proof), "the fee of time {} and proof {} is not the greater of {time} and {proof}", c.time, c.proof);
	req_eq!(fee(0, 0), 0, "no weight has a fee");
	let (t, p) = (c.time.saturating_add(c.more_time), c.proof.saturating_add(c.more_proof));
	for (t2, p2) in [(t, c.proof), (c.time, p), (t, p)] {
		req!(fee(t2, p2) >= fee(c.time, c.proof), "the fee falls from ({}, {}) to ({t2}, {p2})", c.time, c.proof);
	}
	let l = Runtime::api_query_length_to_fee(c.length);
	req_eq!(l, c.length as u128 * 10 * MILLICENT, "length {} costs {l}", c.length);
	req_eq!(least(), CENT / 10, "what an account must hold");
	// A hundredth of the relay chain's: two thousand cents an item, a tenth of a cent a byte.
	let (items, bytes) = (c.more_time as u32, c.more_proof as u32);
	let deposit = (items as u128 * 2_000 * CENT + bytes as u128 * 100 * MILLICENT) / 100;
	req_eq!(constants::currency::deposit(items, bytes), deposit, "the deposit for {items} items and {bytes} bytes");
	cx.label(if time > proof { "time decides" } else { "proof decides" });
	if time > 0 && proof > 0 {
		cx.nontrivial(&(c.time, c.proof, c.more_time, c.more_proof));
	}
	Ok(())
}

// ---- R15

#[derive(Clone, Debug, Serialize, Deserialize)]
pub struct ChargeCase {
	who: Acc,
	author: Option<Acc>,
	treasury: u64,
	/// in an asset with this minimum balance, or in the native token
	asset: Option<(u8, u32)>,
	funds: u64,
	author_has: u64,
	fee: u64,
	tip: u32,
	/// how much of the fee was really due, in 256ths
	due: u8,
}
pub fn charges() -> BoxedStrategy<ChargeCase> {
	let fee = || prop_oneof![1 => Just(0u64), 3 => 0u64..1_000, 4 => 0u64..10_000_000_000, 1 => 0u64..u64::MAX / 4];
	let who = || prop_oneof![6 => (0u8..4).prop_map(Acc::User), 1 => acc()];
	(
		(who(), prop_oneof![1 => Just(None), 4 => who().prop_map(Some)]),
		(prop_oneof![2 => Just(0u64), 3 => 0u64..10_000_000_000], prop_oneof![1 => Just(None), 1 => (any::<u8>(), prop_oneof![1u32..10, 1u32..1_000_000_000]).prop_map(Some)]),
		(prop_oneof![4 => 1_000_000_000_000u64..u64::MAX / 2, 1 => fee()], prop_oneof![Just(0u64), any::<u32>().prop_map(u64::from)]),
		(fee(), prop_oneof![2 => Just(0u32), 1 => 0u32..1_000, 1 => any::<u32>()], prop_oneof![Just(255u8), Just(0), any::<u8>()]),
	)
		.prop_map(|((who, author), (treasury, asset), (funds, author_has), (fee, tip, due))| ChargeCase { who, author, treasury, asset, funds, author_has, fee, tip, due })
		.boxed()
}
pub fn check_charges(c: &ChargeCase, cx: &mut Ctx) -> Verdict {
	fresh();
	let ed = least();
	let (who, author) = (c.who.account(), c.author.as_ref().map(Acc::account));
	if let Some(a) = &author {
		kreivo_deps::pallet_authorship::set_author(a);
	}
	fund(&treasury(), if c.treasury as u128 >= ed { c.treasury as u128 } else { 0 });
	let call: RuntimeCall = frame_system::Call::<Runtime>::remark { remark: vec![] }.into();
	let (fee, tip) = (c.fee as u128 + c.tip as u128, c.tip as u128);
	let corrected = c.fee as u128 * c.due as u128 / 255 + tip;
	let info = Default::default();
	let post = Default::default();
	match c.asset {
		None => {
			type Charge = <Runtime as pallet_transaction_payment::Config>::OnChargeTransaction;
			fund(&who, c.funds as u128);
			let before: BTreeMap<Vec<u8>, Vec<u8>> = sp_io::storage::snapshot();
			let (w, t) = (native(&who), native(&treasury()));
			let Ok(paid) = <Charge as pallet_transaction_payment::OnChargeTransaction<Runtime>>::withdraw_fee(&who, &call, &info, fee, tip) else {
				req!(w < fee + ed, "the fee {fee} was refused to {w}");
				req!(sp_io::storage::snapshot() == before, "a refused fee left an effect");
				cx.label("refused");
				return Ok(());
			};
			let r = <Charge as pallet_transaction_payment::OnChargeTransaction<Runtime>>::correct_and_deposit_fee(&who, &info, &post, corrected, tip, paid);
			req!(r.is_ok(), "the fee was not settled");
			if who == treasury() {
				return Ok(());
			}
			req_eq!(native(&who), w - corrected, "the sender lost {}, not {corrected}", w.saturating_sub(native(&who)));
			// What would leave the treasury with less than an account may hold cannot be given to it; the
			// fee and the tip come separately.
			if t > 0 || corrected >= 2 * ed && (tip == 0 || tip >= ed) && corrected - tip >= ed {
				req_eq!(native(&treasury()), t + corrected, "the treasury gained {}, not {corrected}", native(&treasury()).saturating_sub(t));
				if corrected > 0 {
					cx.nontrivial(&("native", c.fee, c.tip, c.due, c.treasury));
				}
			}
			if let Some(a) = author.filter(|a| *a != who && *a != treasury()) {
				req_eq!(native(&a), 0, "the author gained");
			}
			cx.label("native");
		}
		Some((n, min)) => {
			type Charge = <Runtime as pallet_asset_tx_payment::Config>::OnChargeAssetTransaction;
			let asset = asset_n(n);
			ledger::set_asset(&asset, &ledger::Asset { issuance: 0, min: min as u128 });
			let of = |a: &AccountId| ledger::account_of(&asset, a).total();
			ledger::endow(&asset, &who, c.funds as u128);
			if let Some(a) = &author {
				if c.author_has >= min as u64 {
					ledger::endow(&asset, a, c.author_has as u128);
				}
			}
			let before: BTreeMap<Vec<u8>, Vec<u8>> = sp_io::storage::snapshot();
			let (w, had) = (of(&who), author.as_ref().map(&of));
			// The price of a fee in the asset is in proportion to the two minimum balances.
			let price = |f: u128| (f.saturating_mul(min as u128) / ed).max((f > 0) as u128);
			let Ok(paid) = <Charge as pallet_asset_tx_payment::OnChargeAssetTransaction<Runtime>>::withdraw_fee(&who, &call, &info, asset, fee, tip) else {
				req!(w < price(fee) + 1 + min as u128, "the fee {fee} was refused to {w}");
				req!(sp_io::storage::snapshot() == before, "a refused fee left an effect");
				cx.label("refused");
				return Ok(());
			};
			let r = <Charge as pallet_asset_tx_payment::OnChargeAssetTransaction<Runtime>>::correct_and_deposit_fee(&who, &info, &post, corrected, tip, paid);
			req!(r.is_ok(), "the fee was not settled");
			let author = match author {
				Some(a) if a == who => return Ok(()),
				a => a,
			};
			let lost = w.saturating_sub(of(&who));
			req!(lost.abs_diff(price(corrected)) <= 1, "the sender lost {lost}, not {}", price(corrected));
			match (author, had) {
				(Some(a), Some(had)) if had > 0 || lost >= min as u128 => {
					req_eq!(of(&a), had + lost, "the author gained {}, not {lost}", of(&a).saturating_sub(had));
					if lost > 0 {
						cx.nontrivial(&("asset", n, min, c.fee, c.due));
					}
				}
				_ => cx.label("nobody to take the fee"),
			}
			cx.label("asset");
		}
	}
	Ok(())
}
