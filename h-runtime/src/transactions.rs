//! R24: which transactions the chain takes, how often, and who pays for them.
use crate::money::asset_n;
use crate::world::*;
use frame_support::dispatch::{DispatchClass, GetDispatchInfo, Pays, PostDispatchInfo};
use frame_support::traits::Get;
use frame_support::weights::Weight;
use frame_system::ConfigExtra;
use kreivo_deps::{fc_traits_gas_tank as tank, pallet_pass};
use kreivo_runtime::*;
use parity_scale_codec::{Compact, Decode, Encode};
use serde::{Deserialize, Serialize};
use sp_runtime::traits::{Dispatchable, SignedExtension};
use vkit::proptest::prelude::*;
use vkit::{req, req_eq, Ctx, Verdict};
use vmock::ledger;

/// How what the signer thinks differs from what is.
#[derive(Clone, Copy, Debug, Serialize, Deserialize, PartialEq, Eq, Hash)]
pub enum Wrong {
	Spec(i8),
	Tx(i8),
	Swapped,
	Genesis,
	Birth,
	BirthLater,
}
#[derive(Clone, Debug, Serialize, Deserialize, PartialEq, Eq, Hash)]
pub enum What {
	Remark(u8),
	RemarkWithEvent(u8),
	/// of the operational class, for root only
	HeapPages(u64),
	/// of a payment that does not exist
	Release(u8),
	/// in the name of a community one is not
	AsCommunity(u8),
}
#[derive(Clone, Copy, Debug, Serialize, Deserialize, PartialEq, Eq, Hash)]
pub enum Funds {
	Nothing,
	/// what is asked for, what an account must hold, and so much more
	Near(i8),
	Plenty,
}
#[derive(Clone, Debug, Serialize, Deserialize)]
pub struct TxCase {
	/// nobody, if not given
	signer: Option<Acc>,
	/// the owner of the session the signer has the key of
	owner: Option<Acc>,
	now: u32,
	/// the logarithm of the period and when it was signed, counted back from now
	era: Option<(u8, u32)>,
	wrong: Vec<Wrong>,
	nonce: u32,
	nonce_off: i8,
	tip: u64,
	/// the asset and its minimum balance
	asset: Option<(u8, u32)>,
	what: What,
	len: u32,
	/// how much of the room for the class is used up, in 256ths
	used: u8,
	funds: Funds,
	/// the gas: so much more than the call weighs
	tank: Option<(i8, i8)>,
	/// whether the signer with a session has money and gas of their own
	signer_has: bool,
}
pub fn transactions() -> BoxedStrategy<TxCase> {
	let user = || (0u8..3).prop_map(Acc::User);
	let who = prop_oneof![12 => user().prop_map(Some), 1 => acc().prop_map(Some), 1 => Just(None)];
	let owner = prop_oneof![3 => Just(None), 2 => user().prop_map(Some), 1 => acc().prop_map(Some)];
	let now = prop_oneof![1 => 1u32..100, 2 => 4_000u32..9_000, 2 => 60_000u32..1_000_000];
	let era = prop_oneof![2 => Just(None), 5 => (1u8..17, prop_oneof![2 => 0u32..64, 2 => 0u32..5_000, 1 => 0u32..70_000]).prop_map(Some)];
	let one = prop_oneof![
		prop_oneof![Just(1i8), Just(-1), any::<i8>()].prop_map(Wrong::Spec),
		prop_oneof![Just(1i8), Just(-1), any::<i8>()].prop_map(Wrong::Tx),
		Just(Wrong::Swapped),
		Just(Wrong::Genesis),
		Just(Wrong::Birth),
		Just(Wrong::BirthLater)
	];
	let wrong = prop_oneof![5 => Just(vec![]), 2 => one.prop_map(|w| vec![w])];
	let what = prop_oneof![
		3 => any::<u8>().prop_map(What::Remark),
		2 => any::<u8>().prop_map(What::RemarkWithEvent),
		1 => any::<u64>().prop_map(What::HeapPages),
		3 => any::<u8>().prop_map(What::Release),
		2 => any::<u8>().prop_map(What::AsCommunity),
	];
	let nonce = prop_oneof![2 => Just(0u32), 2 => 0u32..100, 1 => any::<u32>()];
	let off = prop_oneof![6 => Just(0i8), 1 => Just(1), 1 => Just(-1), 1 => any::<i8>()];
	let tip = prop_oneof![3 => Just(0u64), 1 => 1u64..1_000, 2 => 0u64..1_000_000_000_000];
	let asset = prop_oneof![3 => Just(None), 1 => (any::<u8>(), prop_oneof![1u32..10, 1u32..1_000_000_000]).prop_map(Some)];
	let len = prop_oneof![4 => 100u32..1_000, 1 => 0u32..6_000_000];
	let used = prop_oneof![4 => 0u8..200, 1 => Just(255u8), 1 => any::<u8>()];
	let near = || prop_oneof![Just(0i8), Just(-1), Just(1), any::<i8>()];
	let funds = prop_oneof![5 => Just(Funds::Plenty), 1 => Just(Funds::Nothing), 2 => near().prop_map(Funds::Near)];
	let gas = prop_oneof![5 => Just(None), 2 => (near(), near()).prop_map(Some)];
	((who, owner, now, era), (wrong, nonce, off, tip), (asset, what, len, used), (funds, gas, any::<bool>()))
		.prop_map(|((signer, owner, now, era), (wrong, nonce, nonce_off, tip), (asset, what, len, used), (funds, tank, signer_has))| TxCase {
			signer,
			owner,
			now,
			era,
			wrong,
			nonce,
			nonce_off,
			tip,
			asset,
			what,
			len,
			used,
			funds,
			tank,
			signer_has,
		})
		.boxed()
}

/// The bytes of an era and the block it began with.
fn era_bytes(period: u64, signed_at: u64) -> (Vec<u8>, u64) {
	let phase = signed_at % period;
	let step = (period >> 12).max(1);
	let phase = phase / step * step;
	let b = ((period.trailing_zeros() - 1).clamp(1, 15) as u16) | (((phase / step) << 4) as u16);
	(b.encode(), phase)
}
fn hash_of(chain: u8, n: u64) -> Hash {
	let mut b = [chain; 32];
	b[8..16].copy_from_slice(&n.to_le_bytes());
	b.into()
}

const PLENTY: u128 = 1 << 80;

pub fn check_transactions(c: &TxCase, cx: &mut Ctx) -> Verdict {
	fresh();
	let ed = least();
	let signer = c.signer.as_ref().map_or([0u8; 32].into(), Acc::account);
	let mut faults: Vec<&str> = vec![];
	if c.signer.is_none() {
		faults.push("nobody signed");
	}
	let payer = c.owner.as_ref().map_or(signer.clone(), Acc::account);
	if payer == treasury() || signer == treasury() {
		return Ok(());
	}
	if payer != signer {
		pallet_pass::set_session(&signer, &payer);
	}
	let bystander = AccountId::from([0xbb; 32]);
	if bystander == payer || bystander == signer {
		return Ok(());
	}

	// ---- the chain
	let now = c.now as u64;
	System::set_block_number(c.now);
	let version = Runtime::api_version();
	let (mut era, mut birth) = (vec![0u8], 0u64);
	if let Some((log, back)) = c.era {
		let period = (1u64 << log).clamp(4, 1 << 16);
		let (bytes, phase) = era_bytes(period, now.saturating_sub(back as u64));
		birth = (now.max(phase) - phase) / period * period + phase;
		era = bytes;
		if birth != 0 && now.saturating_sub(birth) > <<Runtime as ConfigExtra>::BlockHashCount as Get<BlockNumber>>::get() as u64 {
			faults.push("signed too long ago");
		}
		cx.label("mortal");
	}
	for n in [0, birth, birth + 1] {
		frame_system::BlockHash::<Runtime>::insert(n as BlockNumber, hash_of(7, n));
	}

	// ---- the call
	let the_call: RuntimeCall = match &c.what {
		What::Remark(n) => call(0, 0, vec![7u8; *n as usize]),
		What::HeapPages(n) => call(0, 1, *n),
		What::RemarkWithEvent(n) => call(0, 7, vec![7u8; *n as usize]),
		What::Release(n) => call(60, 1, ([*n; 8],)),
		What::AsCommunity(n) => call(71, 11, call(0, 0, vec![7u8; *n as usize])),
	};
	let info = the_call.get_dispatch_info();
	let len = c.len as usize;
	let limits = <<Runtime as frame_system::ConfigExtra>::BlockWeights as frame_support::traits::Get<frame_system::limits::BlockWeights>>::get();
	let of_class = limits.get(info.class);
	let room = of_class.max_total.unwrap_or(limits.max_block);
	let used = Weight::from_parts((room.ref_time() as u128 * c.used as u128 / 255) as u64, (room.proof_size() as u128 * c.used as u128 / 255) as u64);
	frame_system::set_used_weight(info.class, used);
	if used.saturating_add(of_class.base_extrinsic).saturating_add(info.weight).any_gt(room) {
		faults.push("no room left");
	}
	let longest = if info.class == DispatchClass::Normal { 5 * 1024 * 1024 / 4 * 3 } else { 5 * 1024 * 1024 };
	if c.len > longest {
		faults.push("too long");
	}

	// ---- what it costs
	let price = |w: Weight| Runtime::api_query_weight_to_fee(w);
	let fee = |w: Weight, pays: bool| c.tip as u128 + if pays { price(of_class.base_extrinsic) + Runtime::api_query_length_to_fee(c.len) + price(w) } else { 0 };
	let asked = fee(info.weight, info.pays_fee == Pays::Yes);
	let in_asset = |f: u128, min: u32| (f.saturating_mul(min as u128) / ed).max((f > 0) as u128);
	let near = |want: u128, extra: i8| want.saturating_add_signed(extra as i128);
	let asset = c.asset.map(|(n, min)| (asset_n(n), min));
	let gas = c.tank.map(|(t, p)| Weight::from_parts(info.weight.ref_time().saturating_add_signed(t as i64), info.weight.proof_size().saturating_add_signed(p as i64)));
	if let Some(g) = &gas {
		tank::set_tank(&payer, g);
	}
	let by_gas = gas.is_some_and(|g| g.all_gte(info.weight));
	let held = match c.funds {
		Funds::Nothing => 0,
		Funds::Plenty => PLENTY,
		Funds::Near(x) => match asset {
			None => near(asked + ed, x),
			Some((_, min)) => near(in_asset(asked, min) + min as u128, x),
		},
	};
	let of = |a: &AccountId| match &asset {
		None => native(a),
		Some((id, _)) => ledger::account_of(id, a).total(),
	};
	let endow = |a: &AccountId, amount: u128| match &asset {
		None => fund(a, amount),
		Some((id, _)) => ledger::endow(id, a, amount),
	};
	fund(&treasury(), PLENTY);
	if let Some((id, min)) = &asset {
		ledger::set_asset(id, &ledger::Asset { issuance: 0, min: *min as u128 });
		// so that the native token is there, and stays untouched
		fund(&payer, PLENTY);
	}
	if held > 0 {
		endow(&payer, held);
	}
	endow(&bystander, PLENTY);
	if payer != signer && c.signer_has {
		endow(&signer, PLENTY);
		tank::set_tank(&signer, &Weight::MAX);
	}
	let enough = match asset {
		None => held >= asked + ed,
		Some((_, min)) => held > in_asset(asked, min) + min as u128,
	};
	let too_little = match asset {
		None => held < asked,
		Some((_, min)) => held + 1 < in_asset(asked, min),
	};
	let paid_for = by_gas || asked == 0 || enough;
	if !by_gas && asked > 0 && too_little {
		faults.push("not paid for");
	} else if !paid_for {
		// between what is asked for and what leaves the account alive
		cx.label("hardly enough");
	}

	// ---- what was signed
	frame_system::set_nonce::<Runtime>(&signer, c.nonce as u64);
	let nonce = (c.nonce as i64 + c.nonce_off as i64).max(0) as u64;
	if nonce != c.nonce as u64 {
		faults.push("not the next one");
	}
	let mut extra = era;
	Compact(nonce).encode_to(&mut extra);
	Compact(c.tip as u128).encode_to(&mut extra);
	asset.map(|(id, _)| id).encode_to(&mut extra);
	let (mut spec, mut tx, mut genesis, mut born) = (version.spec_version, version.transaction_version, hash_of(7, 0), hash_of(7, birth));
	for w in &c.wrong {
		match w {
			Wrong::Spec(n) => spec = spec.wrapping_add_signed(*n as i32),
			Wrong::Tx(n) => tx = tx.wrapping_add_signed(*n as i32),
			Wrong::Swapped => (spec, tx) = (tx, spec),
			Wrong::Genesis => genesis = hash_of(8, 0),
			Wrong::Birth => born = hash_of(8, birth),
			Wrong::BirthLater => born = hash_of(7, birth + 1),
		}
	}
	if (spec, tx, genesis, born) != (version.spec_version, version.transaction_version, hash_of(7, 0), hash_of(7, birth)) {
		faults.push("signed for something else");
	}
	let signed = (&the_call, Raw(extra.clone()), spec, tx, genesis, born).encode();

	// ---- what becomes of it
	let arrives = || -> Result<(PostDispatchInfo, Weight), String> {
		let mut rest = &extra[..];
		let e = SignedExtra::decode(&mut rest).map_err(|e| format!("not readable: {e}"))?;
		if !rest.is_empty() {
			return Err("not read in full".into());
		}
		let along = e.additional_signed().map_err(|e| format!("{e:?}"))?;
		if (&the_call, &e, &along).encode() != signed {
			return Err("another signature".into());
		}
		let valid = e.validate(&signer, &the_call, &info, len).is_ok();
		let tx = UncheckedExtrinsic::new_signed(the_call.clone(), sp_runtime::MultiAddress::Id(signer.clone()), sp_runtime::MultiSignature::Sr25519([0; 64]), e.clone());
		let queued = Runtime::api_validate_transaction(sp_runtime::transaction_validity::TransactionSource::External, tx, hash_of(7, now));
		if valid && c.funds == Funds::Plenty && queued.is_err() {
			return Err(format!("not let into the queue: {queued:?}"));
		}
		let pre = match e.pre_dispatch(&signer, &the_call, &info, len) {
			Ok(p) => p,
			Err(e) => return Err(format!("{e:?}")),
		};
		if !valid {
			return Err("taken although not valid".into());
		}
		sp_io::storage::start_transaction();
		let r = the_call.clone().dispatch(RuntimeOrigin::signed(signer.clone()));
		match &r {
			Ok(_) => sp_io::storage::commit_transaction(),
			Err(_) => sp_io::storage::rollback_transaction(),
		}
		let (post, result) = match r {
			Ok(p) => (p, Ok(())),
			Err(e) => (e.post_info, Err(e.error)),
		};
		SignedExtra::post_dispatch(Some(pre), &info, &post, len, &result).map_err(|e| format!("{e:?}"))?;
		Ok((post, post.calc_actual_weight(&info)))
	};
	let before = (of(&payer), of(&signer), of(&bystander), native(&payer));
	sp_io::storage::start_transaction();
	let r = arrives();
	match &r {
		Ok(_) => sp_io::storage::commit_transaction(),
		Err(_) => sp_io::storage::rollback_transaction(),
	}
	match r {
		Err(why) => {
			req!(!faults.is_empty() || !paid_for, "a good transaction was refused: {why}");
			if faults.len() == 1 {
				cx.label(faults[0]);
				cx.nontrivial(&(faults[0], &c.what, c.asset, c.tip, c.nonce));
			}
		}
		Ok((post, actual)) => {
			req!(faults.is_empty(), "a transaction was taken although {faults:?}");
			let pays = info.pays_fee == Pays::Yes && post.pays_fee == Pays::Yes;
			let due = if by_gas { 0 } else { fee(actual, pays) };
			let lost = before.0.saturating_sub(of(&payer));
			match asset {
				None => req_eq!(lost, due, "the payer lost {lost}, not {due}"),
				Some((_, min)) => {
					req!(lost.abs_diff(in_asset(due, min)) <= 1, "the payer lost {lost}, not {}", in_asset(due, min));
					req_eq!(native(&payer), before.3, "the fee was paid in more than the asset");
				}
			}
			if signer != payer {
				req_eq!(of(&signer), before.1, "the fee was taken from the key of a session");
				cx.label("session");
			}
			req_eq!(of(&bystander), before.2, "somebody else paid");
			if let Some(g) = &gas {
				let left = tank::tank(&payer).unwrap_or_default();
				let want = if by_gas { g.saturating_sub(actual) } else { *g };
				req_eq!(left, want, "the gas left is {left:?}, not {want:?}");
			}
			req_eq!(frame_system::nonce_of::<Runtime>(&signer), nonce + 1, "the number of the next transaction");
			let again = (|| {
				let e = SignedExtra::decode(&mut &extra[..]).ok()?;
				frame_system::set_used_weight(info.class, Weight::zero());
				fund(&payer, PLENTY);
				endow(&payer, PLENTY);
				e.pre_dispatch(&signer, &the_call, &info, len).ok().map(|_| ())
			})();
			req!(again.is_none(), "the same transaction was taken twice");
			cx.label(if by_gas { "gas" } else if asset.is_some() { "asset" } else { "native" });
			cx.nontrivial(&(by_gas, &c.what, c.asset, c.tip, c.nonce, signer != payer));
		}
	}
	Ok(())
}

/// No kind of call is shut out of transactions.
pub fn check_open(c: &crate::calls::CallCase, cx: &mut Ctx) -> Verdict {
	use frame_support::traits::Contains;
	let Some(call) = c.decode() else { return Ok(()) };
	req!(<<Runtime as frame_system::Config>::BaseCallFilter as Contains<RuntimeCall>>::contains(&call), "{:?} is shut out", call.__names());
	cx.nontrivial(&call.__names());
	Ok(())
}
