//! R22, R23, R27: what the chain reports of accounts, how it weighs the calls of its own modules, and what it quotes.
use crate::calls;
use crate::world::*;
use frame_support::dispatch::{DispatchClass, GetDispatchInfo, Pays};
use frame_support::weights::Weight;
use kreivo_deps::{pallet_assets, pallet_proxy};
use kreivo_runtime::*;
use parity_scale_codec::{Compact, Decode, Encode};
use serde::{Deserialize, Serialize};
use std::collections::BTreeMap;
use std::marker::PhantomData;
use virto_common::FungibleAssetLocation;
use vkit::proptest::{collection::vec, prelude::*};
use vkit::{req, req_eq, Ctx, Verdict};
use vmock::ledger;
use xcm::latest::prelude::{Assets as Reported, Fungible, GeneralIndex, GlobalConsensus, Location, NetworkId, PalletInstance, Parachain};

// ---- R22

/// An asset by the bytes it is stored under and the place it has.
#[derive(Clone, Debug, Serialize, Deserialize, PartialEq, Eq, Hash)]
pub enum Kind {
	Here(u32),
	Sibling(u16, u8, u32),
	External(Net, Option<(u16, u8, u32)>),
}
#[derive(Clone, Copy, Debug, Serialize, Deserialize, PartialEq, Eq, Hash)]
pub enum Net {
	Polkadot,
	Kusama,
	Ethereum(u64),
}
impl Kind {
	fn id(&self) -> FungibleAssetLocation {
		let b = match self {
			Kind::Here(n) => (0u8, n).encode(),
			Kind::Sibling(id, pallet, n) => (1u8, id, pallet, n).encode(),
			Kind::External(net, child) => {
				let mut b = vec![2u8];
				match net {
					Net::Polkadot => b.push(0),
					Net::Kusama => b.push(1),
					Net::Ethereum(chain) => (2u8, chain).encode_to(&mut b),
				}
				child.encode_to(&mut b);
				b
			}
		};
		let mut rest = &b[..];
		let id = FungibleAssetLocation::decode(&mut rest).unwrap_or_else(|_| vkit::broken("what is held is of no asset"));
		if !rest.is_empty() {
			vkit::broken("an asset is written with more than it has");
		}
		id
	}
	fn place(&self) -> Location {
		let within = |id: &u16, pallet: &u8, n: &u32| [Parachain(*id as u32), PalletInstance(*pallet), GeneralIndex(*n as u128)];
		match self {
			Kind::Here(n) => at(0, &[PalletInstance(calls::ASSETS), GeneralIndex(*n as u128)]),
			Kind::Sibling(id, pallet, n) => at(1, &within(id, pallet, n)),
			Kind::External(net, child) => {
				let mut js = vec![GlobalConsensus(match net {
					Net::Polkadot => NetworkId::Polkadot,
					Net::Kusama => NetworkId::Kusama,
					Net::Ethereum(chain_id) => NetworkId::Ethereum { chain_id: *chain_id },
				})];
				if let Some((id, pallet, n)) = child {
					js.extend(within(id, pallet, n));
				}
				at(2, &js)
			}
		}
	}
}
fn kind() -> BoxedStrategy<Kind> {
	let n = || prop_oneof![4 => 0u32..4, 1 => Just(u32::MAX), 1 => any::<u32>()];
	let id = || prop_oneof![3 => Just(1000u16), 2 => 0u16..3, 1 => Just(u16::MAX), 1 => any::<u16>()];
	let pallet = || prop_oneof![3 => Just(50u8), 1 => Just(13), 1 => any::<u8>()];
	let net = prop_oneof![Just(Net::Polkadot), Just(Net::Kusama), prop_oneof![3 => 0u64..3, 1 => any::<u64>()].prop_map(Net::Ethereum)];
	prop_oneof![
		2 => n().prop_map(Kind::Here),
		2 => (id(), pallet(), n()).prop_map(|(a, b, c)| Kind::Sibling(a, b, c)),
		2 => (net, prop_oneof![1 => Just(None), 1 => (id(), pallet(), n()).prop_map(Some)]).prop_map(|(net, child)| Kind::External(net, child)),
	]
	.boxed()
}
/// The accounts by number, what they have of the native token and of assets.
#[derive(Clone, Debug, Serialize, Deserialize)]
pub struct HoldingsCase {
	asked: u8,
	native: Vec<(u8, u64)>,
	assets: Vec<(Kind, Vec<(u8, u64)>)>,
}
pub fn holdings() -> BoxedStrategy<HoldingsCase> {
	let amount = || prop_oneof![2 => Just(0u64), 2 => 1u64..3, 4 => 1_000_000_000u64..1_000_000_000_000, 1 => Just(u64::MAX)];
	let of = move || vec((0u8..3, amount()), 0..3);
	(0u8..3, of(), vec((kind(), of()), 0..6)).prop_map(|(asked, native, assets)| HoldingsCase { asked, native, assets }).boxed()
}
pub fn check_holdings(c: &HoldingsCase, cx: &mut Ctx) -> Verdict {
	fresh();
	let who = |n: u8| if n == 2 { community_account(1) } else { Acc::User(n).account() };
	let mut due: BTreeMap<Vec<u8>, (Location, u128)> = BTreeMap::new();
	let mut others = false;
	let mut owes = |n: u8, place: Location, amount: u64| {
		if n == c.asked && amount > 0 {
			due.entry(place.encode()).or_insert((place, 0)).1 += amount as u128;
		} else if amount > 0 {
			others = true;
		}
	};
	for (n, amount) in &c.native {
		fund(&who(*n), *amount as u128);
		owes(*n, at(1, &[]), *amount);
	}
	for (kind, of) in &c.assets {
		let id = kind.id();
		if ledger::asset_of(&id).is_none() {
			ledger::set_asset(&id, &ledger::Asset { issuance: 0, min: 1 });
		}
		for (n, amount) in of {
			ledger::endow(&id, &who(*n), *amount as u128);
			owes(*n, kind.place(), *amount);
		}
	}
	let reported = Runtime::api_query_account_balances(who(c.asked));
	let Ok(reported) = reported else { return Err(format!("the holdings {due:?} cannot be reported")) };
	let Ok(reported) = Reported::try_from(reported) else { return Err("the report is of an unknown version".into()) };
	let mut got: BTreeMap<Vec<u8>, u128> = BTreeMap::new();
	for a in reported.inner() {
		let place = &a.id.0;
		let Fungible(amount) = a.fun else { return Err(format!("{place:?} is reported as not fungible")) };
		req!(amount > 0, "nothing of {place:?} is reported as a holding");
		req!(due.contains_key(&place.encode()), "{amount} of {place:?} is reported, which the account does not have");
		req!(got.insert(place.encode(), amount).is_none(), "{place:?} is reported twice");
	}
	for (key, (place, amount)) in &due {
		req_eq!(got.get(key).copied().unwrap_or(0), *amount, "the reported holding of {place:?}");
	}
	cx.label(match due.len() {
		0 => "holds nothing",
		1 => "holds one thing",
		_ => "holds several things",
	});
	if due.len() > 1 && others {
		cx.nontrivial(&format!("{c:?}"));
	}
	Ok(())
}

// ---- R23

/// Where the chain's own modules are.
const OWN: [u8; 3] = [60, 71, 75];
#[derive(Clone, Debug, Serialize, Deserialize)]
pub enum WeighCase {
	/// one of the modules' own calls
	Own(u8, u8, Vec<u8>),
	/// paying with remarks of two lengths
	Remarks(u8, u8),
	/// creating two numbers of memberships
	Memberships(u16, u16),
	/// a call made as the community
	AsAccount(calls::CallCase),
	/// calls within calls made as the community
	Nested(u8),
	/// an entry of the chain's own tables for assets and proxies, with two sets of sizes
	Table(u8, [u32; 2], [u32; 2]),
}
type Entry = (&'static str, fn(u32, u32) -> Weight);
macro_rules! entries { ($t:path, $w:ty; $($f:ident($($a:ident),*))*) => { [$((stringify!($f), (|_a: u32, _b: u32| <$w as $t>::$f($($a!(_a, _b)),*)) as fn(u32, u32) -> Weight)),*] } }
macro_rules! one { ($a:ident, $b:ident) => { $a } }
macro_rules! two { ($a:ident, $b:ident) => { $b } }
/// The tables of the modules of others that the chain weighs itself.
fn table() -> Vec<Entry> {
	fn of_assets<T: pallet_assets::Config<I>, I: 'static>(_: PhantomData<pallet_assets::Pallet<T, I>>) -> [Entry; 33] {
		entries! { pallet_assets::WeightInfo, T::WeightInfo;
			create() force_create() start_destroy() destroy_accounts(one) destroy_approvals(one) finish_destroy() mint() burn() transfer()
			transfer_keep_alive() force_transfer() freeze() thaw() freeze_asset() thaw_asset() transfer_ownership() set_team() set_metadata(one, two)
			clear_metadata() force_set_metadata(one, two) force_clear_metadata() force_asset_status() approve_transfer() transfer_approved()
			cancel_approval() force_cancel_approval() set_min_balance() touch() touch_other() refund() refund_other() block() transfer_all() }
	}
	let mut all = of_assets(PhantomData::<Assets>).to_vec();
	all.extend(entries! { pallet_proxy::WeightInfo, <Runtime as pallet_proxy::Config>::WeightInfo;
		proxy(one) proxy_announced(one, two) remove_announcement(one, two) reject_announcement(one, two) announce(one, two) add_proxy(one)
		remove_proxy(one) remove_proxies(one) create_pure(one) kill_pure(one) });
	all
}
const ENTRIES: u8 = 43;
pub fn weighings() -> BoxedStrategy<WeighCase> {
	let own: Vec<(u8, u8)> = calls::positions().iter().copied().filter(|(p, _)| OWN.contains(p)).collect();
	let n = || prop_oneof![3 => 0u16..10, 1 => Just(u16::MAX), 1 => any::<u16>()];
	let size = || prop_oneof![3 => 0u32..10, 2 => 0u32..1000, 1 => Just(u32::MAX)];
	prop_oneof![
		3 => (0..own.len(), vec(any::<u8>(), 0..60)).prop_map(move |(i, fill)| WeighCase::Own(own[i].0, own[i].1, fill)),
		1 => (0u8..=50, 0u8..=50).prop_map(|(a, b)| WeighCase::Remarks(a, b)),
		1 => (n(), n()).prop_map(|(a, b)| WeighCase::Memberships(a, b)),
		4 => calls::calls().prop_map(WeighCase::AsAccount),
		1 => (1u8..6).prop_map(WeighCase::Nested),
		2 => (0..ENTRIES, [size(), size()], [size(), size()]).prop_map(|(f, a, b)| WeighCase::Table(f, a, b)),
	]
	.boxed()
}
fn covers(outer: &RuntimeCall, inner: &RuntimeCall) -> Verdict {
	let (o, i) = (outer.get_dispatch_info(), inner.get_dispatch_info());
	req!(
		i.weight.ref_time() == u64::MAX || o.weight.ref_time() > i.weight.ref_time(),
		"{:?} takes {}, made as the community {}",
		inner.__names(),
		i.weight.ref_time(),
		o.weight.ref_time()
	);
	req!(o.weight.proof_size() >= i.weight.proof_size(), "{:?} reads {}, made as the community {}", inner.__names(), i.weight.proof_size(), o.weight.proof_size());
	req_eq!(o.class, i.class, "the class of {:?} made as the community", inner.__names());
	req!(o.pays_fee == Pays::Yes, "{:?} made as the community costs nothing", inner.__names());
	Ok(())
}
pub fn check_weighings(c: &WeighCase, cx: &mut Ctx) -> Verdict {
	let of = |c: &RuntimeCall| c.get_dispatch_info().weight;
	let as_community = |inner: &RuntimeCall| call(71, 11, Raw(inner.encode()));
	match c {
		WeighCase::Own(pallet, index, fill) => {
			let mut b = vec![*pallet, *index];
			b.extend(fill);
			b.resize(b.len() + 600, 0);
			let Ok(own) = RuntimeCall::decode(&mut &b[..]) else {
				cx.label("no call");
				return Ok(());
			};
			cx.label("a call of its own modules");
			cx.nontrivial(&(pallet, index, fill));
			let info = own.get_dispatch_info();
			req!(info.weight.ref_time() > 0, "{:?} takes no time", own.__names());
			req!(info.pays_fee == Pays::Yes, "{:?} costs nothing", own.__names());
			if (*pallet, *index) != (71, 11) {
				req_eq!(info.class, DispatchClass::Normal, "the class of {:?}", own.__names());
			}
		}
		WeighCase::Remarks(a, b) => {
			let pay = |n: u8| call(60, 0, (Raw(address(&Acc::User(1).account())), 0u8, 0u32, Compact(5u128), Some(vec![7u8; n as usize])));
			cx.label("remarks");
			cx.nontrivial(&(a, b));
			let (less, more) = (of(&pay(*a.min(b))), of(&pay(*a.max(b))));
			req!(less.all_lte(more), "a remark of {} costs {less:?}, of {} {more:?}", a.min(b), a.max(b));
			req!(a == b || less.any_lt(more), "remarks of {a} and {b} cost the same");
		}
		WeighCase::Memberships(a, b) => {
			let create = |n: u16| call(75, 1, (n, 1u32, Compact(0u128)));
			cx.label("memberships");
			cx.nontrivial(&(a, b));
			let (less, more) = (of(&create(*a.min(b))), of(&create(*a.max(b))));
			req!(less.all_lte(more), "{} memberships cost {less:?}, {} {more:?}", a.min(b), a.max(b));
			req!(a == b || less.any_lt(more), "{a} and {b} memberships cost the same");
		}
		WeighCase::AsAccount(inner) => {
			let Some(inner) = inner.decode() else {
				cx.label("no call");
				return Ok(());
			};
			cx.label("as the community");
			cx.nontrivial(&inner.encode());
			covers(&as_community(&inner), &inner)?;
		}
		WeighCase::Nested(depth) => {
			cx.label("nested");
			cx.nontrivial(depth);
			let mut inner = call(0, 0, vec![1u8]);
			for _ in 0..*depth {
				let outer = as_community(&inner);
				covers(&outer, &inner)?;
				inner = outer;
			}
		}
		WeighCase::Table(entry, a, b) => {
			cx.label("others' calls");
			cx.nontrivial(&(entry, a, b));
			let (name, weigh) = table()[*entry as usize];
			let (less, more) = ([a[0].min(b[0]), a[1].min(b[1])], [a[0].max(b[0]), a[1].max(b[1])]);
			let (light, heavy) = (weigh(less[0], less[1]), weigh(more[0], more[1]));
			let read = <Runtime as frame_system::Config>::DbWeight::get().reads(1);
			req!(light.all_gte(read) && light.proof_size() > 0, "{name} with {less:?} weighs {light:?}, less than looking something up");
			req!(light.all_lte(heavy), "{name} with {less:?} weighs {light:?}, with {more:?} {heavy:?}");
			if name.starts_with("destroy_") && less[0] < more[0] {
				let touched = <Runtime as frame_system::Config>::DbWeight::get().reads_writes(1, 1).saturating_mul((more[0] - less[0]) as u64);
				req!(heavy.all_gte(light.saturating_add(touched)), "{name} of {} takes {light:?}, of {} {heavy:?}", less[0], more[0]);
			}
		}
	}
	Ok(())
}

// ---- R27

#[derive(Clone, Debug, Serialize, Deserialize)]
pub struct QuoteCase {
	call: calls::CallCase,
	length: u32,
	signed: bool,
	who: u8,
	number: u32,
}
pub fn quotes() -> BoxedStrategy<QuoteCase> {
	let n = || prop_oneof![1 => Just(0u32), 3 => 0u32..10_000, 1 => any::<u32>()];
	(calls::calls(), n(), any::<bool>(), 0u8..4, n()).prop_map(|(call, length, signed, who, number)| QuoteCase { call, length, signed, who, number }).boxed()
}
pub fn check_quotes(c: &QuoteCase, cx: &mut Ctx) -> Verdict {
	use frame_support::traits::Get;
	use frame_support::weights::Weight;
	fresh();
	let (who, other) = (Acc::User(c.who).account(), Acc::User(c.who + 1).account());
	frame_system::set_nonce::<Runtime>(&who, c.number as u64);
	req_eq!(Runtime::api_account_nonce(who.clone()), c.number, "the number of the next transaction");
	req_eq!(Runtime::api_account_nonce(other), 0, "the number of the first transaction");
	let Some(call) = c.call.decode() else {
		cx.label("no call");
		return Ok(());
	};
	let price = |w: Weight| Runtime::api_query_weight_to_fee(w);
	req_eq!(price(Weight::from_parts(c.length as u64, c.number as u64)), Runtime::api_query_weight_to_fee_2(Weight::from_parts(c.length as u64, c.number as u64)), "the two prices of a weight");
	req_eq!(Runtime::api_query_length_to_fee(c.length), Runtime::api_query_length_to_fee_2(c.length), "the two prices of a length");
	let info = call.get_dispatch_info();
	let pays = info.pays_fee == Pays::Yes;
	// What any transaction costs, its length, and its weight up to that of a block.
	let limits = <<Runtime as frame_system::ConfigExtra>::BlockWeights as frame_support::traits::Get<frame_system::limits::BlockWeights>>::get();
	let parts = [price(limits.get(info.class).base_extrinsic), c.length as u128 * 10 * crate::money::MILLICENT, price(info.weight.min(limits.max_block))];
	let due = if pays { parts.iter().sum() } else { 0 };
	let nobody = !c.signed;
	let tx = || {
		if nobody {
			return UncheckedExtrinsic::new_unsigned(call.clone());
		}
		let mut extra = vec![0u8];
		Compact(c.number).encode_to(&mut extra);
		Compact(0u128).encode_to(&mut extra);
		extra.push(0);
		let extra = SignedExtra::decode(&mut &extra[..]).unwrap_or_else(|_| vkit::broken("the extra parts of a transaction cannot be read"));
		UncheckedExtrinsic::new_signed(call.clone(), sp_runtime::MultiAddress::Id(who.clone()), sp_runtime::MultiSignature::Sr25519([0; 64]), extra)
	};
	let (of_tx, of_call) = (Runtime::api_query_info(tx(), c.length), Runtime::api_query_call_info(call.clone(), c.length));
	for (quote, due) in [(&of_tx, if nobody { 0 } else { due }), (&of_call, due)] {
		req_eq!(quote.partial_fee, due, "the fee quoted for {:?} of {} bytes", call.__names(), c.length);
		req_eq!((quote.weight, quote.class), (info.weight, info.class), "the weight quoted for {:?}", call.__names());
	}
	let details = [(Runtime::api_query_fee_details(tx(), c.length), nobody), (Runtime::api_query_call_fee_details(call.clone(), c.length), false)];
	for (quote, nothing) in details {
		let got = quote.inclusion_fee.map(|f| [f.base_fee, f.len_fee, f.adjusted_weight_fee]);
		req_eq!(got, (pays && !nothing).then_some(parts), "the parts of the fee quoted for {:?} of {} bytes", call.__names(), c.length);
		req_eq!(quote.tip, 0, "a tip is quoted");
	}
	cx.label(if nobody { "not signed" } else { "signed" });
	if c.length > 0 {
		cx.nontrivial(&(call.__names(), c.length, c.signed));
	}
	Ok(())
}
