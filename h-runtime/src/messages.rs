//! R04, R05, R10, R11 (messages), R20: what other chains can make this one do.
use crate::world::*;
use frame_support::traits::ContainsPair;
use kreivo_deps::*;
use kreivo_runtime::{AccountId, Runtime, RuntimeCall};
use parity_scale_codec::{Compact, Encode};
use serde::{Deserialize, Serialize};
use sp_runtime::traits::MaybeEquivalence;

use std::collections::BTreeMap;
use virto_common::{AsFungibleAssetLocation, FungibleAssetLocation};
use vkit::proptest::{collection::vec, prelude::*};
use vkit::{req, req_eq, Ctx, Verdict};
use vmock::ledger;
use xcm::latest::prelude::*;
use xcm_executor::traits::{ConvertLocation, ConvertOrigin, Properties, ShouldExecute, WeightBounds};
use xcm_executor::Outcome;

type XcmConfig = <<Runtime as pallet_xcm::Config>::XcmExecutor as xcm_executor::GoesBy>::Config;
type Reserves = <XcmConfig as xcm_executor::Config>::IsReserve;
type Teleporters = <XcmConfig as xcm_executor::Config>::IsTeleporter;
type Gate = <XcmConfig as xcm_executor::Config>::Barrier;
type Scales = <XcmConfig as xcm_executor::Config>::Weigher;
type Powers = <XcmConfig as xcm_executor::Config>::OriginConverter;
type Accounts = <Runtime as pallet_xcm::Config>::SovereignAccountOf;
type AccountJ = xcm::latest::Junction;

fn user_at(parents: u8, n: u8) -> Location {
	at(parents, &[AccountJ::AccountId32 { network: None, id: Acc::User(n).account().into() }])
}
fn within(prefix: &Location, l: &Location) -> bool {
	prefix.parents == l.parents && l.len() >= prefix.len() && prefix.interior().iter().zip(l.interior().iter()).all(|(a, b)| a == b)
}
fn polkadot() -> Location {
	at(2, &[GlobalConsensus(NetworkId::Polkadot)])
}

// ---- R04

#[derive(Clone, Debug, Serialize, Deserialize)]
pub struct ReserveCase {
	asset: Location,
	origin: Location,
	amount: u128,
	non_fungible: bool,
}
fn reserve_asset() -> BoxedStrategy<Location> {
	prop_oneof![
		3 => location(),
		3 => vec(junction(), 0..5).prop_map(|mut js| { js.insert(0, Parachain(1000)); at(1, &js) }),
		1 => (any::<u32>(), vec(junction(), 0..3)).prop_map(|(p, mut js)| { js.insert(0, Parachain(p)); at(1, &js) }),
		3 => vec(junction(), 0..5).prop_map(|mut js| { js.insert(0, GlobalConsensus(NetworkId::Polkadot)); at(2, &js) }),
		1 => (network(), vec(junction(), 0..3)).prop_map(|(n, mut js)| { js.insert(0, GlobalConsensus(n)); at(2, &js) }),
		1 => Just(relay()),
	]
	.boxed()
}
pub fn reserves() -> BoxedStrategy<ReserveCase> {
	let origin = prop_oneof![
		3 => location(),
		4 => Just(asset_hub()),
		2 => Just(relay()),
		2 => prop_oneof![Just(999u32), Just(1001), Just(2000), any::<u32>()].prop_map(sibling),
		1 => junction().prop_map(|j| at(1, &[Parachain(1000), j])),
		1 => Just(polkadot()),
	];
	(reserve_asset(), origin, any::<u8>(), any::<u128>(), any::<bool>())
		.prop_map(|(asset, origin, relate, amount, non_fungible)| {
			// Often the claim is about something of the claimant's own.
			let asset = match relate % 6 {
				0 => origin.clone(),
				1 => {
					let mut a = origin.clone();
					let _ = a.push_interior(GeneralIndex(amount % 3));
					a
				}
				_ => asset,
			};
			ReserveCase { asset, origin, amount, non_fungible }
		})
		.boxed()
}
fn trusted(asset: &Location, origin: &Location) -> bool {
	asset == origin || *origin == asset_hub() && (within(&asset_hub(), asset) || within(&polkadot(), asset))
}
pub fn check_reserves(c: &ReserveCase, cx: &mut Ctx) -> Verdict {
	let fun = if c.non_fungible { Fungibility::NonFungible(AssetInstance::Index(c.amount)) } else { Fungible(c.amount) };
	let asset = Asset { id: AssetId(c.asset.clone()), fun };
	let expected = trusted(&c.asset, &c.origin);
	if expected || within(&asset_hub(), &c.asset) || within(&polkadot(), &c.asset) {
		cx.nontrivial(&(c.asset.encode(), c.origin.encode()));
	}
	cx.label(if expected { "trusted" } else { "not trusted" });
	req_eq!(Reserves::contains(&asset, &c.origin), expected, "whether {:?} vouches for {:?}", c.origin, c.asset);
	req!(!Teleporters::contains(&asset, &c.origin), "{:?} is teleported from {:?}", c.asset, c.origin);
	Ok(())
}

// ---- R05

#[derive(Clone, Debug, Serialize, Deserialize)]
pub struct PlaceCase {
	place: Location,
	kind: u8,
}
pub fn places() -> BoxedStrategy<PlaceCase> {
	let account = (acc(), tag()).prop_map(|(a, network)| AccountJ::AccountId32 { network, id: a.account().into() });
	let place = prop_oneof![
		4 => location(),
		4 => (prop_oneof![4 => Just(0u8), 1 => 1u8..3], body(), part()).prop_map(|(p, id, part)| at(p, &[Plurality { id, part }])),
		4 => (prop_oneof![2 => Just(0u8), 3 => Just(1u8), 1 => Just(2)], account).prop_map(|(p, a)| at(p, &[a])),
		2 => any::<u32>().prop_map(sibling),
		1 => Just(relay()),
	];
	(place, 0u8..4).prop_map(|(place, kind)| PlaceCase { place, kind }).boxed()
}
/// The accounts a place may be given, the first of which it is given unless that is nothing.
fn accounts_at(l: &Location) -> Vec<Option<AccountId>> {

	match l.unpack() {
		(1, []) => vec![Some(Acc::Relay.account())],
		(1, [Parachain(id)]) => vec![Some(Acc::Sibling(*id).account())],
		(0, [Plurality { id: BodyId::Index(id), part }]) => match u16::try_from(*id) {
			Ok(c) if *part == BodyPart::Voice => vec![Some(community_account(c))],
			// A part of a community may be taken for it, or not.
			Ok(c) => vec![Some(community_account(c)), None],
			Err(_) => vec![None],
		},
		(0 | 1, [AccountJ::AccountId32 { id, network: None | Some(NetworkId::Kusama) }]) => vec![Some((*id).into())],
		_ => vec![None],
	}
}
pub fn check_places(c: &PlaceCase, cx: &mut Ctx) -> Verdict {
	fresh();
	let expected = accounts_at(&c.place);
	if expected[0].is_some() || c.place.len() <= 1 {
		cx.nontrivial(&c.place.encode());
	}
	let got = Accounts::convert_location(&c.place);
	cx.label(if got.is_some() { "account" } else { "no account" });
	req!(expected.contains(&got), "{:?} is given the account {got:?}, expected {expected:?}", c.place);
	// What a message from there can act as.
	let (kind, may): (_, Option<Org>) = match (c.kind, c.place.unpack()) {
		(0, _) => (OriginKind::SovereignAccount, got.clone().map(|a| Org::Signed(Acc::Raw(a.into())))),
		(1, (1, [])) => (OriginKind::Native, Some(Org::Relay)),
		(1, (1, [Parachain(id)])) => (OriginKind::Native, Some(Org::Sibling(*id))),
		(1, (0, [AccountJ::AccountId32 { id, network: None | Some(NetworkId::Kusama) }])) => (OriginKind::Native, Some(Org::Signed(Acc::Raw(*id)))),
		(1, _) => (OriginKind::Native, None),
		(2, _) => (OriginKind::Superuser, None),
		(_, _) => (OriginKind::Xcm, Some(Org::Xcm(c.place.clone()))),
	};
	let acts = Powers::convert_origin(c.place.clone(), kind).ok().map(|o| o.caller);
	req_eq!(acts, may.map(|o| o.caller()), "what a message of kind {kind:?} from {:?} acts as", c.place);
	Ok(())
}

// ---- R10

#[derive(Clone, Debug, Serialize, Deserialize)]
pub enum Pick {
	Definite(u8),
	All,
	AllCounted(u32),
	AllOf { fungible: bool },
	AllOfCounted { fungible: bool, count: u32 },
}
#[derive(Clone, Debug, Serialize, Deserialize)]
pub struct CostCase {
	kind: u8,
	pick: Pick,
	more: u8,
	place: Location,
	noise: u64,
	other_place: Location,
	other_noise: u64,
}
pub fn costs() -> BoxedStrategy<CostCase> {
	let count = || prop_oneof![4 => 0u32..5, 1 => 60u32..70, 2 => 95u32..105, 1 => 126u32..130, 1 => any::<u32>()];
	let pick = prop_oneof![
		5 => 0u8..30,
		1 => 95u8..105,
	]
	.prop_map(Pick::Definite);
	let pick = prop_oneof![
		4 => pick,
		1 => Just(Pick::All),
		2 => count().prop_map(Pick::AllCounted),
		1 => any::<bool>().prop_map(|fungible| Pick::AllOf { fungible }),
		2 => (any::<bool>(), count()).prop_map(|(fungible, count)| Pick::AllOfCounted { fungible, count }),
	];
	(0u8..48, pick, 0u8..10, location(), any::<u64>(), location(), any::<u64>())
		.prop_map(|(kind, pick, more, place, noise, other_place, other_noise)| CostCase { kind, pick, more, place, noise, other_place, other_noise })
		.boxed()
}
fn some_assets(n: u32, noise: u64) -> Assets {
	(0..n)
		.map(|i| {
			let id = AssetId(at(1, &[Parachain(1000), GeneralIndex(noise as u128 + i as u128)]));
			let fun = if (noise >> (i % 64)) & 1 == 0 { Fungible(1 + noise as u128) } else { Fungibility::NonFungible(AssetInstance::Index(noise as u128)) };
			Asset { id, fun }
		})
		.collect::<Vec<_>>()
		.into()
}
fn filter(p: &Pick, noise: u64) -> AssetFilter {
	let id = AssetId(at(1, &[GeneralIndex(noise as u128)]));
	let fun = |f: bool| if f { WildFungibility::Fungible } else { WildFungibility::NonFungible };
	match p {
		Pick::Definite(n) => AssetFilter::Definite(some_assets(*n as u32, noise)),
		Pick::All => AssetFilter::Wild(WildAsset::All),
		Pick::AllCounted(n) => AssetFilter::Wild(WildAsset::AllCounted(*n)),
		Pick::AllOf { fungible } => AssetFilter::Wild(WildAsset::AllOf { id, fun: fun(*fungible) }),
		Pick::AllOfCounted { fungible, count } => AssetFilter::Wild(WildAsset::AllOfCounted { id, fun: fun(*fungible), count: *count }),
	}
}
fn instruction(kind: u8, pick: &Pick, place: &Location, noise: u64) -> Instruction<RuntimeCall> {
	let n = if let Pick::Definite(n) = pick { *n as u32 } else { 1 };
	let assets = some_assets(n, noise);
	let asset = some_assets(1, noise).into_inner().remove(0);
	let filter = filter(pick, noise);
	let place = place.clone();
	let weight = Weight::from_parts(noise, noise >> 3);
	let info = QueryResponseInfo { destination: place.clone(), query_id: noise, max_weight: weight };
	let xcm = Xcm(vec![ClearOrigin; (noise % 4) as usize]);
	let bytes = vec![noise as u8; (noise % 40) as usize];
	match kind {
		0 => WithdrawAsset(assets),
		1 => ReserveAssetDeposited(assets),
		2 => ReceiveTeleportedAsset(assets),
		3 => QueryResponse { query_id: noise, response: Default::default(), max_weight: weight, querier: Some(place) },
		4 => TransferAsset { assets, beneficiary: place },
		5 => TransferReserveAsset { assets, dest: place, xcm },
		6 => Transact { origin_kind: OriginKind::Native, require_weight_at_most: Weight::zero(), call: bytes.into() },
		7 => HrmpNewChannelOpenRequest { sender: noise as u32, max_message_size: 1, max_capacity: 1 },
		8 => HrmpChannelAccepted { recipient: noise as u32 },
		9 => HrmpChannelClosing { initiator: noise as u32, sender: 1, recipient: 2 },
		10 => ClearOrigin,
		11 => DescendOrigin(place.interior().clone()),
		12 => ReportError(info),
		13 => DepositAsset { assets: filter, beneficiary: place },
		14 => DepositReserveAsset { assets: filter, dest: place, xcm },
		15 => ExchangeAsset { give: filter, want: assets, maximal: noise % 2 == 0 },
		16 => InitiateReserveWithdraw { assets: filter, reserve: place, xcm },
		17 => InitiateTeleport { assets: filter, dest: place, xcm },
		18 => ReportHolding { response_info: info, assets: filter },
		19 => BuyExecution { fees: asset, weight_limit: if noise % 2 == 0 { Unlimited } else { Limited(weight) } },
		20 => RefundSurplus,
		21 => SetErrorHandler(Xcm(vec![])),
		22 => SetAppendix(Xcm(vec![])),
		23 => ClearError,
		24 => ClaimAsset { assets, ticket: place },
		25 => Trap(noise),
		26 => SubscribeVersion { query_id: noise, max_response_weight: weight },
		27 => UnsubscribeVersion,
		28 => BurnAsset(assets),
		29 => ExpectAsset(assets),
		30 => ExpectOrigin((noise % 2 == 0).then_some(place)),
		31 => ExpectError((noise % 2 == 0).then_some((noise as u32, XcmError::Overflow))),
		32 => ExpectTransactStatus(MaybeErrorCode::Error(bytes)),
		33 => QueryPallet { module_name: bytes, response_info: info },
		34 => ExpectPallet { index: noise as u32, name: bytes.clone(), module_name: bytes, crate_major: 1, min_crate_minor: 1 },
		35 => ReportTransactStatus(info),
		36 => ClearTransactStatus,
		37 => UniversalOrigin(Parachain(noise as u32)),
		38 => ExportMessage { network: NetworkId::Polkadot, destination: place.interior().clone(), xcm },
		39 => LockAsset { asset, unlocker: place },
		40 => UnlockAsset { asset, target: place },
		41 => NoteUnlockable { asset, owner: place },
		42 => RequestUnlock { asset, locker: place },
		43 => SetFeesMode { jit_withdraw: noise % 2 == 0 },
		44 => SetTopic([noise as u8; 32]),
		45 => ClearTopic,
		46 => AliasOrigin(place),
		_ => UnpaidExecution { weight_limit: Limited(weight), check_origin: Some(place) },
	}
}
/// Those the chain offers nobody.
const UNSUPPORTED: [u8; 12] = [7, 8, 9, 15, 37, 38, 39, 40, 41, 42, 46, 46];
/// Those that name the assets they handle, one by one.
const LISTS: [u8; 6] = [0, 2, 4, 5, 28, 29];
/// Those that say which of the held assets they handle.
const FILTERS: [u8; 4] = [13, 14, 16, 17];
pub fn check_costs(c: &CostCase, cx: &mut Ctx) -> Verdict {
	let cost = |pick: &Pick, place: &Location, noise: u64| Scales::instr_weight(&instruction(c.kind, pick, place, noise)).unwrap_or(Weight::MAX);
	let w = cost(&c.pick, &c.place, c.noise);
	req_eq!(w, cost(&c.pick, &c.other_place, c.other_noise), "the cost of instruction {} for other contents of the same size", c.kind);
	cx.nontrivial(&(c.kind, format!("{:?}", c.pick)));
	if UNSUPPORTED.contains(&c.kind) {
		cx.label("unsupported");
		req_eq!(w, Weight::MAX, "the cost of the unsupported instruction {}", c.kind);
		return Ok(());
	}
	// What is supported can be bought: a block has room for it.
	let block = Weight::from_parts(500_000_000_000, 5 * 1024 * 1024);
	let scales = LISTS.contains(&c.kind) || FILTERS.contains(&c.kind);
	if !scales || matches!(c.pick, Pick::Definite(0..=30)) {
		req!(w.all_lte(block), "instruction {} costs {w:?}, more than a block has", c.kind);
	}
	if !scales {
		cx.label("of fixed cost");
		req!(w.ref_time() > 0, "instruction {} costs nothing", c.kind);
		return Ok(());
	}
	cx.label("by the number of assets");
	let one = cost(&Pick::Definite(1), &c.place, c.noise);
	req!(one.ref_time() > 0, "instruction {} costs nothing for an asset", c.kind);
	// Depositing never costs more than a fixed amount of time, and no proof.
	let capped = |w: Weight| if c.kind == 13 { w.min(Weight::from_parts(1_000_000_000, 0)) } else { w };
	let stands_for = match (&c.pick, FILTERS.contains(&c.kind)) {
		(Pick::Definite(n), _) => *n as u64,
		(_, false) => 1,
		(Pick::All, _) => 100,
		(Pick::AllCounted(n) | Pick::AllOfCounted { count: n, .. }, _) => (*n as u64).min(100),
		(Pick::AllOf { fungible: true }, _) => 1,
		// as many as can be held at all
		(Pick::AllOf { fungible: false }, _) => 128,
	};
	req_eq!(w, capped(one.saturating_mul(stands_for)), "the cost of instruction {} for {:?}", c.kind, c.pick);
	if let Pick::Definite(n) = c.pick {
		let more = cost(&Pick::Definite(n.saturating_add(c.more)), &c.place, c.noise);
		req!(w.all_lte(more), "instruction {} costs {w:?} for {n} assets and {more:?} for {} more", c.kind, c.more);
	}
	Ok(())
}

// ---- R11

#[derive(Clone, Debug, Serialize, Deserialize)]
pub enum Ask {
	/// to be run for nothing, with a limit on the weight
	Free(Option<u64>),
	/// to be run for nothing, not at the beginning
	FreeLater,
	/// nothing said about payment
	Silent,
	/// with payment for some weight
	Paid(Option<u64>),
}
/// What somebody on the chain would execute or teleport.
#[derive(Clone, Debug, Serialize, Deserialize)]
pub struct OwnCase {
	who: Location,
	/// instructions, by number
	message: Vec<(u8, u64)>,
	amounts: Vec<u64>,
}
pub fn own() -> BoxedStrategy<OwnCase> {
	let who = prop_oneof![
		3 => (acc(), tag()).prop_map(|(a, network)| at(0, &[AccountJ::AccountId32 { network, id: a.account().into() }])),
		2 => (body(), part()).prop_map(|(id, part)| at(0, &[Plurality { id, part }])),
		1 => Just(at(0, &[])),
		2 => location(),
	];
	(who, vec((0u8..48, any::<u64>()), 0..6), vec(any::<u64>(), 0..4)).prop_map(|(who, message, amounts)| OwnCase { who, message, amounts }).boxed()
}
pub fn check_own(c: &OwnCase, cx: &mut Ctx) -> Verdict {
	use frame_support::traits::Contains;
	fresh();
	let message = Xcm(c.message.iter().map(|(kind, noise)| instruction(*kind, &Pick::Definite(2), &c.who, *noise)).collect());
	let assets: Vec<Asset> = c.amounts.iter().map(|n| Asset { id: AssetId(relay()), fun: Fungible(*n as u128) }).collect();
	cx.nontrivial(&format!("{c:?}"));
	req!(!<<Runtime as pallet_xcm::Config>::XcmExecuteFilter as Contains<_>>::contains(&(c.who.clone(), message)), "{:?} executes a message of its own", c.who);
	req!(!<<Runtime as pallet_xcm::Config>::XcmTeleportFilter as Contains<_>>::contains(&(c.who.clone(), assets)), "{:?} teleports {:?}", c.who, c.amounts);
	Ok(())
}

#[derive(Clone, Debug, Serialize, Deserialize)]
pub struct GateCase {
	from: Location,
	/// how the origin is narrowed first
	into: Vec<Junction>,
	/// whether another consensus is claimed before
	universal: Option<Junction>,
	ask: Ask,
	weight: u64,
	credit: u64,
}
pub fn gates() -> BoxedStrategy<GateCase> {
	let from = prop_oneof![
		4 => Just(relay()),
		4 => (body(), part()).prop_map(|(id, part)| at(1, &[Plurality { id, part }])),
		1 => part().prop_map(|part| at(1, &[Plurality { id: BodyId::Executive, part }])),
		1 => part().prop_map(|part| at(0, &[Plurality { id: BodyId::Executive, part }])),
		1 => part().prop_map(|part| at(1, &[Parachain(1000), Plurality { id: BodyId::Executive, part }])),
		3 => Just(asset_hub()),
		1 => (0u8..3).prop_map(|p| at(p, &[])),
		3 => location(),
	];
	let limit = || prop_oneof![1 => Just(None), 2 => (0u64..4).prop_map(Some)];
	let ask = prop_oneof![6 => limit().prop_map(Ask::Free), 1 => Just(Ask::FreeLater), 1 => Just(Ask::Silent), 2 => limit().prop_map(Ask::Paid)];
	let narrow = prop_oneof![2 => junction(), 1 => part().prop_map(|part| Plurality { id: BodyId::Executive, part })];
	(from, prop_oneof![3 => vec(narrow.clone(), 0), 2 => vec(narrow, 1..3)], prop_oneof![8 => Just(None), 1 => junction().prop_map(Some)], ask, 1u64..4, prop_oneof![4 => Just(0u64), 1 => 0u64..4])
		.prop_map(|(from, into, universal, ask, weight, credit)| GateCase { from, into, universal, ask, weight, credit })
		.boxed()
}
pub fn check_gates(c: &GateCase, cx: &mut Ctx) -> Verdict {
	let w = |n: u64| Weight::from_parts(n * 1000, n * 10);
	let mut message: Vec<Instruction<RuntimeCall>> = vec![];
	let mut who = Some(c.from.clone());
	if let Some(j) = &c.universal {
		message.push(UniversalOrigin(*j));
		who = None; // nobody who runs for nothing
	}
	for j in &c.into {
		message.push(DescendOrigin([*j].into()));
		who = who.and_then(|mut l| l.push_interior(*j).ok().map(|_| l));
	}
	let full = c.from.interior().len() + c.into.len() > 8;
	let limit = |l: &Option<u64>| l.map_or(Unlimited, |n| Limited(w(n)));
	let fee = Asset { id: AssetId(relay()), fun: Fungible(1) };
	let enough = |l: &Option<u64>| l.map_or(true, |n| n >= c.weight);
	let privileged = who.as_ref().map_or(false, |l| matches!(l.unpack(), (1, []) | (1, [Plurality { id: BodyId::Executive, .. }])));
	let expected = match &c.ask {
		Ask::Free(l) => {
			message.push(UnpaidExecution { weight_limit: limit(l), check_origin: None });
			privileged && enough(l)
		}
		Ask::FreeLater => {
			message.push(ClearOrigin);
			message.push(UnpaidExecution { weight_limit: Unlimited, check_origin: None });
			false
		}
		Ask::Silent => false,
		Ask::Paid(l) => {
			message.push(WithdrawAsset(fee.clone().into()));
			message.push(BuyExecution { fees: fee, weight_limit: limit(l) });
			enough(l) && (!full || c.universal.is_some())
		}
	};
	message.push(Trap(1));
	if privileged || !c.into.is_empty() {
		cx.nontrivial(&(c.from.encode(), format!("{:?}{:?}{:?}", c.into, c.ask, c.universal)));
	}
	let expected = expected || c.credit >= c.weight;
	let mut p = Properties { weight_credit: w(c.credit), message_id: None };
	let passes = Gate::should_execute(&c.from, &mut message, w(c.weight), &mut p).is_ok();
	cx.label(if passes { "let in" } else { "kept out" });
	req_eq!(passes, expected, "whether a message from {:?} asking {:?} is run", who, c.ask);
	Ok(())
}

// ---- R20

#[derive(Clone, Debug, Serialize, Deserialize)]
pub enum Way {
	Withdraw,
	Reserve,
	Teleport,
}
#[derive(Clone, Debug, Serialize, Deserialize)]
pub enum Size {
	/// part of what the account has, in parts of 256
	Part(u8),
	All,
	MoreThanAll,
	Exactly(u64),
}
#[derive(Clone, Debug, Serialize, Deserialize)]
pub enum Do {
	Take(Way, u8, Size),
	DepositAll(u8),
	DepositOf(u8, u8),
	DepositSome(u8, Size, u8),
	Transfer(u8, Size, u8),
	Clear,
	Descend(u8),
	Alias(u8),
	Fail,
	/// a call that sends native tokens to a user
	Call { kind: u8, amount: Size, to: u8 },
}
#[derive(Clone, Debug, Serialize, Deserialize)]
pub enum Head {
	Paid { way: Way, assets: Vec<(u8, Size)>, then: Vec<Do>, fee: u8, fee_part: u8, limit: Option<bool> },
	Free,
	None,
}
#[derive(Clone, Debug, Serialize, Deserialize)]
pub struct MessageCase {
	from: u8,
	narrowed: Option<u8>,
	head: Head,
	body: Vec<Do>,
	mins: [u32; 8],
	/// whether the sender has plenty of everything
	rich: bool,
	/// what the places have of the assets, in units of ten billion
	wealth: Vec<(u8, u8, u16)>,
}
fn the_asset(n: u8) -> Location {
	let hub = |i: u128| at(1, &[Parachain(1000), PalletInstance(50), GeneralIndex(i)]);
	match n % 8 {
		0 => relay(),
		1 => hub(1984),
		2 => polkadot(),
		3 => hub(7),
		4 => at(2, &[GlobalConsensus(NetworkId::Polkadot), Parachain(1000), PalletInstance(50), GeneralIndex(1)]),
		5 => at(1, &[Parachain(2001), PalletInstance(50), GeneralIndex(1)]),
		6 => at(0, &[PalletInstance(13), GeneralIndex(5)]),
		_ => hub(9999), // not registered
	}
}
fn the_place(n: u8) -> Location {
	let voice = |i: u32| at(0, &[Plurality { id: BodyId::Index(i), part: BodyPart::Voice }]);
	match n % 12 {
		0 => relay(),
		1 => asset_hub(),
		2 => sibling(2001),
		3 => user_at(1, 0),
		4 => user_at(0, 1),
		5 => voice(1),
		6 => voice(65_537),
		7 => at(1, &[Parachain(1000), AccountJ::AccountId32 { network: None, id: Acc::User(2).account().into() }]),
		8 => at(1, &[Plurality { id: BodyId::Executive, part: BodyPart::Voice }]),
		9 => user_at(0, 0),
		10 => at(1, &[AccountJ::AccountId32 { network: Some(NetworkId::Polkadot), id: Acc::User(0).account().into() }]),
		_ => user_at(0, 3),
	}
}
fn the_step(n: u8) -> Junction {
	match n % 4 {
		0 => AccountJ::AccountId32 { network: None, id: Acc::User(0).account().into() },
		1 => Parachain(1000),
		2 => Plurality { id: BodyId::Executive, part: BodyPart::Voice },
		_ => GeneralIndex(1),
	}
}
pub fn messages() -> BoxedStrategy<MessageCase> {
	let asset = || prop_oneof![3 => Just(0u8), 3 => Just(1), 2 => Just(2), 3 => 3u8..8];
	let place = || prop_oneof![6 => 0u8..6, 4 => 6u8..12];
	let way = || prop_oneof![4 => Just(Way::Withdraw), 4 => Just(Way::Reserve), 1 => Just(Way::Teleport)];
	let size = || {
		prop_oneof![
			5 => any::<u8>().prop_map(Size::Part),
			2 => Just(Size::All),
			1 => Just(Size::MoreThanAll),
			4 => prop_oneof![1u64..1_000_000_000_000_000, Just(1u64), 1u64..1_000_000].prop_map(Size::Exactly)
		]
	};
	let take = || (way(), asset(), size()).prop_map(|(w, a, s)| Do::Take(w, a, s));
	let step = || {
		prop_oneof![
			2 => take(),
			6 => place().prop_map(Do::DepositAll),
			2 => (asset(), place()).prop_map(|(a, p)| Do::DepositOf(a, p)),
			3 => (asset(), size(), place()).prop_map(|(a, s, p)| Do::DepositSome(a, s, p)),
			3 => (asset(), size(), place()).prop_map(|(a, s, p)| Do::Transfer(a, s, p)),
			1 => Just(Do::Clear),
			1 => any::<u8>().prop_map(Do::Descend),
			1 => Just(Do::Fail),
			2 => (0u8..4, size(), 0u8..4).prop_map(|(kind, amount, to)| Do::Call { kind, amount, to }),
		]
	};
	let between = prop_oneof![3 => Just(Do::Clear), 2 => any::<u8>().prop_map(Do::Descend), 1 => any::<u8>().prop_map(Do::Alias)];
	let then = prop_oneof![4 => vec(between.clone(), 0), 2 => vec(between, 1..3)];
	let limit = prop_oneof![6 => Just(None), 4 => Just(Some(true)), 1 => Just(Some(false))];
	// Usually the fee is paid with something that was brought.
	let brought = prop_oneof![6 => vec((asset(), size()), 1..3), 1 => vec((asset(), size()), 3)];
	let paid = (way(), brought, then, asset(), any::<u8>(), any::<u8>(), limit).prop_map(|(way, assets, then, other, which, fee_part, limit)| {
		let fee = if which < 200 { assets[which as usize % assets.len()].0 } else { other };
		Head::Paid { way, assets, then, fee, fee_part, limit }
	});
	let head = prop_oneof![12 => paid, 2 => Just(Head::Free), 1 => Just(Head::None)];
	let min = || prop_oneof![Just(1u32), 1u32..1000, any::<u32>().prop_map(|x| x.max(1))];
	let mins = vec(min(), 8).prop_map(|v| [v[0], v[1], v[2], v[3], v[4], v[5], v[6], v[7]]);
	let wealth = vec((place(), asset(), prop_oneof![3 => 1u16..100, 1 => any::<u16>()]), 0..10);
	(prop_oneof![3 => Just(1u8), 5 => place()], prop_oneof![6 => Just(None), 1 => any::<u8>().prop_map(Some)], head, vec(step(), 0..6), mins, (prop_oneof![2 => Just(true), 1 => Just(false)], wealth))
		.prop_map(|(from, narrowed, mut head, body, mins, (rich, wealth))| {
			// What is claimed to have been deposited is usually something the sender vouches for.
			if let Head::Paid { way: Way::Reserve, assets, fee, .. } = &mut head {
				let own: &[u8] = match from { 0 => &[0], 1 => &[1, 2, 3, 4, 7], _ => &[] };
				if !own.is_empty() && mins[0] % 4 != 0 {
					for (i, a) in assets.iter_mut().enumerate() {
						a.0 = own[(a.0 as usize + i) % own.len()];
					}
					*fee = assets[0].0;
				}
			}
			MessageCase { from, narrowed, head, body, mins, rich, wealth }
		})
		.boxed()
}

type Purse = BTreeMap<(u8, AccountId), u128>;
/// What the books should say.
#[derive(Clone)]
struct Books {
	purse: Purse,
	mins: BTreeMap<u8, u128>,
}
impl Books {
	fn has(&self, a: u8, who: &AccountId) -> u128 {
		self.purse.get(&(a, who.clone())).copied().unwrap_or(0)
	}
	fn take(&mut self, a: u8, who: &AccountId, n: u128) -> Option<()> {
		self.mins.get(&a)?;
		// (The ledger of the stand-ins keeps what is less than the minimum.)
		let left = self.has(a, who).checked_sub(n)?;
		self.purse.insert((a, who.clone()), left);
		Some(())
	}
	fn give(&mut self, a: u8, who: &AccountId, n: u128) -> Option<()> {
		let min = *self.mins.get(&a)?;
		let has = self.has(a, who);
		if has == 0 && n < min {
			return None;
		}
		self.purse.insert((a, who.clone()), has.checked_add(n)?);
		Some(())
	}
}
fn key_of(a: u8) -> Vec<u8> {
	if a == 0 {
		kreivo_deps::money::NATIVE.encode()
	} else {
		AsFungibleAssetLocation::convert(&the_asset(a)).unwrap_or_else(|| vkit::broken("an asset of the chain is unknown")).encode()
	}
}
fn local(a: u8) -> FungibleAssetLocation {
	AsFungibleAssetLocation::convert(&the_asset(a)).unwrap_or_else(|| vkit::broken("an asset of the chain is unknown"))
}
fn account_at(l: &Location) -> Option<AccountId> {
	accounts_at(l)[0].clone()
}
const PLENTY: u128 = 1_000_000_000_000_000;
fn amount_of(s: &Size, has: u128) -> u128 {
	match s {
		Size::Part(p) => (if has == 0 { PLENTY } else { has } / 256 * (*p as u128 + 1)).max(1),
		Size::All => has.max(1),
		Size::MoreThanAll => has + 1,
		Size::Exactly(n) => *n as u128,
	}
}
fn narrow(c: &MessageCase) -> Location {
	let mut l = the_place(c.from);
	if let Some(n) = c.narrowed {
		let _ = l.push_interior(the_step(n));
	}
	l
}
pub fn check_messages(c: &MessageCase, cx: &mut Ctx) -> Verdict {
	fresh();
	let mut books = Books { purse: BTreeMap::new(), mins: BTreeMap::new() };
	books.mins.insert(0, least());
	for a in 1..7u8 {
		let min = c.mins[a as usize] as u128;
		ledger::set_asset(&local(a), &ledger::Asset { issuance: 0, min });
		books.mins.insert(a, min);
	}
	let mut endow = |a: u8, who: AccountId, n: u128| {
		if a == 0 {
			fund(&who, n)
		} else {
			ledger::endow(&local(a), &who, n)
		}
		*books.purse.entry((a, who)).or_default() += n;
	};
	for a in 0..7 {
		endow(a, treasury(), PLENTY);
	}
	if let (true, Some(who)) = (c.rich, account_at(&narrow(c))) {
		for a in 0..7 {
			endow(a, who.clone(), PLENTY);
		}
	}
	for (p, a, n) in &c.wealth {
		if let (Some(who), true) = (account_at(&the_place(*p)), *a < 7) {
			endow(*a, who, *n as u128 * 10_000_000_000);
		}
	}
	let start = books.clone();

	// The message, as it is written. Amounts refer to what the sender has at the beginning.
	let from = the_place(c.from);
	let narrowed = c.narrowed.map(the_step);
	let sender = narrow(c);
	let mut who = Some(sender.clone());
	let wealth = |a: u8| account_at(&sender).map_or(0, |w| start.has(a, &w));
	let asset = |a: u8, n: u128| Asset { id: AssetId(the_asset(a)), fun: Fungible(n) };
	let amount = |a: u8, s: &Size| amount_of(s, wealth(a));
	let to_user = |n: u8| Acc::User(n).account();
	let take = |w: &Way, list: Vec<Asset>| match w {
		Way::Withdraw => WithdrawAsset(list.into()),
		Way::Reserve => ReserveAssetDeposited(list.into()),
		Way::Teleport => ReceiveTeleportedAsset(list.into()),
	};
	let write = |d: &Do| -> Instruction<RuntimeCall> {
		match d {
			Do::Take(w, a, s) => take(w, vec![asset(*a, amount(*a, s))]),
			Do::DepositAll(p) => DepositAsset { assets: AssetFilter::Wild(WildAsset::AllCounted(4)), beneficiary: the_place(*p) },
			Do::DepositOf(a, p) => DepositAsset {
				assets: AssetFilter::Wild(WildAsset::AllOf { id: AssetId(the_asset(*a)), fun: WildFungibility::Fungible }),
				beneficiary: the_place(*p),
			},
			Do::DepositSome(a, s, p) => DepositAsset { assets: AssetFilter::Definite(vec![asset(*a, amount(*a, s))].into()), beneficiary: the_place(*p) },
			Do::Transfer(a, s, p) => TransferAsset { assets: vec![asset(*a, amount(*a, s))].into(), beneficiary: the_place(*p) },
			Do::Clear => ClearOrigin,
			Do::Descend(n) => DescendOrigin([the_step(*n)].into()),
			Do::Alias(n) => AliasOrigin(the_place(*n)),
			Do::Fail => Trap(7),
			Do::Call { kind, amount: s, to } => Transact {
				origin_kind: [OriginKind::Native, OriginKind::SovereignAccount, OriginKind::Superuser, OriginKind::Xcm][*kind as usize % 4],
				require_weight_at_most: Weight::from_parts(1_000_000_000, 10_000),
				call: call(10, 0, (Raw(address(&to_user(*to))), Compact(amount(0, s)))).encode().into(),
			},
		}
	};
	let mut message: Vec<Instruction<RuntimeCall>> = vec![];
	if let Some(j) = narrowed {
		message.push(DescendOrigin([j].into()));
	}
	let mut brought: BTreeMap<u8, u128> = BTreeMap::new();
	let mut fee = None;
	let mut do_list: Vec<Do> = vec![];
	let mut few = false;
	match &c.head {
		Head::Paid { way, assets, then, fee: f, fee_part, limit } => {
			for (a, s) in assets {
				brought.entry(*a).or_insert_with(|| amount(*a, s));
			}
			few = brought.len() <= 2;
			message.push(take(way, brought.iter().map(|(a, n)| asset(*a, *n)).collect()));
			message.extend(then.iter().map(|d| write(d)));
			let n = (brought.get(f).copied().unwrap_or(1) / 256 * (*fee_part as u128 + 1)).max(1);
			fee = Some((*f, n));
			message.push(BuyExecution { fees: asset(*f, n), weight_limit: if limit.is_none() { Unlimited } else { Limited(Weight::MAX) } });
		}
		Head::Free => message.push(UnpaidExecution { weight_limit: Unlimited, check_origin: None }),
		Head::None => (),
	}
	do_list.extend(c.body.iter().cloned());
	message.extend(do_list.iter().map(|d| write(d)));
	let mut xcm = Xcm(message);
	let weight = Scales::weight(&mut xcm);
	// A limit is just enough or just short.
	let mut short = false;
	if let (Head::Paid { limit: Some(enough), .. }, Ok(w)) = (&c.head, weight) {
		let w = if *enough { w } else { w.saturating_sub(Weight::from_parts(1, 0)) };
		short = !*enough;
		for i in xcm.0.iter_mut() {
			if let BuyExecution { weight_limit, .. } = i {
				*weight_limit = Limited(w);
			}
		}
	}

	// What should come of it.
	let exec = matches!(sender.unpack(), (1, []) | (1, [Plurality { id: BodyId::Executive, .. }]));
	let steps = xcm.0.len();
	let mut expected = Outcome::Complete;
	let mut fees_due: Option<(u8, u128)> = None;
	let mut holding: BTreeMap<u8, u128> = BTreeMap::new();
	let mut minted: BTreeMap<u8, u128> = BTreeMap::new();
	let alias = matches!(&c.head, Head::Paid { then, .. } if then.iter().any(|d| matches!(d, Do::Alias(_))));
	let runs = match (&c.head, weight) {
		(_, Err(())) => false,
		_ if alias => false,
		(Head::Paid { .. }, _) => few && !short,
		(Head::Free, _) => exec,
		// nothing to run, which is done for nothing
		(Head::None, _) => steps == 0,
	};
	if alias {
		req!(weight.is_err() || weight == Ok(Weight::MAX), "a message that changes its origin at will has a price: {weight:?}");
	}
	if steps == 0 {
	} else if !runs {
		expected = Outcome::Refused;
	} else {
		let mut i = narrowed.is_some() as u32;
		let mut all: Vec<Do> = vec![];
		if let Head::Paid { then, .. } = &c.head {
			all.extend(then.iter().cloned());
		}
		let lead = all.len();
		all.extend(do_list.iter().cloned());
		// One instruction: all of it or nothing.
		let bring = |books: &mut Books, way: &Way, list: &BTreeMap<u8, u128>, who: &Option<Location>| -> Option<()> {
			let l = who.as_ref()?;
			match way {
				Way::Teleport => return None,
				Way::Reserve => list.keys().all(|a| trusted(&the_asset(*a), l)).then_some(())?,
				Way::Withdraw => {
					let mut next = books.clone();
					for (a, n) in list {
						next.take(*a, &account_at(l)?, *n)?;
					}
					*books = next;
				}
			}
			Some(())
		};
		let mut add = |holding: &mut BTreeMap<u8, u128>, way: &Way, list: &BTreeMap<u8, u128>| {
			for (a, n) in list {
				*holding.entry(*a).or_default() += n;
				if matches!(way, Way::Reserve) {
					*minted.entry(*a).or_default() += n;
				}
			}
		};
		let mut failed = false;
		if let Head::Paid { way, .. } = &c.head {
			match bring(&mut books, way, &brought, &who) {
				Some(()) => add(&mut holding, way, &brought),
				None => failed = true,
			}
			i += !failed as u32;
		} else {
			i += 1;
		}
		let mut done = 0;
		while !failed {
			if done == lead {
				if let Some((f, n)) = fee {
					// buying the execution
					let price = Runtime::api_query_weight_to_fee(weight.expect("weighed"));
					let due = match f {
						0 => Some(price),
						1..=4 => {
							let min = books.mins[&f];
							Some((price * min / least()).max(min))
						}
						_ => None,
					};
					match due {
						Some(due) if holding.get(&f).map_or(false, |h| *h >= n) && n >= due => {
							let h = holding.get_mut(&f).expect("held");
							*h -= due;
							fees_due = Some((f, due));
							i += 1;
						}
						_ => failed = true,
					}
				}
			}
			if failed || done == all.len() {
				break;
			}
			let mut next = books.clone();
			let mut held = holding.clone();
			let signer = |kind: u8, l: &Location| match kind % 4 {
				0 => matches!(l.unpack(), (0, [AccountJ::AccountId32 { network: None, .. }])).then(|| account_at(l)).flatten(),
				1 => account_at(l),
				_ => None,
			};
			let ok = (|| -> Option<()> {
				let held = &mut held;
				let mut deposit = |next: &mut Books, list: Vec<(u8, u128)>, p: u8| -> Option<()> {
					for (a, n) in list.into_iter().filter(|x| x.1 > 0) {
						next.give(a, &account_at(&the_place(p))?, n)?;
						*held.get_mut(&a)? -= n;
					}
					Some(())
				};
				match &all[done] {
					Do::Take(way, a, s) => {
						let list = BTreeMap::from([(*a, amount(*a, s))]);
						bring(&mut next, way, &list, &who)?;
						add(held, way, &list);
						Some(())
					}
					Do::DepositAll(p) => deposit(&mut next, holding.clone().into_iter().collect(), *p),
					Do::DepositOf(a, p) => deposit(&mut next, holding.get(a).map(|n| (*a, *n)).into_iter().collect(), *p),
					Do::DepositSome(a, s, p) => {
						let n = amount(*a, s);
						(holding.get(a).copied().unwrap_or(0) >= n).then_some(())?;
						deposit(&mut next, vec![(*a, n)], *p)
					}
					Do::Transfer(a, s, p) => {
						let source = account_at(who.as_ref()?)?;
						let to = account_at(&the_place(*p))?;
						let n = amount(*a, s);
						if source == to {
							return (next.mins.contains_key(a) && next.has(*a, &source) >= n).then_some(());
						}
						next.take(*a, &source, n)?;
						next.give(*a, &to, n)
					}
					Do::Clear => {
						who = None;
						Some(())
					}
					Do::Descend(n) => who.as_mut()?.push_interior(the_step(*n)).ok(),
					Do::Alias(_) | Do::Fail => None,
					Do::Call { kind, amount: s, to } => {
						let l = who.as_ref()?;
						let source = signer(*kind, l);
						// No power for a superuser, and no account where there is none.
						let converts = match kind % 4 {
							0 => source.is_some() || matches!(l.unpack(), (1, []) | (1, [Parachain(_)])),
							1 => source.is_some(),
							2 => false,
							_ => true,
						};
						converts.then_some(())?;
						if let Some(source) = source {
							let n = amount(0, s);
							let to = to_user(*to);
							let mut after = next.clone();
							if source != to && after.take(0, &source, n).and_then(|_| after.give(0, &to, n)).is_some() {
								next = after;
							}
						}
						Some(())
					}
				}
			})();
			if ok.is_none() {
				failed = true;
				break;
			}
			books = next;
			holding = held;
			done += 1;
			i += 1;
		}
		if failed {
			expected = Outcome::Incomplete(i, XcmError::Overflow);
		}
	}
	if let Some((a, due)) = fees_due {
		books.give(a, &treasury(), due).expect("HARNESS-BUG: the treasury takes it");
	}
	holding.retain(|_, n| *n > 0);

	// What comes of it.
	let (outcome, left) = xcm_executor::XcmExecutor::<XcmConfig>::run(from.clone(), xcm, Weight::zero());
	let class = |o: &Outcome| match o {
		Outcome::Complete => "complete".to_string(),
		Outcome::Incomplete(i, _) => format!("stopped at {i}"),
		Outcome::Refused => "refused".to_string(),
	};
	if runs && !matches!(outcome, Outcome::Incomplete(0, _)) && steps > 2 {
		cx.nontrivial(&format!("{c:?}"));
	}
	cx.label(match &outcome {
		Outcome::Complete => "complete",
		Outcome::Incomplete(..) => "stopped",
		Outcome::Refused => "refused",
	});
	if fees_due.is_some() {
		cx.label("fee paid");
	}
	if !minted.is_empty() {
		cx.label("assets arrived");
	}
	req_eq!(class(&outcome), class(&expected), "how the message from {sender:?} ended ({outcome:?})");
	let left: BTreeMap<Location, u128> = left.fungible.into_iter().map(|(id, n)| (id.0, n)).collect();
	let held: BTreeMap<Location, u128> = holding.iter().map(|(a, n)| (the_asset(*a), *n)).collect();
	req_eq!(left, held, "what is left over in the end");
	let mut got: BTreeMap<(Vec<u8>, Vec<u8>), u128> = BTreeMap::new();
	for (a, w, x) in ledger::all_accounts() {
		if x.total() > 0 {
			got.insert((a, w), x.total());
		}
	}
	let mut want: BTreeMap<(Vec<u8>, Vec<u8>), u128> = BTreeMap::new();
	for ((a, w), n) in books.purse.iter().filter(|x| *x.1 > 0) {
		want.insert((key_of(*a), w.encode()), *n);
	}
	req_eq!(got, want, "the balances after the message from {sender:?}");
	Ok(())
}
