//! R25, R26: what is locked away for what is stored, and how much time and room things get.
use crate::money::{CENT, MILLICENT};
use frame_support::dispatch::DispatchClass;
use frame_support::traits::{fungible::HoldConsideration, Footprint, Get, WithdrawReasons};
use frame_support::weights::Weight;
use kreivo_deps::*;
use kreivo_runtime::*;
use serde::{Deserialize, Serialize};
use sp_runtime::traits::Convert;
use vkit::proptest::prelude::*;
use vkit::{req, req_eq, Ctx, Verdict};

fn of<G: Get<N>, N>() -> N {
	G::get()
}

// ---- R25

/// What is stored, and how much of it.
#[derive(Clone, Copy, Debug, Serialize, Deserialize, PartialEq, Eq, Hash)]
pub enum Stored {
	/// a call waiting for the consent of some
	Multisig,
	Proxies,
	Announcements,
	/// a call to be looked up by its hash, by its length
	Preimage,
	Asset,
	AssetMetadata,
	AssetAccount,
	AssetApproval,
	MembershipMetadata,
	MembershipAttribute,
	/// the storage of a contract, by its bytes, in as many items
	Contract(u32),
}
#[derive(Clone, Debug, Serialize, Deserialize)]
pub struct DepositCase {
	what: Stored,
	n: u32,
}
pub fn deposits() -> BoxedStrategy<DepositCase> {
	use Stored::*;
	let n = || prop_oneof![3 => 0u32..120, 2 => 0u32..5_000_000, 1 => any::<u32>()];
	let what = prop_oneof![
		Just(Multisig),
		Just(Proxies),
		Just(Announcements),
		Just(Preimage),
		Just(Asset),
		Just(AssetMetadata),
		Just(AssetAccount),
		Just(AssetApproval),
		Just(MembershipMetadata),
		Just(MembershipAttribute),
		n().prop_map(Contract),
	];
	(what, n()).prop_map(|(what, n)| DepositCase { what, n }).boxed()
}
/// How the price of a preimage is found.
trait Priced {
	fn price(bytes: u64) -> u128;
}
impl<A, F, R, D: Convert<Footprint, u128>> Priced for HoldConsideration<A, F, R, D, Footprint> {
	fn price(bytes: u64) -> u128 {
		D::convert(Footprint { count: 1, size: bytes })
	}
}
type Memberships = pallet_nfts::Instance2;
pub fn check_deposits(c: &DepositCase, cx: &mut Ctx) -> Verdict {
	// A hundredth of the relay chain's: two thousand cents an item, a tenth of a cent a byte.
	let price = |items: u128, bytes: u128| (items * 2_000 * CENT + bytes * 100 * MILLICENT) / 100;
	let n = c.n as u128;
	// What the modules ask for, from what they are configured with, and what is due: items and bytes.
	let (asked, due) = match c.what {
		Stored::Multisig => {
			let most: u32 = of::<<Runtime as pallet_multisig::Config>::MaxSignatories, _>();
			req_eq!(most, 100, "how many may have to consent");
			let (base, each): (u128, u128) = (of::<<Runtime as pallet_multisig::Config>::DepositBase, _>(), of::<<Runtime as pallet_multisig::Config>::DepositFactor, _>());
			(base + n * each, price(1, 88) + n * price(0, 32))
		}
		Stored::Proxies => {
			let most: u32 = <<Runtime as pallet_proxy::Config>::MaxProxies as Get<u16>>::get().into();
			req_eq!(most, 32, "how many proxies there may be");
			let (base, each): (u128, u128) = (of::<<Runtime as pallet_proxy::Config>::ProxyDepositBase, _>(), of::<<Runtime as pallet_proxy::Config>::ProxyDepositFactor, _>());
			(base + n * each, price(1, 40) + n * price(0, 33))
		}
		Stored::Announcements => {
			let most: u32 = <<Runtime as pallet_proxy::Config>::MaxPending as Get<u16>>::get().into();
			req_eq!(most, 32, "how many announcements there may be");
			let (base, each): (u128, u128) =
				(of::<<Runtime as pallet_proxy::Config>::AnnouncementDepositBase, _>(), of::<<Runtime as pallet_proxy::Config>::AnnouncementDepositFactor, _>());
			(base + n * each, price(1, 48) + n * price(0, 66))
		}
		Stored::Preimage => (<<Runtime as pallet_preimage::Config>::Consideration as Priced>::price(c.n as u64), price(2, 64) + n * price(0, 1)),
		Stored::AssetMetadata => {
			let (base, each): (u128, u128) = (
				of::<<Runtime as pallet_assets::Config<pallet_assets::Instance1>>::MetadataDepositBase, _>(),
				of::<<Runtime as pallet_assets::Config<pallet_assets::Instance1>>::MetadataDepositPerByte, _>(),
			);
			(base + n * each, price(1, 68) + n * price(0, 1))
		}
		Stored::Asset => (of::<<Runtime as pallet_assets::Config<pallet_assets::Instance1>>::AssetDeposit, _>(), 1_000_000_000_000 / 10),
		Stored::AssetAccount => (of::<<Runtime as pallet_assets::Config<pallet_assets::Instance1>>::AssetAccountDeposit, _>(), price(1, 16)),
		Stored::AssetApproval => (of::<<Runtime as pallet_assets::Config<pallet_assets::Instance1>>::ApprovalDeposit, _>(), CENT / 10),
		Stored::MembershipMetadata => {
			let (base, each): (u128, u128) = (
				of::<<Runtime as pallet_nfts::Config<Memberships>>::MetadataDepositBase, _>(),
				of::<<Runtime as pallet_nfts::Config<Memberships>>::DepositPerByte, _>(),
			);
			let free: (u128, u128) = (
				of::<<Runtime as pallet_nfts::Config<Memberships>>::CollectionDeposit, _>(),
				of::<<Runtime as pallet_nfts::Config<Memberships>>::ItemDeposit, _>(),
			);
			req_eq!(free, (0, 0), "the deposits for memberships");
			(base + n * each, price(1, 68) + n * price(0, 1))
		}
		Stored::MembershipAttribute => {
			let (base, each): (u128, u128) = (
				of::<<Runtime as pallet_nfts::Config<Memberships>>::AttributeDepositBase, _>(),
				of::<<Runtime as pallet_nfts::Config<Memberships>>::DepositPerByte, _>(),
			);
			(base + n * each, price(1, 0) + n * price(0, 1))
		}
		Stored::Contract(items) => {
			let (item, byte): (u128, u128) = (of::<<Runtime as pallet_contracts::Config>::DepositPerItem, _>(), of::<<Runtime as pallet_contracts::Config>::DepositPerByte, _>());
			let most: u128 = of::<<Runtime as pallet_contracts::Config>::DefaultDepositLimit, _>();
			req_eq!(most, price(1024, 1024 * 1024), "the deposit a contract may ask for when nothing is said");
			(items as u128 * item + n * byte, items as u128 * price(1, 0) + n * price(0, 1))
		}
	};
	req_eq!(asked, due, "the deposit for {} of {:?}", c.n, c.what);
	cx.label(match c.what {
		Stored::Multisig => "multisig",
		Stored::Proxies | Stored::Announcements => "proxies",
		Stored::Preimage => "preimage",
		Stored::Asset | Stored::AssetMetadata | Stored::AssetAccount | Stored::AssetApproval => "assets",
		Stored::MembershipMetadata | Stored::MembershipAttribute => "memberships",
		Stored::Contract(_) => "contracts",
	});
	if c.n > 0 {
		cx.nontrivial(&(c.what, c.n));
	}
	Ok(())
}

// ---- R26

#[derive(Clone, Debug, Serialize, Deserialize)]
pub struct RoomCase {
	/// a block
	at: u32,
}
pub fn rooms() -> BoxedStrategy<RoomCase> {
	let session = 6 * parachains_common::HOURS;
	let at = prop_oneof![
		2 => (0..u32::MAX / session, 0u32..3).prop_map(move |(k, d)| (k * session + d).saturating_sub(1)),
		1 => any::<u32>(),
	];
	at.prop_map(|at| RoomCase { at }).boxed()
}
/// What the rule of making blocks says: the time of the relay's slots, blocks to a slot, blocks ahead.
trait Pace {
	const PACE: (u32, u32, u32);
}
impl<T, const A: u32, const B: u32, const C: u32> Pace for cumulus_pallet_aura_ext::FixedVelocityConsensusHook<T, A, B, C> {
	const PACE: (u32, u32, u32) = (A, B, C);
}
trait Deep {
	const DEPTH: usize;
}
impl<T, const N: usize> Deep for [T; N] {
	const DEPTH: usize = N;
}
pub fn check_rooms(c: &RoomCase, cx: &mut Ctx) -> Verdict {
	use pallet_session::ShouldEndSession;
	use parachains_common::{DAYS, HOURS};
	// ---- sessions and slots
	let ends = <Runtime as pallet_session::Config>::ShouldEndSession::should_end_session(c.at);
	req_eq!(ends, c.at % (6 * HOURS) == 0, "whether a session ends at {}", c.at);
	req_eq!(<Runtime as pallet_session::Config>::NextSessionRotation::should_end_session(c.at), ends, "whether a session is said to end at {}", c.at);
	let kick: u32 = of::<<Runtime as pallet_collator_selection::Config>::KickThreshold, _>();
	req!(kick > 0 && kick % (6 * HOURS) == 0, "collators are dropped after {kick} blocks, which is not a number of sessions");
	let slot: u64 = of::<<Runtime as pallet_aura::Config>::SlotDuration, _>();
	let pace = <<Runtime as cumulus_pallet_parachain_system::Config>::ConsensusHook as Pace>::PACE;
	req_eq!((slot, pace), (6_000, (6_000, 1, 3)), "the time between blocks, and the pace");
	req_eq!(Runtime::api_slot_duration().as_millis(), slot, "the time between blocks that is reported");
	let apart: u64 = of::<<Runtime as pallet_timestamp::Config>::MinimumPeriod, _>();
	req!(apart * 2 <= slot, "blocks must be {apart} apart, with {slot} between them");
	// ---- room in a block: two seconds and five megabytes, of which messages and scheduled calls get their part
	let block = Weight::from_parts(2_000_000_000_000, 5 * 1024 * 1024);
	let part = |percent: u64| Weight::from_parts(block.ref_time() / 100 * percent, block.proof_size() * percent / 100);
	let near = |a: Weight, b: Weight| a.ref_time().abs_diff(b.ref_time()) <= 1 && a.proof_size().abs_diff(b.proof_size()) <= 1;
	let rooms: [(Weight, u64, &str); 4] = [
		(of::<<Runtime as cumulus_pallet_parachain_system::Config>::ReservedDmpWeight, _>(), 25, "messages from above"),
		(of::<<Runtime as cumulus_pallet_parachain_system::Config>::ReservedXcmpWeight, _>(), 25, "messages from beside"),
		(of::<<Runtime as pallet_message_queue::Config>::ServiceWeight, Option<Weight>>().unwrap_or_default(), 35, "messages waiting"),
		(of::<<Runtime as pallet_scheduler::Config>::MaximumWeight, _>(), 80, "what was scheduled"),
	];
	for (room, percent, what) in rooms {
		req!(near(room, part(percent)), "{what} get {room:?}, not {percent}% of a block");
	}
	// Ordinary transactions get three quarters, so that there is always room for urgent ones and for what has to be.
	let weights: frame_system::limits::BlockWeights = of::<<Runtime as frame_system::ConfigExtra>::BlockWeights, _>();
	let lengths: frame_system::limits::BlockLength = of::<<Runtime as frame_system::ConfigExtra>::BlockLength, _>();
	let of_class = |class| weights.get(class);
	req!(near(weights.max_block, block), "a block takes {:?}", weights.max_block);
	req!(of_class(DispatchClass::Normal).max_total.is_some_and(|w| near(w, part(75))), "ordinary transactions get {:?}", of_class(DispatchClass::Normal).max_total);
	req!(of_class(DispatchClass::Operational).max_total.is_none_or(|w| near(w, block)), "urgent transactions get {:?}", of_class(DispatchClass::Operational).max_total);
	req!(of_class(DispatchClass::Operational).reserved.is_some_and(|w| near(w, part(25))), "{:?} is kept for urgent transactions", of_class(DispatchClass::Operational).reserved);
	req_eq!(of_class(DispatchClass::Mandatory).max_total, None, "how much of what has to be there is room for");
	for class in [DispatchClass::Normal, DispatchClass::Operational, DispatchClass::Mandatory] {
		let (base, most) = (of_class(class).base_extrinsic, of_class(class).max_extrinsic);
		req!(base.ref_time() > 0, "a transaction that is {class:?} takes no time of its own");
		req!(most.is_none_or(|w| w.any_gt(Weight::zero()) && w.all_lte(of_class(class).max_total.unwrap_or(block))), "the largest that is {class:?} takes {most:?}");
	}
	let long = |class| *lengths.max.get(class) as u64;
	req_eq!([DispatchClass::Normal, DispatchClass::Operational].map(long), [block.proof_size() * 3 / 4, block.proof_size()], "the bytes of ordinary and of urgent transactions");
	// ---- a device stays logged in for a quarter of an hour as the network counts it at most
	let session: u32 = of::<<Runtime as pallet_pass::Config>::MaxSessionDuration, _>();
	req_eq!(session, HOURS / 4, "how long a device stays logged in");
	let (page, heap): (u32, u32) = (of::<<Runtime as cumulus_pallet_xcmp_queue::Config>::MaxPageSize, _>(), of::<<Runtime as pallet_message_queue::Config>::HeapSize, _>());
	req!(page >= 102_400, "a message of 102400 bytes does not fit a page of {page}");
	req_eq!(heap, 64 * 1024, "the size of what keeps messages");
	req_eq!(of::<<Runtime as pallet_scheduler::Config>::MaxScheduledPerBlock, u32>(), 50, "how much can be scheduled for a block");
	// ---- what is not vested can pay fees, but not leave or be reserved
	let may: WithdrawReasons = of::<<Runtime as pallet_vesting::Config>::UnvestedFundsAllowedWithdrawReasons, _>();
	for (reason, ok) in [
		(WithdrawReasons::TRANSACTION_PAYMENT, true),
		(WithdrawReasons::FEE, true),
		(WithdrawReasons::TIP, true),
		(WithdrawReasons::TRANSFER, false),
		(WithdrawReasons::RESERVE, false),
	] {
		req_eq!(may.contains(reason), ok, "whether what is not vested can be withdrawn as {reason:?}");
	}
	req_eq!(of::<<Runtime as pallet_vesting::Config>::MinVestedTransfer, u128>(), 100 * CENT, "the least that can be vested");
	req!(<Runtime as pallet_vesting::Config>::MAX_VESTING_SCHEDULES > 0, "nothing can be vested");
	// ---- the treasury and referenda
	req_eq!(of::<<Runtime as pallet_treasury::Config>::SpendPeriod, u32>(), 6 * DAYS, "how often the treasury spends");
	req_eq!(of::<<Runtime as pallet_treasury::Config>::PayoutPeriod, u32>(), 30 * DAYS, "how long the treasury can be claimed from");
	type Community = pallet_referenda::Instance2;
	let times: [u32; 2] = [
		of::<<Runtime as pallet_referenda::Config<Community>>::UndecidingTimeout, _>(),
		of::<<Runtime as pallet_referenda::Config<Community>>::AlarmInterval, _>(),
	];
	req_eq!(times, [14 * DAYS, 1], "how long a community's proposal can wait, and how often it is looked at");
	req_eq!(of::<<Runtime as pallet_referenda::Config<Community>>::SubmissionDeposit, u128>(), 0, "the deposit of a community's proposal");
	req_eq!(of::<<Runtime as pallet_referenda::Config<Community>>::MaxQueued, u32>(), 100, "how many of a community's proposals can wait");
	// ---- contracts, as deep as they can call each other, fit into memory, twice with what they can store
	let limits = of::<<Runtime as pallet_contracts::Config>::Schedule, pallet_contracts::Schedule<Runtime>>().limits;
	let (memory, all) = (limits.runtime_memory as u64, limits.validator_runtime_memory as u64);
	let depth = <<Runtime as pallet_contracts::Config>::CallStack as Deep>::DEPTH as u64 + 1;
	let code: u32 = of::<<Runtime as pallet_contracts::Config>::MaxCodeLen, _>();
	let passing: u32 = of::<<Runtime as pallet_contracts::Config>::MaxTransientStorageSize, _>();
	let mb = 1024 * 1024;
	req!(memory + 2 * 138 * mb <= all, "contracts may use {memory} of {all} bytes, without room for what they store");
	let each = 17 * 4 * code as u64 + limits.memory_pages as u64 * 64 * 1024 + mb;
	req!(depth * each + passing as u64 <= memory, "{depth} contracts of {each} bytes do not fit {memory}");
	cx.label(if ends { "a session ends" } else { "within a session" });
	if c.at > 0 {
		cx.nontrivial(&c.at);
	}
	Ok(())
}
