//! A small runtime around the payments module.
use crate::case::{FeeRule, Policy};
use frame_support::parameter_types;
use frame_support::traits::{ConstU32, EitherOf, EnsureOrigin, Everything};
use frame_support::PalletId;
use parity_scale_codec::{Decode, Encode, MaxEncodedLen};
use scale_info::TypeInfo;
use sp_runtime::traits::{AccountIdLookup, BlakeTwo256};
use sp_runtime::Percent;
use std::cell::RefCell;

pub type AccountId = u64;
pub type Balance = u128;
pub type AssetId = u32;

pub const ACCOUNTS: u64 = 9;
/// Acts as a sender through an origin of its own instead of a signature.
pub const COUNCIL: AccountId = 9;
/// Where the resolver's reward goes when root resolves.
pub const TREASURY: AccountId = 8;
/// May resolve disputes by signing.
pub const JUDGE: AccountId = 7;
pub const ASSETS: [(AssetId, Balance); 3] = [(1, 1), (2, 10), (3, 1_000)];
pub const MAX_FEES: u32 = 6;

#[derive(Clone, PartialEq, Eq, Debug, Encode, Decode, TypeInfo, MaxEncodedLen)]
pub struct CouncilOrigin;

#[derive(Clone, Copy, PartialEq, Eq, Debug, Encode, Decode, TypeInfo, MaxEncodedLen)]
pub struct Id(pub u32);

thread_local! {
	pub static NEXT_ID: RefCell<Option<u32>> = const { RefCell::new(None) };
	pub static POLICY: RefCell<Policy> = RefCell::new(Policy::default());
}
impl pallet_payments::PaymentId<Runtime> for Id {
	fn next(_: &AccountId, _: &AccountId) -> Option<Self> {
		NEXT_ID.with(|n| n.borrow().map(Id))
	}
}

pub fn fees_of(rules: &[FeeRule], asset: u32, sender: u64, beneficiary: u64, amount: u128, remark: Option<&[u8]>) -> Vec<(u64, u128, bool)> {
	rules
		.iter()
		.filter(|r| r.asset.map_or(true, |a| ASSETS[a as usize % 3].0 == asset))
		.map(|r| {
			let mut fee = (r.fixed as u128).saturating_add(Percent::from_percent(r.percent).mul_floor(amount));
			if r.by_parties {
				fee = fee.saturating_add((sender * 3 + beneficiary * 17) as u128);
			}
			if r.by_remark {
				fee = fee.saturating_add(remark.map_or(5, |r| r.iter().map(|b| *b as u128).sum::<u128>() % 97));
			}
			(r.to as u64 % ACCOUNTS + 1, fee, r.mandatory)
		})
		.take(MAX_FEES as usize)
		.collect()
}
pub struct Handler;
impl pallet_payments::FeeHandler<Runtime> for Handler {
	fn apply_fees(asset: &u32, sender: &u64, beneficiary: &u64, amount: &u128, remark: Option<&[u8]>) -> pallet_payments::Fees<Runtime> {
		POLICY.with(|p| {
			let p = p.borrow();
			pallet_payments::Fees {
				sender_pays: fees_of(&p.sender, *asset, *sender, *beneficiary, *amount, remark).try_into().expect("HARNESS-BUG: bounded"),
				beneficiary_pays: fees_of(&p.beneficiary, *asset, *sender, *beneficiary, *amount, remark)
					.try_into()
					.expect("HARNESS-BUG: bounded"),
			}
		})
	}
}

pub struct EnsureCouncil;
impl EnsureOrigin<RuntimeOrigin> for EnsureCouncil {
	type Success = AccountId;
	fn try_origin(o: RuntimeOrigin) -> Result<AccountId, RuntimeOrigin> {
		Result::<CouncilOrigin, RuntimeOrigin>::from(o).map(|_| COUNCIL)
	}
}
pub struct Judges;
impl frame_support::traits::SortedMembers<u64> for Judges {
	fn sorted_members() -> Vec<u64> {
		vec![JUDGE]
	}
}

frame_system::mini_runtime! {
	runtime: Runtime, account: AccountId,
	calls: { System(0): frame_system::Call<Runtime>, Payments(60): pallet_payments::Call<Runtime> },
	events: { System(0): frame_system::Event<Runtime>, Payments(60): pallet_payments::Event<Runtime> },
	origins: { Council(9): CouncilOrigin },
	holds: { Payments(60): pallet_payments::HoldReason },
	freezes: {},
}
parameter_types! {
	pub const Db: frame_support::weights::RuntimeDbWeight = frame_support::weights::RuntimeDbWeight { read: 0, write: 0 };
	pub const ThePalletId: PalletId = PalletId(*b"payments");
	pub const Treasury: AccountId = TREASURY;
	pub static Incentive: Percent = Percent::from_percent(10);
	pub static CancelBuffer: u64 = 10;
}
impl frame_system::Config for Runtime {
	type RuntimeEvent = RuntimeEvent;
	type BaseCallFilter = Everything;
	type RuntimeOrigin = RuntimeOrigin;
	type RuntimeCall = RuntimeCall;
	type Nonce = u32;
	type Hash = sp_core::H256;
	type Hashing = BlakeTwo256;
	type AccountId = AccountId;
	type Lookup = AccountIdLookup<AccountId, ()>;
	type BlockNumber = u64;
	type DbWeight = Db;
}
pub type Assets = vmock::ledger::Ledger<AccountId, AssetId, RuntimeHoldReason, RuntimeFreezeReason>;
pub type Scheduler = vmock::scheduler::Scheduler<Runtime, RuntimeCall, OriginCaller>;
impl pallet_payments::Config for Runtime {
	#[cfg(pallet_payments = "RuntimeEvent")]
	type RuntimeEvent = RuntimeEvent;
	#[cfg(pallet_payments = "PalletsOrigin")]
	type PalletsOrigin = OriginCaller;
	#[cfg(pallet_payments = "RuntimeCall")]
	type RuntimeCall = RuntimeCall;
	#[cfg(pallet_payments = "Assets")]
	type Assets = Assets;
	#[cfg(pallet_payments = "AssetsBalance")]
	type AssetsBalance = Balance;
	#[cfg(pallet_payments = "FeeHandler")]
	type FeeHandler = Handler;
	#[cfg(pallet_payments = "SenderOrigin")]
	type SenderOrigin = EitherOf<EnsureCouncil, frame_system::EnsureSigned<AccountId>>;
	#[cfg(pallet_payments = "BeneficiaryOrigin")]
	type BeneficiaryOrigin = frame_system::EnsureSigned<AccountId>;
	#[cfg(pallet_payments = "DisputeResolver")]
	type DisputeResolver =
		EitherOf<frame_system::EnsureRootWithSuccess<AccountId, Treasury>, frame_system::EnsureSignedBy<Judges, AccountId>>;
	#[cfg(pallet_payments = "PaymentId")]
	type PaymentId = Id;
	#[cfg(pallet_payments = "Scheduler")]
	type Scheduler = Scheduler;
	#[cfg(pallet_payments = "Preimages")]
	type Preimages = vmock::preimages::Preimages<BlakeTwo256>;
	#[cfg(pallet_payments = "RuntimeHoldReason")]
	type RuntimeHoldReason = RuntimeHoldReason;
	#[cfg(pallet_payments = "WeightInfo")]
	type WeightInfo = ();
	#[cfg(pallet_payments = "PalletId")]
	type PalletId = ThePalletId;
	#[cfg(pallet_payments = "IncentivePercentage")]
	type IncentivePercentage = Incentive;
	#[cfg(pallet_payments = "MaxRemarkLength")]
	type MaxRemarkLength = ConstU32<50>;
	#[cfg(pallet_payments = "MaxFees")]
	type MaxFees = ConstU32<MAX_FEES>;
	#[cfg(pallet_payments = "MaxDiscounts")]
	type MaxDiscounts = ConstU32<10>;
	#[cfg(pallet_payments = "CancelBufferBlockLength")]
	type CancelBufferBlockLength = CancelBuffer;
}
