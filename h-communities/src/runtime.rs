//! A small runtime around the communities module.
use crate::{members, polls, probe};
use frame_support::parameter_types;
use frame_support::traits::{EitherOf, Everything};
use frame_support::PalletId;
use frame_system::EnsureRootWithSuccess;
use pallet_communities::origin::{EnsureCommunity, EnsureSignedPays};
use parity_scale_codec::{CompactAs, Decode, Encode, MaxEncodedLen};
use scale_info::TypeInfo;
use sp_core::crypto::AccountId32;
use sp_runtime::traits::{AccountIdLookup, BlakeTwo256};

pub type AccountId = AccountId32;
pub type Balance = u128;
pub type AssetId = u32;
/// The native token's place in the ledger.
pub const NATIVE: AssetId = 0;
pub const DEPOSIT: Balance = 100;
pub const PALLET: [u8; 8] = *b"py/cmnty";

#[derive(Clone, Copy, PartialEq, Eq, PartialOrd, Ord, Debug, Encode, Decode, TypeInfo, MaxEncodedLen, CompactAs, Default)]
pub struct Cid(pub u32);
impl From<u16> for Cid {
	fn from(n: u16) -> Self {
		Cid(n as u32)
	}
}
impl From<u32> for Cid {
	fn from(n: u32) -> Self {
		Cid(n)
	}
}
impl From<u64> for Cid {
	fn from(n: u64) -> Self {
		Cid(n as u32)
	}
}
impl From<Cid> for u32 {
	fn from(c: Cid) -> u32 {
		c.0
	}
}

#[derive(Clone, PartialEq, Eq, Debug, Encode, Decode, TypeInfo, MaxEncodedLen)]
pub struct CouncilOrigin(pub u8);
#[derive(Clone, Copy, PartialEq, Eq, Debug, Encode, Decode, TypeInfo, MaxEncodedLen)]
pub struct OtherFreeze;

pub fn person(n: u8) -> AccountId {
	AccountId32::new([n; 32])
}
pub fn treasury() -> AccountId {
	AccountId32::new([200; 32])
}
/// Written down independently of the module: "modl", the module's name, the identifier, zeroes.
pub fn account_of(c: u32) -> AccountId {
	let mut a = [0u8; 32];
	a[..4].copy_from_slice(b"modl");
	a[4..12].copy_from_slice(&PALLET);
	a[12..16].copy_from_slice(&c.to_le_bytes());
	AccountId32::new(a)
}

frame_system::mini_runtime! {
	runtime: Runtime, account: AccountId,
	calls: {
		System(0): frame_system::Call<Runtime>, Communities(71): pallet_communities::Call<Runtime>,
		Probe(99): probe::Call<Runtime>
	},
	events: {
		System(0): frame_system::Event<Runtime>, Communities(71): pallet_communities::Event<Runtime>,
		Probe(99): probe::Event<Runtime>
	},
	origins: { Communities(71): pallet_communities::Origin<Runtime>, Council(9): CouncilOrigin },
	holds: {},
	freezes: { Communities(71): pallet_communities::FreezeReason, Other(99): OtherFreeze },
}
parameter_types! {
	pub const Db: frame_support::weights::RuntimeDbWeight = frame_support::weights::RuntimeDbWeight { read: 0, write: 0 };
	pub const ThePalletId: PalletId = PalletId(PALLET);
	pub const NoDeposit: Option<(Balance, AccountId, AccountId)> = None;
	pub const Deposit: Balance = DEPOSIT;
	pub Treasury: AccountId = treasury();
	pub const NativeAsset: AssetId = NATIVE;
}
impl frame_system::Config for Runtime {
	type RuntimeEvent = RuntimeEvent;
	type BaseCallFilter = Everything;
	type RuntimeOrigin = RuntimeOrigin;
	type RuntimeCall = RuntimeCall;
	type Nonce = u32;
	type Hash = sp_core::H256;
	type Hashing = BlakeTwo256;
	type AccountId = AccountId;
	type Lookup = AccountIdLookup<AccountId, ()>;
	type BlockNumber = u64;
	type DbWeight = Db;
}
impl probe::Config for Runtime {
	type RuntimeEvent = RuntimeEvent;
}
pub struct Where;
impl members::Setting<AccountId, Cid> for Where {
	fn account(g: &Cid) -> AccountId {
		account_of(g.0)
	}
	fn pool() -> Cid {
		Cid(0)
	}
}
pub type Members = members::Members<AccountId, Cid, Where>;
pub type Record = members::Record<AccountId, Cid>;
pub type Tally = pallet_communities::Tally<Runtime>;
pub type Polls = polls::Polls<Tally, Cid>;
pub type Assets = vmock::ledger::Ledger<AccountId, AssetId, RuntimeHoldReason, RuntimeFreezeReason>;
pub type Native = vmock::ledger::Native<AccountId, NativeAsset, RuntimeHoldReason, RuntimeFreezeReason>;
impl pallet_communities::Config for Runtime {
	#[cfg(pallet_communities = "CommunityId")]
	type CommunityId = Cid;
	#[cfg(pallet_communities = "MembershipId")]
	type MembershipId = u32;
	#[cfg(pallet_communities = "ItemConfig")]
	type ItemConfig = ();
	#[cfg(pallet_communities = "MemberMgmt")]
	type MemberMgmt = Members;
	#[cfg(pallet_communities = "CreateOrigin")]
	type CreateOrigin = EitherOf<EnsureRootWithSuccess<AccountId, NoDeposit>, EnsureSignedPays<Runtime, Deposit, Treasury>>;
	#[cfg(pallet_communities = "AdminOrigin")]
	type AdminOrigin = EnsureCommunity<Self>;
	#[cfg(pallet_communities = "MemberMgmtOrigin")]
	type MemberMgmtOrigin = EnsureCommunity<Self>;
	#[cfg(pallet_communities = "Polls")]
	type Polls = Polls;
	#[cfg(pallet_communities = "Assets")]
	type Assets = Assets;
	#[cfg(pallet_communities = "AssetsFreezer")]
	type AssetsFreezer = Assets;
	#[cfg(pallet_communities = "Balances")]
	type Balances = Native;
	#[cfg(pallet_communities = "RuntimeCall")]
	type RuntimeCall = RuntimeCall;
	#[cfg(pallet_communities = "RuntimeOrigin")]
	type RuntimeOrigin = RuntimeOrigin;
	#[cfg(pallet_communities = "RuntimeFreezeReason")]
	type RuntimeFreezeReason = RuntimeFreezeReason;
	#[cfg(pallet_communities = "RuntimeEvent")]
	type RuntimeEvent = RuntimeEvent;
	#[cfg(pallet_communities = "WeightInfo")]
	type WeightInfo = ();
	#[cfg(pallet_communities = "PalletId")]
	type PalletId = ThePalletId;
}
