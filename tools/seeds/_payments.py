# What every demo about the payments module shares.
CRATES=["shims","vmock","derived/pallet-payments"]
LOCK="h-payments"
DEPS='''pallet-payments = { path = "derived/pallet-payments" }
vmock = { path = "vmock" }
frame-support = { path = "shims/frame-support" }
frame-system = { path = "shims/frame-system" }
sp-runtime = { path = "shims/sp-runtime" }
sp-core = { path = "shims/sp-core" }
sp-io = { path = "shims/sp-io" }
parity-scale-codec = { version = "=3.6.12", features = ["derive", "max-encoded-len"] }
scale-info = { version = "=2.11.6", features = ["derive"] }
'''
RT = r'''
use frame_support::traits::{ConstU32, Everything};
use frame_support::{parameter_types, PalletId};
use parity_scale_codec::{Decode, Encode, MaxEncodedLen};
use scale_info::TypeInfo;
pub use sp_runtime::traits::Dispatchable;
use sp_runtime::traits::{AccountIdLookup, BlakeTwo256};
pub use sp_runtime::{MultiAddress, Percent};
pub use pallet_payments as pay;
pub use pay::{DisputeResult, Role};
use std::cell::RefCell;
pub use vmock::ledger;

#[derive(Clone, Copy, PartialEq, Eq, Debug, Encode, Decode, TypeInfo, MaxEncodedLen)]
pub struct Id(pub u32);
pub type F = Vec<(u64, u128, bool)>;
thread_local! {
	pub static NEXT_ID: RefCell<u32> = const { RefCell::new(0) };
	pub static FEES: RefCell<(F, F)> = RefCell::new((vec![], vec![]));
}
impl pay::PaymentId<Runtime> for Id {
	fn next(_: &u64, _: &u64) -> Option<Self> { Some(Id(NEXT_ID.with(|n| { *n.borrow_mut() += 1; *n.borrow() }))) }
}
pub struct Handler;
impl pay::FeeHandler<Runtime> for Handler {
	fn apply_fees(_: &u32, _: &u64, _: &u64, _: &u128, _: Option<&[u8]>) -> pay::Fees<Runtime> {
		FEES.with(|f| pay::Fees { sender_pays: f.borrow().0.clone().try_into().unwrap(), beneficiary_pays: f.borrow().1.clone().try_into().unwrap() })
	}
}
frame_system::mini_runtime! {
	runtime: Runtime, account: u64,
	calls: { System(0): frame_system::Call<Runtime>, Payments(60): pay::Call<Runtime> },
	events: { System(0): frame_system::Event<Runtime>, Payments(60): pay::Event<Runtime> },
	origins: {},
	holds: { Payments(60): pay::HoldReason },
	freezes: {},
}
parameter_types! {
	pub const Db: frame_support::weights::RuntimeDbWeight = frame_support::weights::RuntimeDbWeight { read: 0, write: 0 };
	pub const ThePalletId: PalletId = PalletId(*b"payments");
	pub const Treasury: u64 = 100;
	pub const Incentive: Percent = Percent::from_percent(10);
	pub const CancelBuffer: u64 = 10;
}
impl frame_system::Config for Runtime {
	type RuntimeEvent = RuntimeEvent;
	type BaseCallFilter = Everything;
	type RuntimeOrigin = RuntimeOrigin;
	type RuntimeCall = RuntimeCall;
	type Nonce = u32;
	type Hash = sp_core::H256;
	type Hashing = BlakeTwo256;
	type AccountId = u64;
	type Lookup = AccountIdLookup<u64, ()>;
	type BlockNumber = u64;
	type DbWeight = Db;
}
pub type Scheduler = vmock::scheduler::Scheduler<Runtime, RuntimeCall, OriginCaller>;
impl pay::Config for Runtime {
	type RuntimeEvent = RuntimeEvent;
	type PalletsOrigin = OriginCaller;
	type RuntimeCall = RuntimeCall;
	type Assets = vmock::ledger::Ledger<u64, u32, RuntimeHoldReason, RuntimeFreezeReason>;
	type AssetsBalance = u128;
	type FeeHandler = Handler;
	type SenderOrigin = frame_system::EnsureSigned<u64>;
	type BeneficiaryOrigin = frame_system::EnsureSigned<u64>;
	type DisputeResolver = frame_system::EnsureRootWithSuccess<u64, Treasury>;
	type PaymentId = Id;
	type Scheduler = Scheduler;
	type Preimages = vmock::preimages::Preimages<BlakeTwo256>;
	type RuntimeHoldReason = RuntimeHoldReason;
	type WeightInfo = ();
	type PalletId = ThePalletId;
	type IncentivePercentage = Incentive;
	type MaxRemarkLength = ConstU32<50>;
	type MaxFees = ConstU32<6>;
	type MaxDiscounts = ConstU32<10>;
	type CancelBufferBlockLength = CancelBuffer;
}
pub const START: u128 = 1_000_000;
/// Asset 1 with a minimum of 1, everybody from 1 to 9 and the treasury funded.
pub fn start(sender_fees: F, beneficiary_fees: F) {
	sp_io::storage::reset();
	NEXT_ID.with(|n| *n.borrow_mut() = 0);
	FEES.with(|f| *f.borrow_mut() = (sender_fees, beneficiary_fees));
	ledger::set_asset(&1u32, &ledger::Asset { issuance: 0, min: 1 });
	for who in (1..10u64).chain([100]) { ledger::endow(&1u32, &who, START); }
	System::set_block_number(1);
}
pub fn free(who: u64) -> u128 { ledger::account_of(&1u32, &who).free }
pub fn held(who: u64) -> u128 { ledger::account_of(&1u32, &who).held() }
pub fn call(o: RuntimeOrigin, c: pay::Call<Runtime>) -> bool { RuntimeCall::Payments(c).dispatch(o).is_ok() }
pub fn by(who: u64) -> RuntimeOrigin { RuntimeOrigin::signed(who) }
pub fn pay_(from: u64, to: u64, amount: u128) -> Id {
	assert!(call(by(from), pay::Call::pay { beneficiary: MultiAddress::Id(to), asset: 1, amount, remark: None }));
	Id(NEXT_ID.with(|n| *n.borrow()))
}
pub fn request(by_: u64, from: u64, amount: u128) -> Id {
	assert!(call(by(by_), pay::Call::request_payment { sender: MultiAddress::Id(from), asset: 1, amount }));
	Id(NEXT_ID.with(|n| *n.borrow()))
}
pub fn to_block(n: u64) {
	while System::block_number() < n {
		System::set_block_number(System::block_number() + 1);
		Scheduler::run_due();
	}
}
'''
def MAINFN(body): return "mod rt;\nuse rt::*;\nfn main() {\n" + body + "\n}\n"
FILES={"src/rt.rs":RT}
PAY="pallets/payments/src/lib.rs"
TYPES="pallets/payments/src/types.rs"
