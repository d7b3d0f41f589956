# What every demo about the runtime shares.
CRATES=["shims","vmock","derived"]
LOCK="h-runtime"
DEPS='''vmock = { path = "vmock" }
kreivo-deps = { path = "shims/kreivo-deps" }
kreivo-runtime = { path = "derived/kreivo-runtime" }
runtime-common = { path = "derived/runtime-common" }
virto-common = { path = "derived/virto-common" }
pallet-payments = { path = "derived/pallet-payments" }
pallet-communities = { path = "derived/pallet-communities" }
pallet-communities-manager = { path = "derived/pallet-communities-manager" }
fc-traits-memberships = { path = "shims/fc-traits-memberships" }
fc-traits-tracks = { path = "shims/fc-traits-tracks" }
frame-support = { path = "shims/frame-support" }
frame-system = { path = "shims/frame-system" }
sp-runtime = { path = "shims/sp-runtime" }
sp-core = { path = "shims/sp-core" }
sp-io = { path = "shims/sp-io" }
xcm = { path = "shims/xcm" }
parity-scale-codec = { version = "=3.6.12", features = ["derive", "max-encoded-len"] }
'''
KIT=r'''
pub use frame_support::traits::{Contains, ContainsPair, EnsureOrigin, EnsureOriginWithArg, InstanceFilter, PrivilegeCmp};
pub use kreivo_deps::*;
pub use kreivo_runtime::xcm_config::XcmConfig;
pub use kreivo_runtime::{AccountId, ExistentialDeposit, OriginCaller, Runtime, RuntimeCall, RuntimeOrigin, System, Balances, CENTS, UNITS, CommunityReferenda, CommunityMemberships, Scheduler};
pub use parity_scale_codec::{Compact, Decode, Encode};
pub use virto_common::FungibleAssetLocation;
pub use vmock::ledger;
pub use xcm::latest::prelude::*;
pub use xcm_executor::traits::{ConvertLocation, ConvertOrigin, Properties, ShouldExecute, WeightBounds};

pub fn user(n: u8) -> AccountId { [n; 32].into() }
pub fn module(name: &[u8; 8], sub: u16) -> AccountId {
	let mut b = [0u8; 32];
	b[..4].copy_from_slice(b"modl");
	b[4..12].copy_from_slice(name);
	b[12..14].copy_from_slice(&sub.to_le_bytes());
	b.into()
}
pub fn community(id: u16) -> AccountId { module(b"kv/cmtys", id) }
pub fn treasury() -> AccountId { module(b"py/trsry", 0) }
pub fn signed(a: &AccountId) -> RuntimeOrigin { frame_system::RawOrigin::Signed(a.clone()).into() }
pub fn root() -> RuntimeOrigin { frame_system::RawOrigin::Root.into() }
pub fn voice(c: u16) -> RuntimeOrigin { pallet_communities::Origin::<Runtime>::new(c).into() }
pub fn native(who: &AccountId) -> u128 { ledger::account_of(money::NATIVE, who).total() }
pub fn fund(who: &AccountId, amount: u128) { ledger::endow(money::NATIVE, who, amount) }
pub fn start() {
	use frame_support::traits::nonfungibles_v2::Create;
	sp_io::storage::reset();
	System::reset_events();
	System::set_block_number(1);
	System::set_extrinsic_index(0);
	ledger::set_asset(money::NATIVE, &ledger::Asset { issuance: 0, min: ExistentialDeposit::get() });
	for a in (1..10).map(user).chain([treasury()]) { fund(&a, 1_000 * UNITS) }
	let config = pallet_nfts::CollectionConfig::<u128, u32, u16> { settings: Default::default(), max_supply: None, mint_settings: Default::default() };
	<CommunityMemberships as Create<AccountId, _>>::create_collection_with_id(0, &treasury(), &treasury(), &config).unwrap();
}
/// The call at these positions with these arguments, as it comes over the wire.
pub fn wire(pallet: u8, index: u8, args: impl Encode) -> RuntimeCall {
	let mut b = vec![pallet, index];
	args.encode_to(&mut b);
	let mut rest = &b[..];
	let c = RuntimeCall::decode(&mut rest).expect("readable");
	assert!(rest.is_empty());
	c
}
/// As an extrinsic would: all of it or nothing.
pub fn run(o: RuntimeOrigin, c: RuntimeCall) -> bool {
	use sp_runtime::traits::Dispatchable;
	sp_io::storage::start_transaction();
	let ok = c.dispatch(o).is_ok();
	if ok { sp_io::storage::commit_transaction() } else { sp_io::storage::rollback_transaction() }
	ok
}
pub fn to(who: &AccountId) -> (u8, AccountId) { (0, who.clone()) }
/// Community `id`, run by `admin`, registered by root.
pub fn register(o: RuntimeOrigin, id: u16, admin: &AccountId) -> bool { run(o, wire(75, 0, (id, b"name".to_vec(), to(admin), 0u8, 0u8))) }
/// A membership of the community, handed to the account.
pub fn member(c: u16, m: u32, who: &AccountId) {
	use frame_support::traits::nonfungibles_v2::Mutate;
	let config = pallet_nfts::ItemConfig::default();
	<CommunityMemberships as Mutate<AccountId, pallet_nfts::ItemConfig>>::mint_into(&0, &m, &community(c), &config, true).unwrap();
	assert!(run(voice(c), wire(71, 3, to(who))));
}
pub fn may<E: EnsureOrigin<RuntimeOrigin>>(o: RuntimeOrigin) -> Option<E::Success> { E::try_origin(o).ok() }
'''
def MAINFN(body): return "mod kit;\nuse kit::*;\nfn main() {\n" + body + "\n}\n"
FILES={"src/kit.rs":KIT}
K="runtime/kreivo/src/"
