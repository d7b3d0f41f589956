//! What the checks share: accounts, locations and origins of all kinds, and a fresh chain.
use kreivo_runtime::*;
use parity_scale_codec::{Decode, Encode};
use serde::{Deserialize, Serialize};
use vkit::proptest::{collection::vec, prelude::*};
use vmock::ledger;
use xcm::latest::prelude::{
	AccountId32 as AccountId32J, AccountKey20, BodyId, BodyPart, GeneralIndex, GeneralKey, GlobalConsensus, Junction, Location, NetworkId, OnlyChild,
	PalletInstance, Parachain, Plurality,
};

/// One KSM.
pub const UNIT: u128 = 1_000_000_000_000;
/// The least native money an account must hold.
pub fn least() -> u128 {
	use kreivo_deps::pallet_balances;
	<<Runtime as pallet_balances::Config>::ExistentialDeposit as frame_support::traits::Get<_>>::get()
}

/// How the account of a community is written: the marker of module accounts, the name of the
/// communities module, the community's number.
pub fn community_account(id: u16) -> AccountId {
	let mut b = [0u8; 32];
	b[..12].copy_from_slice(b"modlkv/cmtys");
	b[12..14].copy_from_slice(&id.to_le_bytes());
	b.into()
}
pub fn community_of(who: &AccountId) -> Option<u16> {
	let b: [u8; 32] = who.clone().into();
	(b[..12] == *b"modlkv/cmtys" && b[14..].iter().all(|x| *x == 0)).then(|| u16::from_le_bytes([b[12], b[13]]))
}
pub fn treasury() -> AccountId {
	let mut b = [0u8; 32];
	b[..12].copy_from_slice(b"modlpy/trsry");
	b.into()
}

const MODULES: [&[u8; 8]; 8] =
	[b"py/trsry", b"payments", b"kreivo_p", b"PotStake", b"py/xcmch", b"kv/cmtyt", b"kv/cmty\0", b"\0\0\0\0\0\0\0\0"];

#[derive(Clone, Debug, Serialize, Deserialize, PartialEq, Eq, Hash)]
pub enum Acc {
	User(u8),
	Community(u16),
	/// another module's account, or a sub-account of its
	Module(u8, u16),
	/// the account of a community but for one byte
	Tampered { community: u16, byte: u8, xor: u8 },
	/// the account of another chain
	Sibling(u32),
	Relay,
	Raw([u8; 32]),
}
impl Acc {
	pub fn account(&self) -> AccountId {
		let mut b = [0u8; 32];
		match self {
			Acc::User(n) => b = [n.wrapping_add(1); 32],
			Acc::Community(id) => return community_account(*id),
			Acc::Module(m, sub) => {
				b[..4].copy_from_slice(b"modl");
				b[4..12].copy_from_slice(MODULES[*m as usize % MODULES.len()]);
				b[12..14].copy_from_slice(&sub.to_le_bytes());
			}
			Acc::Tampered { community, byte, xor } => {
				b = community_account(*community).into();
				b[*byte as usize % 32] ^= (*xor).max(1);
			}
			Acc::Sibling(id) => {
				b[..4].copy_from_slice(b"sibl");
				b[4..8].copy_from_slice(&id.to_le_bytes());
			}
			Acc::Relay => b[..6].copy_from_slice(b"Parent"),
			Acc::Raw(r) => b = *r,
		}
		b.into()
	}
}
pub fn small_id() -> BoxedStrategy<u16> {
	prop_oneof![6 => 0u16..4, 1 => Just(255), 1 => Just(256), 1 => Just(u16::MAX), 1 => any::<u16>()].boxed()
}
pub fn acc() -> BoxedStrategy<Acc> {
	prop_oneof![
		4 => (0u8..4).prop_map(Acc::User),
		4 => small_id().prop_map(Acc::Community),
		4 => (0u8..8, prop_oneof![2 => Just(0u16), 1 => small_id()]).prop_map(|(m, s)| Acc::Module(m, s)),
		4 => (small_id(), 0u8..32, prop_oneof![any::<u8>(), (0u8..8).prop_map(|b| 1 << b)])
			.prop_map(|(community, byte, xor)| Acc::Tampered { community, byte, xor }),
		1 => prop_oneof![Just(1000u32), any::<u32>()].prop_map(Acc::Sibling),
		1 => Just(Acc::Relay),
		1 => any::<[u8; 32]>().prop_map(Acc::Raw),
	]
	.boxed()
}

pub fn network() -> BoxedStrategy<NetworkId> {
	prop_oneof![
		4 => Just(NetworkId::Kusama),
		4 => Just(NetworkId::Polkadot),
		1 => Just(NetworkId::Westend),
		1 => Just(NetworkId::Rococo),
		1 => Just(NetworkId::Wococo),
		1 => Just(NetworkId::BitcoinCore),
		1 => Just(NetworkId::PolkadotBulletin),
		1 => (0u64..3).prop_map(|chain_id| NetworkId::Ethereum { chain_id }),
		1 => any::<u8>().prop_map(|b| NetworkId::ByGenesis([b; 32])),
		1 => any::<u8>().prop_map(|b| NetworkId::ByFork { block_number: b as u64, block_hash: [b; 32] }),
	]
	.boxed()
}
pub fn tag() -> BoxedStrategy<Option<NetworkId>> {
	prop_oneof![1 => Just(None), 2 => network().prop_map(Some)].boxed()
}
pub fn body() -> BoxedStrategy<BodyId> {
	prop_oneof![
		8 => prop_oneof![3 => small_id().prop_map(u32::from), 1 => Just(65_535u32), 1 => Just(65_536), 1 => Just(65_537), 1 => Just(u32::MAX), 2 => any::<u32>()]
			.prop_map(BodyId::Index),
		2 => Just(BodyId::Executive),
		1 => Just(BodyId::Unit),
		1 => any::<[u8; 4]>().prop_map(BodyId::Moniker),
		1 => Just(BodyId::Technical),
		1 => Just(BodyId::Legislative),
		1 => Just(BodyId::Judicial),
		1 => Just(BodyId::Defense),
		1 => Just(BodyId::Administration),
		1 => Just(BodyId::Treasury),
	]
	.boxed()
}
pub fn part() -> BoxedStrategy<BodyPart> {
	prop_oneof![
		4 => Just(BodyPart::Voice),
		1 => (0u32..3).prop_map(|count| BodyPart::Members { count }),
		1 => (0u32..3, 1u32..3).prop_map(|(nom, denom)| BodyPart::Fraction { nom, denom }),
		1 => (0u32..3, 1u32..3).prop_map(|(nom, denom)| BodyPart::AtLeastProportion { nom, denom }),
		1 => (0u32..3, 1u32..3).prop_map(|(nom, denom)| BodyPart::MoreThanProportion { nom, denom }),
	]
	.boxed()
}
pub fn junction() -> BoxedStrategy<Junction> {
	prop_oneof![
		5 => prop_oneof![4 => Just(1000u32), 1 => Just(999), 1 => Just(1001), 1 => Just(2281), 1 => any::<u32>()].prop_map(Parachain),
		4 => (acc(), tag()).prop_map(|(a, network)| AccountId32J { network, id: a.account().into() }),
		4 => (body(), part()).prop_map(|(id, part)| Plurality { id, part }),
		3 => prop_oneof![3 => Just(50u8), 1 => any::<u8>()].prop_map(PalletInstance),
		3 => prop_oneof![2 => Just(1984u128), 1 => 0u128..3, 1 => any::<u128>()].prop_map(GeneralIndex),
		3 => network().prop_map(GlobalConsensus),
		1 => (0u8..33, any::<u8>()).prop_map(|(length, b)| GeneralKey { length, data: [b; 32] }),
		1 => (any::<u8>(), tag()).prop_map(|(b, network)| AccountKey20 { network, key: [b; 20] }),
		1 => (0u64..3, tag()).prop_map(|(index, network)| Junction::AccountIndex64 { network, index }),
		1 => Just(OnlyChild),
	]
	.boxed()
}
pub fn location() -> BoxedStrategy<Location> {
	let parents = prop_oneof![3 => Just(0u8), 6 => Just(1), 3 => Just(2), 1 => Just(3), 1 => any::<u8>()];
	let js = prop_oneof![1 => vec(junction(), 0), 4 => vec(junction(), 1), 3 => vec(junction(), 2), 2 => vec(junction(), 3), 1 => vec(junction(), 4..=8)];
	(parents, js).prop_map(|(p, js)| at(p, &js)).boxed()
}
pub fn at(parents: u8, js: &[Junction]) -> Location {
	let mut l = Location::new(parents, []);
	for j in js {
		l.push_interior(*j).expect("HARNESS-BUG: at most eight");
	}
	l
}
pub fn relay() -> Location {
	at(1, &[])
}
pub fn sibling(id: u32) -> Location {
	at(1, &[Parachain(id)])
}
pub fn asset_hub() -> Location {
	sibling(1000)
}

/// Which of the parts of a community speaks.
#[derive(Clone, Copy, Debug, Serialize, Deserialize, PartialEq, Eq, Hash)]
pub enum Portion {
	Member(u32),
	Members(u32),
	Fraction(u32),
	Rank(u8),
}
#[derive(Clone, Debug, Serialize, Deserialize, PartialEq, Eq, Hash)]
pub enum Org {
	Root,
	Nobody,
	Signed(Acc),
	Voice(u16),
	Some(u16, Portion),
	CreateMemberships,
	Canceller,
	Killer,
	Xcm(Location),
	Relay,
	Sibling(u32),
}
impl Org {
	pub fn caller(&self) -> OriginCaller {
		use frame_system::RawOrigin;
		use governance::pallet_custom_origins::Origin as Custom;
		use kreivo_deps::{cumulus_pallet_xcm::Origin as Cumulus, pallet_xcm};
		use pallet_communities::origin::Subset;
		match self {
			Org::Root => RawOrigin::Root.into(),
			Org::Nobody => RawOrigin::None.into(),
			Org::Signed(a) => RawOrigin::Signed(a.account()).into(),
			Org::Voice(c) => pallet_communities::Origin::<Runtime>::new(*c).into(),
			Org::Some(c, p) => {
				let mut o = pallet_communities::Origin::<Runtime>::new(*c);
				o.with_subset(match p {
					Portion::Member(m) => Subset::Member(*m),
					Portion::Members(n) => Subset::Members { count: *n },
					Portion::Fraction(n) => Subset::Fraction(Permill::from_parts(*n)),
					Portion::Rank(r) => Subset::AtLeastRank((*r).into()),
				});
				o.into()
			}
			Org::CreateMemberships => Custom::CreateMemberships.into(),
			Org::Canceller => Custom::ReferendumCanceller.into(),
			Org::Killer => Custom::ReferendumKiller.into(),
			Org::Xcm(l) => pallet_xcm::Origin::Xcm(l.clone()).into(),
			Org::Relay => Cumulus::Relay.into(),
			Org::Sibling(id) => Cumulus::SiblingParachain((*id).into()).into(),
		}
	}
	pub fn origin(&self) -> RuntimeOrigin {
		self.caller().into()
	}
}
pub fn portion() -> BoxedStrategy<Portion> {
	prop_oneof![
		(0u32..4).prop_map(Portion::Member),
		(0u32..4).prop_map(Portion::Members),
		prop_oneof![Just(0u32), Just(500_000), Just(1_000_000), 0u32..1_000_000].prop_map(Portion::Fraction),
		any::<u8>().prop_map(Portion::Rank),
	]
	.boxed()
}
pub fn org() -> BoxedStrategy<Org> {
	prop_oneof![
		3 => Just(Org::Root),
		1 => Just(Org::Nobody),
		6 => acc().prop_map(Org::Signed),
		4 => small_id().prop_map(Org::Voice),
		3 => (small_id(), portion()).prop_map(|(c, p)| Org::Some(c, p)),
		1 => Just(Org::CreateMemberships),
		1 => Just(Org::Canceller),
		1 => Just(Org::Killer),
		3 => location().prop_map(Org::Xcm),
		1 => Just(Org::Xcm(relay())),
		2 => (body(), part()).prop_map(|(id, part)| Org::Xcm(at(1, &[Plurality { id, part }]))),
		1 => Just(Org::Relay),
		1 => any::<u32>().prop_map(Org::Sibling),
	]
	.boxed()
}

/// A fresh chain on which the native token exists.
pub fn fresh() {
	sp_io::storage::reset();
	System::reset_events();
	ledger::set_asset(kreivo_deps::money::NATIVE, &ledger::Asset { issuance: 0, min: least() });
}
pub fn native(who: &AccountId) -> u128 {
	ledger::account_of(kreivo_deps::money::NATIVE, who).total()
}
pub fn fund(who: &AccountId, amount: u128) {
	ledger::endow(kreivo_deps::money::NATIVE, who, amount)
}

// ---- calls as they come over the wire

/// The call at these positions with these arguments.
pub fn call(pallet: u8, index: u8, args: impl Encode) -> RuntimeCall {
	let mut b = vec![pallet, index];
	args.encode_to(&mut b);
	let mut rest = &b[..];
	match RuntimeCall::decode(&mut rest) {
		Ok(c) if rest.is_empty() => c,
		Ok(c) => vkit::broken(format!("arguments of {:?} are not read in full", c.__names())),
		Err(e) => vkit::broken(format!("nothing readable at {pallet}, {index}: {e}")),
	}
}
/// Executes a call as an extrinsic would: all of it or nothing.
pub fn dispatch(org: &Org, call: RuntimeCall) -> Result<(), sp_runtime::DispatchError> {
	use sp_runtime::traits::Dispatchable;
	sp_io::storage::start_transaction();
	let r = call.dispatch(org.origin()).map(|_| ()).map_err(|e| e.error);
	match r {
		Ok(()) => sp_io::storage::commit_transaction(),
		Err(_) => sp_io::storage::rollback_transaction(),
	}
	r
}
pub fn address(who: &AccountId) -> Vec<u8> {
	let mut b = vec![0u8];
	who.encode_to(&mut b);
	b
}
/// Bytes put as they are.
pub struct Raw(pub Vec<u8>);
impl Encode for Raw {
	fn encode_to<O: parity_scale_codec::Output + ?Sized>(&self, o: &mut O) {
		o.write(&self.0)
	}
}

/// A fresh chain with the collection of memberships that communities are given from.
pub fn settled() {
	use frame_support::traits::nonfungibles_v2::Create;
	fresh();
	let config = kreivo_deps::pallet_nfts::CollectionConfig::<u128, BlockNumber, u16> { settings: Default::default(), max_supply: None, mint_settings: Default::default() };
	<CommunityMemberships as Create<AccountId, _>>::create_collection_with_id(0, &treasury(), &treasury(), &config).expect("HARNESS-BUG: the collection");
}
/// Registers a community for free, administered by the given account.
pub fn register(id: u16, admin: &AccountId) -> Result<(), sp_runtime::DispatchError> {
	let name = format!("community {id}").into_bytes();
	dispatch(&Org::Root, call(75, 0, (id, name, Raw(address(admin)), 0u8, 0u8)))
}
/// Gives a community a membership to hand out and hands it to the account.
pub fn make_member(community: u16, membership: u32, who: &AccountId) {
	use frame_support::traits::nonfungibles_v2::Mutate;
	let config = kreivo_deps::pallet_nfts::ItemConfig::default();
	<CommunityMemberships as Mutate<AccountId, kreivo_deps::pallet_nfts::ItemConfig>>::mint_into(&0, &membership, &community_account(community), &config, true)
		.expect("HARNESS-BUG: minting");
	if let Err(e) = dispatch(&Org::Voice(community), call(71, 3, Raw(address(who)))) {
		vkit::broken(format!("a community cannot add a member: {e:?}"));
	}
}
