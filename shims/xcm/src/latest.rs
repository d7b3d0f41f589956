use parity_scale_codec::{Decode, Encode, MaxEncodedLen};
use scale_info::TypeInfo;
use serde::{Deserialize, Serialize};
use std::sync::Arc;

pub use sp_weights::Weight;
pub const VERSION: u32 = 4;
pub type Version = u32;
pub type QueryId = u64;
pub type XcmResult = Result<(), Error>;
pub use Error as XcmError;

macro_rules! ty {
	($($i:item)*) => { $(
		#[derive(Clone, Debug, PartialEq, Eq, PartialOrd, Ord, Hash, Encode, Decode, MaxEncodedLen, TypeInfo, Serialize, Deserialize)]
		$i
	)* };
}
ty! {
#[derive(Copy)]
pub enum NetworkId {
	ByGenesis([u8; 32]),
	ByFork { block_number: u64, block_hash: [u8; 32] },
	Polkadot,
	Kusama,
	Westend,
	Rococo,
	Wococo,
	Ethereum { #[codec(compact)] chain_id: u64 },
	BitcoinCore,
	BitcoinCash,
	PolkadotBulletin,
}
#[derive(Copy)]
pub enum BodyId {
	Unit,
	Moniker([u8; 4]),
	Index(#[codec(compact)] u32),
	Executive,
	Technical,
	Legislative,
	Judicial,
	Defense,
	Administration,
	Treasury,
}
#[derive(Copy)]
pub enum BodyPart {
	Voice,
	Members { #[codec(compact)] count: u32 },
	Fraction { #[codec(compact)] nom: u32, #[codec(compact)] denom: u32 },
	AtLeastProportion { #[codec(compact)] nom: u32, #[codec(compact)] denom: u32 },
	MoreThanProportion { #[codec(compact)] nom: u32, #[codec(compact)] denom: u32 },
}
#[derive(Copy)]
pub enum Junction {
	Parachain(#[codec(compact)] u32),
	AccountId32 { network: Option<NetworkId>, id: [u8; 32] },
	AccountIndex64 { network: Option<NetworkId>, #[codec(compact)] index: u64 },
	AccountKey20 { network: Option<NetworkId>, key: [u8; 20] },
	PalletInstance(u8),
	GeneralIndex(#[codec(compact)] u128),
	GeneralKey { length: u8, data: [u8; 32] },
	OnlyChild,
	Plurality { id: BodyId, part: BodyPart },
	GlobalConsensus(NetworkId),
}
#[derive(Default)]
pub enum Junctions {
	#[default]
	Here,
	X1(Arc<[Junction; 1]>),
	X2(Arc<[Junction; 2]>),
	X3(Arc<[Junction; 3]>),
	X4(Arc<[Junction; 4]>),
	X5(Arc<[Junction; 5]>),
	X6(Arc<[Junction; 6]>),
	X7(Arc<[Junction; 7]>),
	X8(Arc<[Junction; 8]>),
}
#[derive(Default)]
pub struct Location {
	pub parents: u8,
	pub interior: Junctions,
}
#[derive(Copy)]
pub enum AssetInstance {
	Undefined,
	Index(#[codec(compact)] u128),
	Array4([u8; 4]),
	Array8([u8; 8]),
	Array16([u8; 16]),
	Array32([u8; 32]),
}
pub enum Fungibility {
	Fungible(#[codec(compact)] u128),
	NonFungible(AssetInstance),
}
#[derive(Copy)]
pub enum WildFungibility {
	Fungible,
	NonFungible,
}
pub struct AssetId(pub Location);
pub struct Asset {
	pub id: AssetId,
	pub fun: Fungibility,
}
pub enum WildAsset {
	All,
	AllOf { id: AssetId, fun: WildFungibility },
	AllCounted(#[codec(compact)] u32),
	AllOfCounted { id: AssetId, fun: WildFungibility, #[codec(compact)] count: u32 },
}
#[derive(Copy)]
pub enum OriginKind {
	Native,
	SovereignAccount,
	Superuser,
	Xcm,
}
#[derive(Copy)]
pub enum Error {
	Overflow,
	Unimplemented,
	UntrustedReserveLocation,
	UntrustedTeleportLocation,
	LocationFull,
	LocationNotInvertible,
	BadOrigin,
	InvalidLocation,
	AssetNotFound,
	FailedToTransactAsset,
	NotWithdrawable,
	LocationCannotHold,
	ExceedsMaxMessageSize,
	DestinationUnsupported,
	Transport,
	Unroutable,
	UnknownClaim,
	FailedToDecode,
	MaxWeightInvalid,
	NotHoldingFees,
	TooExpensive,
	Trap(u64),
	ExpectationFalse,
	PalletNotFound,
	NameMismatch,
	VersionIncompatible,
	HoldingWouldOverflow,
	ExportError,
	ReanchorFailed,
	NoDeal,
	FeesNotMet,
	LockError,
	NoPermission,
	Unanchored,
	NotDepositable,
	UnhandledXcmVersion,
	WeightLimitReached(u64),
	Barrier,
	WeightNotComputable,
	ExceedsStackLimit,
}
}
pub type InteriorLocation = Junctions;
#[derive(Clone, Debug, PartialEq, Eq, PartialOrd, Ord, Hash, Default, Encode, Decode, TypeInfo, Serialize, Deserialize)]
pub struct Assets(Vec<Asset>);
#[derive(Clone, Debug, PartialEq, Eq, PartialOrd, Ord, Hash, Encode, Decode, TypeInfo, Serialize, Deserialize)]
pub enum AssetFilter {
	Definite(Assets),
	Wild(WildAsset),
}
#[derive(Clone, Debug, PartialEq, Eq, Encode, Decode, TypeInfo, Serialize, Deserialize)]
pub enum WeightLimit {
	Unlimited,
	Limited(Weight),
}
#[derive(Clone, Debug, PartialEq, Eq, Encode, Decode, TypeInfo, Default, Serialize, Deserialize)]
pub enum MaybeErrorCode {
	#[default]
	Success,
	Error(Vec<u8>),
	TruncatedError(Vec<u8>),
}
#[derive(Clone, Debug, PartialEq, Eq, Encode, Decode, TypeInfo, Default, Serialize, Deserialize)]
pub enum Response {
	#[default]
	Null,
	Assets(Assets),
	ExecutionResult(Option<(u32, Error)>),
	Version(Version),
	PalletsInfo(Vec<u8>),
	DispatchResult(MaybeErrorCode),
}
#[derive(Clone, Debug, PartialEq, Eq, Encode, Decode, TypeInfo, Serialize, Deserialize)]
pub struct QueryResponseInfo {
	pub destination: Location,
	#[codec(compact)]
	pub query_id: QueryId,
	pub max_weight: Weight,
}
#[derive(Encode, Decode, TypeInfo)]
#[scale_info(skip_type_params(T))]
pub struct DoubleEncoded<T> {
	encoded: Vec<u8>,
	#[codec(skip)]
	decoded: Option<T>,
}
impl<T> Clone for DoubleEncoded<T> {
	fn clone(&self) -> Self {
		Self { encoded: self.encoded.clone(), decoded: None }
	}
}
impl<T> std::fmt::Debug for DoubleEncoded<T> {
	fn fmt(&self, f: &mut std::fmt::Formatter<'_>) -> std::fmt::Result {
		write!(f, "{:?}", self.encoded)
	}
}
impl<T> PartialEq for DoubleEncoded<T> {
	fn eq(&self, o: &Self) -> bool {
		self.encoded == o.encoded
	}
}
impl<T> Eq for DoubleEncoded<T> {}
impl<T> DoubleEncoded<T> {
	pub fn into_encoded(self) -> Vec<u8> {
		self.encoded
	}
}
impl<T: Decode> DoubleEncoded<T> {
	pub fn take_decoded(&mut self) -> Result<T, ()> {
		T::decode(&mut &self.encoded[..]).map_err(|_| ())
	}
	pub fn try_into(mut self) -> Result<T, ()> {
		self.take_decoded()
	}
}
impl<T> From<Vec<u8>> for DoubleEncoded<T> {
	fn from(encoded: Vec<u8>) -> Self {
		Self { encoded, decoded: None }
	}
}

impl Junctions {
	pub const fn here() -> Self {
		Junctions::Here
	}
	pub fn as_slice(&self) -> &[Junction] {
		match self {
			Junctions::Here => &[],
			Junctions::X1(x) => x.as_slice(),
			Junctions::X2(x) => x.as_slice(),
			Junctions::X3(x) => x.as_slice(),
			Junctions::X4(x) => x.as_slice(),
			Junctions::X5(x) => x.as_slice(),
			Junctions::X6(x) => x.as_slice(),
			Junctions::X7(x) => x.as_slice(),
			Junctions::X8(x) => x.as_slice(),
		}
	}
	pub fn from_slice(s: &[Junction]) -> Option<Self> {
		fn a<const N: usize>(s: &[Junction]) -> Arc<[Junction; N]> {
			Arc::new(s.try_into().unwrap())
		}
		Some(match s.len() {
			0 => Junctions::Here,
			1 => Junctions::X1(a(s)),
			2 => Junctions::X2(a(s)),
			3 => Junctions::X3(a(s)),
			4 => Junctions::X4(a(s)),
			5 => Junctions::X5(a(s)),
			6 => Junctions::X6(a(s)),
			7 => Junctions::X7(a(s)),
			8 => Junctions::X8(a(s)),
			_ => return None,
		})
	}
	pub fn len(&self) -> usize {
		self.as_slice().len()
	}
	pub fn is_empty(&self) -> bool {
		self.len() == 0
	}
	pub fn iter(&self) -> std::slice::Iter<'_, Junction> {
		self.as_slice().iter()
	}
	pub fn first(&self) -> Option<&Junction> {
		self.as_slice().first()
	}
	pub fn last(&self) -> Option<&Junction> {
		self.as_slice().last()
	}
	pub fn at(&self, i: usize) -> Option<&Junction> {
		self.as_slice().get(i)
	}
	pub fn push(&mut self, j: impl Into<Junction>) -> Result<(), Junction> {
		let j = j.into();
		let mut v = self.as_slice().to_vec();
		v.push(j);
		*self = Self::from_slice(&v).ok_or(j)?;
		Ok(())
	}
	pub fn pushed_with(mut self, j: impl Into<Junction>) -> Result<Self, (Self, Junction)> {
		match self.push(j) {
			Ok(()) => Ok(self),
			Err(j) => Err((self, j)),
		}
	}
	pub fn push_front(&mut self, j: impl Into<Junction>) -> Result<(), Junction> {
		let j = j.into();
		let mut v = self.as_slice().to_vec();
		v.insert(0, j);
		*self = Self::from_slice(&v).ok_or(j)?;
		Ok(())
	}
	pub fn starts_with(&self, prefix: &Junctions) -> bool {
		self.as_slice().starts_with(prefix.as_slice())
	}
	pub fn match_and_split(&self, prefix: &Junctions) -> Option<&Junction> {
		if prefix.len() + 1 != self.len() || !self.starts_with(prefix) {
			return None;
		}
		self.at(prefix.len())
	}
	pub fn split_first(self) -> (Junctions, Option<Junction>) {
		match self.as_slice().split_first() {
			None => (self, None),
			Some((f, r)) => (Self::from_slice(r).unwrap(), Some(*f)),
		}
	}
	pub fn split_last(self) -> (Junctions, Option<Junction>) {
		match self.as_slice().split_last() {
			None => (self, None),
			Some((l, r)) => (Self::from_slice(r).unwrap(), Some(*l)),
		}
	}
	pub fn into_location(self) -> Location {
		Location { parents: 0, interior: self }
	}
	pub fn into_exterior(self, n: u8) -> Location {
		Location { parents: n, interior: self }
	}
	/// This location, as seen from `viewer`.
	pub fn relative_to(self, viewer: &Junctions) -> Location {
		let (me, other) = (self.as_slice(), viewer.as_slice());
		let shared = me.iter().zip(other).take_while(|(a, b)| a == b).count();
		Location { parents: (other.len() - shared) as u8, interior: Self::from_slice(&me[shared..]).expect("no longer than before") }
	}
	pub fn global_consensus(&self) -> Result<NetworkId, ()> {
		if let Some(Junction::GlobalConsensus(n)) = self.first() {
			Ok(*n)
		} else {
			Err(())
		}
	}
}
impl<'a> IntoIterator for &'a Junctions {
	type Item = &'a Junction;
	type IntoIter = std::slice::Iter<'a, Junction>;
	fn into_iter(self) -> Self::IntoIter {
		self.iter()
	}
}
impl IntoIterator for Junctions {
	type Item = Junction;
	type IntoIter = std::vec::IntoIter<Junction>;
	fn into_iter(self) -> Self::IntoIter {
		self.as_slice().to_vec().into_iter()
	}
}
macro_rules! arr { ($($n:literal),*) => { $(
	impl<J: Into<Junction>> From<[J; $n]> for Junctions {
		fn from(a: [J; $n]) -> Self {
			Junctions::from_slice(&a.into_iter().map(Into::into).collect::<Vec<_>>()).unwrap()
		}
	}
	impl<J: Into<Junction>> From<[J; $n]> for Location {
		fn from(a: [J; $n]) -> Self { Location { parents: 0, interior: a.into() } }
	}
)* } }
arr!(1, 2, 3, 4, 5, 6, 7, 8);
impl From<[Junction; 0]> for Junctions {
	fn from(_: [Junction; 0]) -> Self {
		Junctions::Here
	}
}
impl<T: Into<Junction>> From<T> for Junctions {
	fn from(j: T) -> Self {
		[j.into()].into()
	}
}
impl From<u128> for Junction {
	fn from(x: u128) -> Self {
		Junction::GeneralIndex(x)
	}
}
impl From<NetworkId> for Junction {
	fn from(x: NetworkId) -> Self {
		Junction::GlobalConsensus(x)
	}
}
impl From<[u8; 32]> for Junction {
	fn from(id: [u8; 32]) -> Self {
		Junction::AccountId32 { network: None, id }
	}
}
impl From<[u8; 20]> for Junction {
	fn from(key: [u8; 20]) -> Self {
		Junction::AccountKey20 { network: None, key }
	}
}
impl From<u64> for Junction {
	fn from(index: u64) -> Self {
		Junction::AccountIndex64 { network: None, index }
	}
}
impl Junction {
	pub const fn into_exterior(self, n: u8) -> (u8, Junction) {
		(n, self)
	}
	pub fn into_location(self) -> Location {
		Location::new(0, [self])
	}
	pub fn remove_network_id(&mut self) {
		match self {
			Junction::AccountId32 { network, .. }
			| Junction::AccountIndex64 { network, .. }
			| Junction::AccountKey20 { network, .. } => *network = None,
			_ => {}
		}
	}
}
impl BodyPart {
	pub fn is_majority(&self) -> bool {
		match self {
			BodyPart::Fraction { nom, denom } if *nom * 2 > *denom => true,
			BodyPart::AtLeastProportion { nom, denom } if *nom * 2 > *denom => true,
			BodyPart::MoreThanProportion { nom, denom } if *nom * 2 >= *denom => true,
			_ => false,
		}
	}
}

impl Location {
	pub fn new(parents: u8, interior: impl Into<Junctions>) -> Self {
		Location { parents, interior: interior.into() }
	}
	pub const fn here() -> Self {
		Location { parents: 0, interior: Junctions::Here }
	}
	pub const fn parent() -> Self {
		Location { parents: 1, interior: Junctions::Here }
	}
	pub const fn grandparent() -> Self {
		Location { parents: 2, interior: Junctions::Here }
	}
	pub const fn ancestor(parents: u8) -> Self {
		Location { parents, interior: Junctions::Here }
	}
	pub const fn is_here(&self) -> bool {
		self.parents == 0 && matches!(self.interior, Junctions::Here)
	}
	pub fn unpack(&self) -> (u8, &[Junction]) {
		(self.parents, self.interior.as_slice())
	}
	pub fn interior(&self) -> &Junctions {
		&self.interior
	}
	pub fn interior_mut(&mut self) -> &mut Junctions {
		&mut self.interior
	}
	pub const fn parent_count(&self) -> u8 {
		self.parents
	}
	pub const fn parents(&self) -> u8 {
		self.parents
	}
	pub fn contains_parents_only(&self, n: u8) -> bool {
		matches!(self.interior, Junctions::Here) && self.parents == n
	}
	pub fn len(&self) -> usize {
		self.parent_count() as usize + self.interior.len()
	}
	pub fn is_empty(&self) -> bool {
		self.len() == 0
	}
	pub fn first_interior(&self) -> Option<&Junction> {
		self.interior.first()
	}
	pub fn last(&self) -> Option<&Junction> {
		self.interior.last()
	}
	pub fn at(&self, i: usize) -> Option<&Junction> {
		let np = self.parents as usize;
		if i < np {
			return None;
		}
		self.interior.at(i - np)
	}
	pub fn push_interior(&mut self, j: impl Into<Junction>) -> Result<(), Junction> {
		self.interior.push(j)
	}
	pub fn pushed_with_interior(mut self, j: impl Into<Junction>) -> Result<Self, (Self, Junction)> {
		match self.interior.push(j) {
			Ok(()) => Ok(self),
			Err(j) => Err((self, j)),
		}
	}
	pub fn append_with(&mut self, suffix: impl Into<Self>) -> Result<(), Self> {
		let suffix: Location = suffix.into();
		let keep = self.interior.len().saturating_sub(suffix.parents as usize);
		let extra = (suffix.parents as usize).saturating_sub(self.interior.len());
		let mut v = self.interior.as_slice()[..keep].to_vec();
		v.extend_from_slice(suffix.interior.as_slice());
		match Junctions::from_slice(&v) {
			Some(i) => {
				self.interior = i;
				self.parents = self.parents.saturating_add(extra as u8);
				Ok(())
			}
			None => Err(suffix),
		}
	}
	pub fn starts_with(&self, prefix: &Location) -> bool {
		self.parents == prefix.parents && self.interior.starts_with(&prefix.interior)
	}
	pub fn match_and_split(&self, prefix: &Location) -> Option<&Junction> {
		if self.parents != prefix.parents {
			return None;
		}
		self.interior.match_and_split(&prefix.interior)
	}
	/// The part of the location naming consensus systems only.
	pub fn chain_location(&self) -> Location {
		let mut v = vec![];
		for j in self.interior.iter() {
			match j {
				Junction::Parachain(_) | Junction::GlobalConsensus(_) => v.push(*j),
				_ => break,
			}
		}
		Location { parents: self.parents, interior: Junctions::from_slice(&v).unwrap() }
	}
}
impl<T: Into<Junction>> From<T> for Location {
	fn from(j: T) -> Self {
		Location { parents: 0, interior: [j.into()].into() }
	}
}
impl From<Junctions> for Location {
	fn from(interior: Junctions) -> Self {
		Location { parents: 0, interior }
	}
}
impl From<(u8, Junctions)> for Location {
	fn from((parents, interior): (u8, Junctions)) -> Self {
		Location { parents, interior }
	}
}
impl From<(u8, Junction)> for Location {
	fn from((parents, j): (u8, Junction)) -> Self {
		Location { parents, interior: [j].into() }
	}
}
impl TryFrom<Location> for Junctions {
	type Error = Location;
	fn try_from(x: Location) -> Result<Self, Location> {
		if x.parents > 0 {
			Err(x)
		} else {
			Ok(x.interior)
		}
	}
}
#[derive(Clone, Copy, Debug)]
pub struct Parent;
impl From<Parent> for Location {
	fn from(_: Parent) -> Self {
		Location::parent()
	}
}
#[derive(Clone, Copy, Debug)]
pub struct ParentThen(());

impl From<Location> for AssetId {
	fn from(l: Location) -> Self {
		AssetId(l)
	}
}
impl From<u128> for Fungibility {
	fn from(x: u128) -> Self {
		Fungibility::Fungible(x)
	}
}
impl From<AssetInstance> for Fungibility {
	fn from(x: AssetInstance) -> Self {
		Fungibility::NonFungible(x)
	}
}
impl<A: Into<AssetId>, B: Into<Fungibility>> From<(A, B)> for Asset {
	fn from((a, b): (A, B)) -> Self {
		Asset { id: a.into(), fun: b.into() }
	}
}
impl Asset {
	pub fn is_fungible(&self, maybe: Option<AssetId>) -> bool {
		matches!(self.fun, Fungibility::Fungible(_)) && maybe.map_or(true, |i| i == self.id)
	}
}
impl Assets {
	pub fn new() -> Self {
		Self(vec![])
	}
	pub fn inner(&self) -> &Vec<Asset> {
		&self.0
	}
	pub fn into_inner(self) -> Vec<Asset> {
		self.0
	}
	pub fn len(&self) -> usize {
		self.0.len()
	}
	pub fn is_none(&self) -> bool {
		self.0.is_empty()
	}
	pub fn get(&self, i: usize) -> Option<&Asset> {
		self.0.get(i)
	}
	pub fn contains(&self, a: &Asset) -> bool {
		self.0.contains(a)
	}
	/// Must be sorted and without duplicates.
	pub fn from_sorted_and_deduplicated(r: Vec<Asset>) -> Result<Self, ()> {
		if r.windows(2).all(|w| w[0] < w[1]) {
			Ok(Self(r))
		} else {
			Err(())
		}
	}
}
impl From<Vec<Asset>> for Assets {
	fn from(mut v: Vec<Asset>) -> Self {
		v.sort();
		v.dedup();
		Self(v)
	}
}
impl<T: Into<Asset>> From<T> for Assets {
	fn from(a: T) -> Self {
		Self(vec![a.into()])
	}
}
impl From<Assets> for AssetFilter {
	fn from(a: Assets) -> Self {
		AssetFilter::Definite(a)
	}
}
impl From<WildAsset> for AssetFilter {
	fn from(a: WildAsset) -> Self {
		AssetFilter::Wild(a)
	}
}

#[derive(Clone, Debug, PartialEq, Eq)]
pub struct Xcm<Call>(pub Vec<Instruction<Call>>);
impl<C> Default for Xcm<C> {
	fn default() -> Self {
		Xcm(vec![])
	}
}
impl<C> Xcm<C> {
	pub fn new() -> Self {
		Xcm(vec![])
	}
	pub fn len(&self) -> usize {
		self.0.len()
	}
	pub fn is_empty(&self) -> bool {
		self.0.is_empty()
	}
	pub fn inner(&self) -> &[Instruction<C>] {
		&self.0
	}
}
#[derive(Clone, Debug, PartialEq, Eq)]
pub enum Instruction<Call> {
	WithdrawAsset(Assets),
	ReserveAssetDeposited(Assets),
	ReceiveTeleportedAsset(Assets),
	QueryResponse { query_id: QueryId, response: Response, max_weight: Weight, querier: Option<Location> },
	TransferAsset { assets: Assets, beneficiary: Location },
	TransferReserveAsset { assets: Assets, dest: Location, xcm: Xcm<()> },
	Transact { origin_kind: OriginKind, require_weight_at_most: Weight, call: DoubleEncoded<Call> },
	HrmpNewChannelOpenRequest { sender: u32, max_message_size: u32, max_capacity: u32 },
	HrmpChannelAccepted { recipient: u32 },
	HrmpChannelClosing { initiator: u32, sender: u32, recipient: u32 },
	ClearOrigin,
	DescendOrigin(InteriorLocation),
	ReportError(QueryResponseInfo),
	DepositAsset { assets: AssetFilter, beneficiary: Location },
	DepositReserveAsset { assets: AssetFilter, dest: Location, xcm: Xcm<()> },
	ExchangeAsset { give: AssetFilter, want: Assets, maximal: bool },
	InitiateReserveWithdraw { assets: AssetFilter, reserve: Location, xcm: Xcm<()> },
	InitiateTeleport { assets: AssetFilter, dest: Location, xcm: Xcm<()> },
	ReportHolding { response_info: QueryResponseInfo, assets: AssetFilter },
	BuyExecution { fees: Asset, weight_limit: WeightLimit },
	RefundSurplus,
	SetErrorHandler(Xcm<Call>),
	SetAppendix(Xcm<Call>),
	ClearError,
	ClaimAsset { assets: Assets, ticket: Location },
	Trap(u64),
	SubscribeVersion { query_id: QueryId, max_response_weight: Weight },
	UnsubscribeVersion,
	BurnAsset(Assets),
	ExpectAsset(Assets),
	ExpectOrigin(Option<Location>),
	ExpectError(Option<(u32, Error)>),
	ExpectTransactStatus(MaybeErrorCode),
	QueryPallet { module_name: Vec<u8>, response_info: QueryResponseInfo },
	ExpectPallet { index: u32, name: Vec<u8>, module_name: Vec<u8>, crate_major: u32, min_crate_minor: u32 },
	ReportTransactStatus(QueryResponseInfo),
	ClearTransactStatus,
	UniversalOrigin(Junction),
	ExportMessage { network: NetworkId, destination: InteriorLocation, xcm: Xcm<()> },
	LockAsset { asset: Asset, unlocker: Location },
	UnlockAsset { asset: Asset, target: Location },
	NoteUnlockable { asset: Asset, owner: Location },
	RequestUnlock { asset: Asset, locker: Location },
	SetFeesMode { jit_withdraw: bool },
	SetTopic([u8; 32]),
	ClearTopic,
	AliasOrigin(Location),
	UnpaidExecution { weight_limit: WeightLimit, check_origin: Option<Location> },
}

pub trait XcmWeightInfo<Call> {
	fn withdraw_asset(assets: &Assets) -> Weight;
	fn reserve_asset_deposited(assets: &Assets) -> Weight;
	fn receive_teleported_asset(assets: &Assets) -> Weight;
	fn query_response(query_id: &u64, response: &Response, max_weight: &Weight, querier: &Option<Location>) -> Weight;
	fn transfer_asset(assets: &Assets, beneficiary: &Location) -> Weight;
	fn transfer_reserve_asset(assets: &Assets, dest: &Location, xcm: &Xcm<()>) -> Weight;
	fn transact(origin_kind: &OriginKind, require_weight_at_most: &Weight, call: &DoubleEncoded<Call>) -> Weight;
	fn hrmp_new_channel_open_request(sender: &u32, max_message_size: &u32, max_capacity: &u32) -> Weight;
	fn hrmp_channel_accepted(recipient: &u32) -> Weight;
	fn hrmp_channel_closing(initiator: &u32, sender: &u32, recipient: &u32) -> Weight;
	fn clear_origin() -> Weight;
	fn descend_origin(who: &InteriorLocation) -> Weight;
	fn report_error(query_response_info: &QueryResponseInfo) -> Weight;
	fn deposit_asset(assets: &AssetFilter, beneficiary: &Location) -> Weight;
	fn deposit_reserve_asset(assets: &AssetFilter, dest: &Location, xcm: &Xcm<()>) -> Weight;
	fn exchange_asset(give: &AssetFilter, want: &Assets, maximal: &bool) -> Weight;
	fn initiate_reserve_withdraw(assets: &AssetFilter, reserve: &Location, xcm: &Xcm<()>) -> Weight;
	fn initiate_teleport(assets: &AssetFilter, dest: &Location, xcm: &Xcm<()>) -> Weight;
	fn report_holding(response_info: &QueryResponseInfo, assets: &AssetFilter) -> Weight;
	fn buy_execution(fees: &Asset, weight_limit: &WeightLimit) -> Weight;
	fn refund_surplus() -> Weight;
	fn set_error_handler(xcm: &Xcm<Call>) -> Weight;
	fn set_appendix(xcm: &Xcm<Call>) -> Weight;
	fn clear_error() -> Weight;
	fn claim_asset(assets: &Assets, ticket: &Location) -> Weight;
	fn trap(code: &u64) -> Weight;
	fn subscribe_version(query_id: &QueryId, max_response_weight: &Weight) -> Weight;
	fn unsubscribe_version() -> Weight;
	fn burn_asset(assets: &Assets) -> Weight;
	fn expect_asset(assets: &Assets) -> Weight;
	fn expect_origin(origin: &Option<Location>) -> Weight;
	fn expect_error(error: &Option<(u32, Error)>) -> Weight;
	fn expect_transact_status(status: &MaybeErrorCode) -> Weight;
	fn query_pallet(module_name: &Vec<u8>, response_info: &QueryResponseInfo) -> Weight;
	fn expect_pallet(index: &u32, name: &Vec<u8>, module_name: &Vec<u8>, crate_major: &u32, min_crate_minor: &u32) -> Weight;
	fn report_transact_status(response_info: &QueryResponseInfo) -> Weight;
	fn clear_transact_status() -> Weight;
	fn universal_origin(j: &Junction) -> Weight;
	fn export_message(network: &NetworkId, destination: &InteriorLocation, xcm: &Xcm<()>) -> Weight;
	fn lock_asset(asset: &Asset, unlocker: &Location) -> Weight;
	fn unlock_asset(asset: &Asset, target: &Location) -> Weight;
	fn note_unlockable(asset: &Asset, owner: &Location) -> Weight;
	fn request_unlock(asset: &Asset, locker: &Location) -> Weight;
	fn set_fees_mode(jit_withdraw: &bool) -> Weight;
	fn set_topic(topic: &[u8; 32]) -> Weight;
	fn clear_topic() -> Weight;
	fn alias_origin(origin: &Location) -> Weight;
	fn unpaid_execution(weight_limit: &WeightLimit, check_origin: &Option<Location>) -> Weight;
}

/// The weight of an instruction by itself.
pub trait GetWeight<W> {
	fn weight(&self) -> Weight;
}
impl<Call, W: XcmWeightInfo<Call>> GetWeight<W> for Instruction<Call> {
	fn weight(&self) -> Weight {
		match self {
			Instruction::WithdrawAsset(a) => W::withdraw_asset(a),
			Instruction::ReserveAssetDeposited(a) => W::reserve_asset_deposited(a),
			Instruction::ReceiveTeleportedAsset(a) => W::receive_teleported_asset(a),
			Instruction::QueryResponse { query_id, response, max_weight, querier } => W::query_response(query_id, response, max_weight, querier),
			Instruction::TransferAsset { assets, beneficiary } => W::transfer_asset(assets, beneficiary),
			Instruction::TransferReserveAsset { assets, dest, xcm } => W::transfer_reserve_asset(assets, dest, xcm),
			Instruction::Transact { origin_kind, require_weight_at_most, call } => W::transact(origin_kind, require_weight_at_most, call),
			Instruction::HrmpNewChannelOpenRequest { sender, max_message_size, max_capacity } => W::hrmp_new_channel_open_request(sender, max_message_size, max_capacity),
			Instruction::HrmpChannelAccepted { recipient } => W::hrmp_channel_accepted(recipient),
			Instruction::HrmpChannelClosing { initiator, sender, recipient } => W::hrmp_channel_closing(initiator, sender, recipient),
			Instruction::ClearOrigin => W::clear_origin(),
			Instruction::DescendOrigin(a) => W::descend_origin(a),
			Instruction::ReportError(a) => W::report_error(a),
			Instruction::DepositAsset { assets, beneficiary } => W::deposit_asset(assets, beneficiary),
			Instruction::DepositReserveAsset { assets, dest, xcm } => W::deposit_reserve_asset(assets, dest, xcm),
			Instruction::ExchangeAsset { give, want, maximal } => W::exchange_asset(give, want, maximal),
			Instruction::InitiateReserveWithdraw { assets, reserve, xcm } => W::initiate_reserve_withdraw(assets, reserve, xcm),
			Instruction::InitiateTeleport { assets, dest, xcm } => W::initiate_teleport(assets, dest, xcm),
			Instruction::ReportHolding { response_info, assets } => W::report_holding(response_info, assets),
			Instruction::BuyExecution { fees, weight_limit } => W::buy_execution(fees, weight_limit),
			Instruction::RefundSurplus => W::refund_surplus(),
			Instruction::SetErrorHandler(a) => W::set_error_handler(a),
			Instruction::SetAppendix(a) => W::set_appendix(a),
			Instruction::ClearError => W::clear_error(),
			Instruction::ClaimAsset { assets, ticket } => W::claim_asset(assets, ticket),
			Instruction::Trap(a) => W::trap(a),
			Instruction::SubscribeVersion { query_id, max_response_weight } => W::subscribe_version(query_id, max_response_weight),
			Instruction::UnsubscribeVersion => W::unsubscribe_version(),
			Instruction::BurnAsset(a) => W::burn_asset(a),
			Instruction::ExpectAsset(a) => W::expect_asset(a),
			Instruction::ExpectOrigin(a) => W::expect_origin(a),
			Instruction::ExpectError(a) => W::expect_error(a),
			Instruction::ExpectTransactStatus(a) => W::expect_transact_status(a),
			Instruction::QueryPallet { module_name, response_info } => W::query_pallet(module_name, response_info),
			Instruction::ExpectPallet { index, name, module_name, crate_major, min_crate_minor } => W::expect_pallet(index, name, module_name, crate_major, min_crate_minor),
			Instruction::ReportTransactStatus(a) => W::report_transact_status(a),
			Instruction::ClearTransactStatus => W::clear_transact_status(),
			Instruction::UniversalOrigin(a) => W::universal_origin(a),
			Instruction::ExportMessage { network, destination, xcm } => W::export_message(network, destination, xcm),
			Instruction::LockAsset { asset, unlocker } => W::lock_asset(asset, unlocker),
			Instruction::UnlockAsset { asset, target } => W::unlock_asset(asset, target),
			Instruction::NoteUnlockable { asset, owner } => W::note_unlockable(asset, owner),
			Instruction::RequestUnlock { asset, locker } => W::request_unlock(asset, locker),
			Instruction::SetFeesMode { jit_withdraw } => W::set_fees_mode(jit_withdraw),
			Instruction::SetTopic(a) => W::set_topic(a),
			Instruction::ClearTopic => W::clear_topic(),
			Instruction::AliasOrigin(a) => W::alias_origin(a),
			Instruction::UnpaidExecution { weight_limit, check_origin } => W::unpaid_execution(weight_limit, check_origin),
		}
	}
}
#[derive(Clone, Debug, PartialEq, Eq, Default)]
pub struct XcmContext {
	pub origin: Option<Location>,
	pub message_id: XcmHash,
	pub topic: Option<[u8; 32]>,
}
impl XcmContext {
	pub fn with_message_id(message_id: XcmHash) -> Self {
		Self { origin: None, message_id, topic: None }
	}
}
pub type XcmHash = [u8; 32];

pub mod prelude {
	pub use super::{
		Asset, AssetFilter::{self, *}, AssetId, AssetInstance::{self, *}, Assets, BodyId, BodyPart, Error as XcmError, Fungibility::{self, *},
		Instruction::*, InteriorLocation, Junction::{self, *}, Junctions::{self, Here}, Location, MaybeErrorCode,
		NetworkId::{self, *}, OriginKind, Parent, QueryId, QueryResponseInfo, Response, Weight, WeightLimit::{self, *},
		WildAsset::{self, *}, WildFungibility::{self, Fungible as WildFungible, NonFungible as WildNonFungible}, Xcm, XcmResult, XcmWeightInfo, XcmContext, XcmHash, GetWeight, Version as XcmVersion, VERSION as XCM_VERSION,
	};
	pub use super::Instruction;
}
