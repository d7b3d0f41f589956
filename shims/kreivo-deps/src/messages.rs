//! Messages between chains: the executor, the parts it is configured with, the pallet.

pub mod xcm_executor {
	use frame_support::traits::{Contains, ContainsPair, Get};
	use sp_runtime::traits::Dispatchable;
	use std::collections::{BTreeMap, BTreeSet};
	use std::marker::PhantomData;
	use traits::*;
	use xcm::latest::prelude::*;

	/// The assets a message holds while it runs.
	#[derive(Clone, Debug, Default, PartialEq, Eq)]
	pub struct AssetsInHolding {
		pub fungible: BTreeMap<AssetId, u128>,
		pub non_fungible: BTreeSet<(AssetId, AssetInstance)>,
	}
	impl AssetsInHolding {
		pub fn new() -> Self {
			Self::default()
		}
		pub fn is_empty(&self) -> bool {
			self.fungible.is_empty() && self.non_fungible.is_empty()
		}
		pub fn len(&self) -> usize {
			self.fungible.len() + self.non_fungible.len()
		}
		pub fn subsume(&mut self, asset: Asset) {
			match asset.fun {
				Fungible(a) => {
					let e = self.fungible.entry(asset.id).or_default();
					*e = e.saturating_add(a);
				}
				NonFungible(i) => {
					self.non_fungible.insert((asset.id, i));
				}
			}
		}
		pub fn subsume_assets(&mut self, other: AssetsInHolding) {
			for a in other.into_assets_iter() {
				self.subsume(a)
			}
		}
		pub fn into_assets_iter(self) -> impl Iterator<Item = Asset> {
			self.fungible
				.into_iter()
				.map(|(id, a)| Asset { id, fun: Fungible(a) })
				.chain(self.non_fungible.into_iter().map(|(id, i)| Asset { id, fun: NonFungible(i) }))
		}
		pub fn checked_sub(mut self, asset: Asset) -> Result<Self, Self> {
			match asset.fun {
				Fungible(amount) => match self.fungible.get(&asset.id).and_then(|x| x.checked_sub(amount)) {
					Some(0) => {
						self.fungible.remove(&asset.id);
						Ok(self)
					}
					Some(left) => {
						self.fungible.insert(asset.id, left);
						Ok(self)
					}
					None if amount == 0 => Ok(self),
					None => Err(self),
				},
				NonFungible(i) => {
					if self.non_fungible.remove(&(asset.id, i)) {
						Ok(self)
					} else {
						Err(self)
					}
				}
			}
		}
		pub fn try_take(&mut self, filter: AssetFilter) -> Result<Self, ()> {
			match filter {
				Definite(assets) => {
					let mut left = self.clone();
					for a in assets.inner().clone() {
						left = left.checked_sub(a).map_err(|_| ())?;
					}
					*self = left;
					Ok(assets.into_inner().into())
				}
				Wild(All) | Wild(AllCounted(_)) => Ok(std::mem::take(self)),
				Wild(AllOf { id, fun: WildFungibility::Fungible }) | Wild(AllOfCounted { id, fun: WildFungibility::Fungible, .. }) => {
					let mut out = Self::default();
					if let Some(a) = self.fungible.remove(&id) {
						out.fungible.insert(id, a);
					}
					Ok(out)
				}
				_ => panic!("SHIM-UNSUPPORTED: taking assets that are not fungible"),
			}
		}
	}
	impl From<Vec<Asset>> for AssetsInHolding {
		fn from(v: Vec<Asset>) -> Self {
			let mut out = Self::default();
			v.into_iter().for_each(|a| out.subsume(a));
			out
		}
	}
	impl From<Asset> for AssetsInHolding {
		fn from(a: Asset) -> Self {
			vec![a].into()
		}
	}

	pub mod traits {
		pub use super::AssetsInHolding;
		use frame_support::traits::ProcessMessageError;
		use impl_trait_for_tuples::impl_for_tuples;
		use sp_runtime::traits::MaybeEquivalence;
		use xcm::latest::prelude::*;
		pub struct JustTry;
		impl<A: TryInto<B> + Clone, B: TryInto<A> + Clone> MaybeEquivalence<A, B> for JustTry {
			fn convert(a: &A) -> Option<B> {
				a.clone().try_into().ok()
			}
			fn convert_back(b: &B) -> Option<A> {
				b.clone().try_into().ok()
			}
		}
		pub struct Identity;
		impl<T: Clone> MaybeEquivalence<T, T> for Identity {
			fn convert(a: &T) -> Option<T> {
				Some(a.clone())
			}
			fn convert_back(a: &T) -> Option<T> {
				Some(a.clone())
			}
		}
		pub trait ConvertLocation<AccountId> {
			fn convert_location(location: &Location) -> Option<AccountId>;
		}
		#[impl_for_tuples(30)]
		#[tuple_types_custom_trait_bound(ConvertLocation<AccountId>)]
		impl<AccountId> ConvertLocation<AccountId> for Tuple {
			fn convert_location(l: &Location) -> Option<AccountId> {
				for_tuples!( #( if let Some(r) = Tuple::convert_location(l) { return Some(r) } )* );
				None
			}
		}
		pub trait ConvertOrigin<Origin> {
			fn convert_origin(origin: impl Into<Location>, kind: OriginKind) -> Result<Origin, Location>;
		}
		#[impl_for_tuples(30)]
		#[tuple_types_custom_trait_bound(ConvertOrigin<O>)]
		impl<O> ConvertOrigin<O> for Tuple {
			fn convert_origin(origin: impl Into<Location>, kind: OriginKind) -> Result<O, Location> {
				let origin = origin.into();
				for_tuples!( #( let origin = match Tuple::convert_origin(origin, kind) { Err(o) => o, r => return r }; )* );
				Err(origin)
			}
		}
		#[derive(Clone, Copy, Debug, Default, PartialEq, Eq)]
		pub struct Properties {
			pub weight_credit: Weight,
			pub message_id: Option<XcmHash>,
		}
		pub trait ShouldExecute {
			fn should_execute<C>(origin: &Location, instructions: &mut [Instruction<C>], max_weight: Weight, properties: &mut Properties) -> Result<(), ProcessMessageError>;
		}
		#[impl_for_tuples(30)]
		impl ShouldExecute for Tuple {
			fn should_execute<C>(origin: &Location, instructions: &mut [Instruction<C>], max_weight: Weight, properties: &mut Properties) -> Result<(), ProcessMessageError> {
				for_tuples!( #(
					let barrier = Tuple::should_execute(origin, instructions, max_weight, properties);
					match barrier { Err(ProcessMessageError::Yield) => return Err(ProcessMessageError::Yield), Ok(()) => return Ok(()), _ => (), }
				)* );
				Err(ProcessMessageError::Unsupported)
			}
		}
		#[derive(Clone, Copy, Debug, PartialEq, Eq)]
		pub enum Error {
			AssetNotHandled,
			AccountIdConversionFailed,
			AmountToBalanceConversionFailed,
			AssetIdConversionFailed,
			InstanceConversionFailed,
		}
		impl From<Error> for XcmError {
			fn from(e: Error) -> Self {
				match e {
					Error::AssetNotHandled => XcmError::AssetNotFound,
					_ => XcmError::FailedToTransactAsset,
				}
			}
		}
		pub trait MatchesFungible<Balance> {
			fn matches_fungible(a: &Asset) -> Option<Balance>;
		}
		pub trait MatchesFungibles<AssetId, Balance> {
			fn matches_fungibles(a: &Asset) -> Result<(AssetId, Balance), Error>;
		}
		#[impl_for_tuples(30)]
		#[tuple_types_custom_trait_bound(MatchesFungibles<A, B>)]
		impl<A, B> MatchesFungibles<A, B> for Tuple {
			fn matches_fungibles(a: &Asset) -> Result<(A, B), Error> {
				for_tuples!( #( match Tuple::matches_fungibles(a) { o @ Ok(_) => return o, _ => () } )* );
				Err(Error::AssetNotHandled)
			}
		}
		pub trait TransactAsset {
			fn deposit_asset(_what: &Asset, _who: &Location, _context: Option<&XcmContext>) -> XcmResult {
				Err(XcmError::Unimplemented)
			}
			fn withdraw_asset(_what: &Asset, _who: &Location, _maybe_context: Option<&XcmContext>) -> Result<AssetsInHolding, XcmError> {
				Err(XcmError::Unimplemented)
			}
			fn internal_transfer_asset(_asset: &Asset, _from: &Location, _to: &Location, _context: &XcmContext) -> Result<AssetsInHolding, XcmError> {
				Err(XcmError::Unimplemented)
			}
			fn transfer_asset(asset: &Asset, from: &Location, to: &Location, context: &XcmContext) -> Result<AssetsInHolding, XcmError> {
				match Self::internal_transfer_asset(asset, from, to, context) {
					Err(XcmError::AssetNotFound | XcmError::Unimplemented) => {
						let assets = Self::withdraw_asset(asset, from, Some(context))?;
						Self::deposit_asset(asset, to, Some(context))?;
						Ok(assets)
					}
					result => result,
				}
			}
		}
		#[impl_for_tuples(30)]
		impl TransactAsset for Tuple {
			fn deposit_asset(what: &Asset, who: &Location, context: Option<&XcmContext>) -> XcmResult {
				for_tuples!( #( match Tuple::deposit_asset(what, who, context) { Err(XcmError::AssetNotFound) | Err(XcmError::Unimplemented) => (), r => return r } )* );
				Err(XcmError::AssetNotFound)
			}
			fn withdraw_asset(what: &Asset, who: &Location, c: Option<&XcmContext>) -> Result<AssetsInHolding, XcmError> {
				for_tuples!( #( match Tuple::withdraw_asset(what, who, c) { Err(XcmError::AssetNotFound) | Err(XcmError::Unimplemented) => (), r => return r } )* );
				Err(XcmError::AssetNotFound)
			}
			fn internal_transfer_asset(what: &Asset, from: &Location, to: &Location, c: &XcmContext) -> Result<AssetsInHolding, XcmError> {
				for_tuples!( #( match Tuple::internal_transfer_asset(what, from, to, c) { Err(XcmError::AssetNotFound) | Err(XcmError::Unimplemented) => (), r => return r } )* );
				Err(XcmError::AssetNotFound)
			}
		}
		pub trait WeightTrader: Sized {
			fn new() -> Self;
			fn buy_weight(&mut self, weight: Weight, payment: AssetsInHolding, context: &XcmContext) -> Result<AssetsInHolding, XcmError>;
			fn refund_weight(&mut self, _weight: Weight, _context: &XcmContext) -> Option<Asset> {
				None
			}
		}
		#[impl_for_tuples(1, 30)]
		impl WeightTrader for Tuple {
			fn new() -> Self {
				for_tuples!( ( #( Tuple::new() ),* ) )
			}
			fn buy_weight(&mut self, weight: Weight, payment: AssetsInHolding, context: &XcmContext) -> Result<AssetsInHolding, XcmError> {
				let mut too_expensive = false;
				let mut last = None;
				for_tuples!( #( match Tuple.buy_weight(weight, payment.clone(), context) {
					Ok(assets) => return Ok(assets),
					Err(e) => { too_expensive |= e == XcmError::TooExpensive; last = Some(e) }
				} )* );
				Err(if too_expensive { XcmError::TooExpensive } else { last.unwrap_or(XcmError::TooExpensive) })
			}
			fn refund_weight(&mut self, weight: Weight, context: &XcmContext) -> Option<Asset> {
				for_tuples!( #( if let Some(a) = Tuple.refund_weight(weight, context) { return Some(a) } )* );
				None
			}
		}
		pub trait WeightBounds<RuntimeCall> {
			fn weight(message: &mut Xcm<RuntimeCall>) -> Result<Weight, ()>;
			fn instr_weight(instruction: &Instruction<RuntimeCall>) -> Result<Weight, ()>;
		}
	}

	pub trait Config {
		type RuntimeCall: parity_scale_codec::Decode + Dispatchable;
		type XcmSender;
		type AssetTransactor: TransactAsset;
		type OriginConverter: ConvertOrigin<<Self::RuntimeCall as Dispatchable>::RuntimeOrigin>;
		type IsReserve: ContainsPair<Asset, Location>;
		type IsTeleporter: ContainsPair<Asset, Location>;
		type Aliasers: ContainsPair<Location, Location>;
		type UniversalLocation: Get<InteriorLocation>;
		type Barrier: ShouldExecute;
		type Weigher: WeightBounds<Self::RuntimeCall>;
		type Trader: WeightTrader;
		type ResponseHandler;
		type AssetTrap;
		type AssetClaims;
		type AssetLocker;
		type AssetExchanger;
		type SubscriptionService;
		type PalletInstancesInfo;
		type MaxAssetsIntoHolding: Get<u32>;
		type FeeManager;
		type MessageExporter;
		type UniversalAliases;
		type CallDispatcher;
		type SafeCallFilter: Contains<Self::RuntimeCall>;
		type TransactionalProcessor;
		type HrmpNewChannelOpenRequestHandler;
		type HrmpChannelAcceptedHandler;
		type HrmpChannelClosingHandler;
		type XcmRecorder;
	}
	pub struct XcmExecutor<C>(PhantomData<C>);
	/// What an executor goes by.
	pub trait GoesBy {
		type Config: Config;
	}
	impl<C: Config> GoesBy for XcmExecutor<C> {
		type Config = C;
	}
	/// How a message ended.
	#[derive(Clone, Debug, PartialEq, Eq)]
	pub enum Outcome {
		Complete,
		Incomplete(u32, XcmError),
		Refused,
	}
	impl<C: Config> XcmExecutor<C> {
		/// Runs a message that came from `origin`. What is still held in the end is left aside, as it
		/// would be in the asset trap, and returned.
		pub fn run(origin: Location, mut message: Xcm<C::RuntimeCall>, credit: Weight) -> (Outcome, AssetsInHolding) {
			let Ok(max_weight) = C::Weigher::weight(&mut message) else { return (Outcome::Refused, Default::default()) };
			let mut properties = Properties { weight_credit: credit, message_id: None };
			if C::Barrier::should_execute(&origin, &mut message.0, max_weight, &mut properties).is_err() {
				return (Outcome::Refused, Default::default());
			}
			let mut vm = Vm::<C> { origin: Some(origin), holding: Default::default(), trader: C::Trader::new(), of: PhantomData };
			let mut outcome = Outcome::Complete;
			for (i, instruction) in message.0.into_iter().enumerate() {
				sp_io::storage::start_transaction();
				match vm.step(instruction) {
					Ok(()) => sp_io::storage::commit_transaction(),
					Err(e) => {
						sp_io::storage::rollback_transaction();
						outcome = Outcome::Incomplete(i as u32, e);
						break;
					}
				}
			}
			(outcome, vm.holding)
		}
	}
	struct Vm<C: Config> {
		origin: Option<Location>,
		holding: AssetsInHolding,
		trader: C::Trader,
		of: PhantomData<C>,
	}
	impl<C: Config> Vm<C> {
		fn context(&self) -> XcmContext {
			XcmContext { origin: self.origin.clone(), ..Default::default() }
		}
		fn fits(&self, n: usize) -> XcmResult {
			if self.holding.len() + n > C::MaxAssetsIntoHolding::get() as usize * 2 {
				return Err(XcmError::HoldingWouldOverflow);
			}
			Ok(())
		}
		fn step(&mut self, i: Instruction<C::RuntimeCall>) -> XcmResult {
			match i {
				WithdrawAsset(assets) => {
					let origin = self.origin.clone().ok_or(XcmError::BadOrigin)?;
					self.fits(assets.len())?;
					for a in assets.inner() {
						C::AssetTransactor::withdraw_asset(a, &origin, Some(&self.context()))?;
					}
					self.holding.subsume_assets(assets.into_inner().into());
					Ok(())
				}
				ReserveAssetDeposited(assets) => {
					let origin = self.origin.clone().ok_or(XcmError::BadOrigin)?;
					self.fits(assets.len())?;
					for a in assets.inner() {
						if !C::IsReserve::contains(a, &origin) {
							return Err(XcmError::UntrustedReserveLocation);
						}
					}
					self.holding.subsume_assets(assets.into_inner().into());
					Ok(())
				}
				ReceiveTeleportedAsset(assets) => {
					let origin = self.origin.clone().ok_or(XcmError::BadOrigin)?;
					for a in assets.inner() {
						if !C::IsTeleporter::contains(a, &origin) {
							return Err(XcmError::UntrustedTeleportLocation);
						}
					}
					self.holding.subsume_assets(assets.into_inner().into());
					Ok(())
				}
				TransferAsset { assets, beneficiary } => {
					let origin = self.origin.clone().ok_or(XcmError::BadOrigin)?;
					for a in assets.inner() {
						C::AssetTransactor::transfer_asset(a, &origin, &beneficiary, &self.context())?;
					}
					Ok(())
				}
				Transact { origin_kind, require_weight_at_most: _, mut call } => {
					let origin = self.origin.clone().ok_or(XcmError::BadOrigin)?;
					let call = call.take_decoded().map_err(|_| XcmError::FailedToDecode)?;
					if !C::SafeCallFilter::contains(&call) {
						return Err(XcmError::NoPermission);
					}
					let o = C::OriginConverter::convert_origin(origin, origin_kind).map_err(|_| XcmError::BadOrigin)?;
					let _ = call.dispatch(o);
					Ok(())
				}
				ClearOrigin => {
					self.origin = None;
					Ok(())
				}
				DescendOrigin(who) => self.origin.as_mut().ok_or(XcmError::BadOrigin)?.append_with(who).map_err(|_| XcmError::LocationFull),
				AliasOrigin(target) => {
					let origin = self.origin.as_ref().ok_or(XcmError::BadOrigin)?;
					if !C::Aliasers::contains(origin, &target) {
						return Err(XcmError::NoPermission);
					}
					self.origin = Some(target);
					Ok(())
				}
				UniversalOrigin(_) => Err(XcmError::InvalidLocation),
				DepositAsset { assets, beneficiary } => {
					let taken = self.holding.clone().try_take(assets.clone()).map_err(|_| XcmError::NotWithdrawable)?;
					for a in taken.into_assets_iter() {
						C::AssetTransactor::deposit_asset(&a, &beneficiary, Some(&self.context()))?;
					}
					self.holding.try_take(assets).map_err(|_| XcmError::NotWithdrawable)?;
					Ok(())
				}
				BuyExecution { fees, weight_limit } => {
					let Limited(weight) = weight_limit else { return Ok(()) };
					let max = self.holding.clone().try_take(Definite(vec![fees].into())).map_err(|_| XcmError::NotHoldingFees)?;
					let context = self.context();
					let unspent = self.trader.buy_weight(weight, max.clone(), &context)?;
					for a in max.into_assets_iter() {
						self.holding = std::mem::take(&mut self.holding).checked_sub(a).map_err(|_| XcmError::NotHoldingFees)?;
					}
					self.holding.subsume_assets(unspent);
					Ok(())
				}
				UnpaidExecution { check_origin, .. } => {
					if check_origin.is_some() && check_origin != self.origin {
						return Err(XcmError::BadOrigin);
					}
					Ok(())
				}
				BurnAsset(assets) => {
					for a in assets.into_inner() {
						if let Ok(left) = self.holding.clone().checked_sub(a) {
							self.holding = left;
						}
					}
					Ok(())
				}
				ExpectOrigin(o) => (o == self.origin).then_some(()).ok_or(XcmError::ExpectationFalse),
				Trap(code) => Err(XcmError::Trap(code)),
				RefundSurplus | SetTopic(_) | ClearTopic | ClearError | SetFeesMode { .. } | ClearTransactStatus => Ok(()),
				_ => Err(XcmError::Unimplemented),
			}
		}
	}
}

pub mod xcm_builder {
	use super::xcm_executor::traits::{ConvertLocation, ConvertOrigin, Error as MatchError, MatchesFungible, MatchesFungibles, Properties, ShouldExecute, TransactAsset, WeightBounds, WeightTrader};
	use super::xcm_executor::AssetsInHolding;
	use frame_support::traits::tokens::{fungible, fungibles, Fortitude::Polite, Precision::Exact, Preservation::Expendable};
	use frame_support::traits::{Contains, ContainsPair, EnsureOrigin, Get, OnUnbalanced, OriginTrait, ProcessMessageError};
	use parity_scale_codec::{Decode, Encode};
	use sp_runtime::traits::{AccountIdConversion, MaybeEquivalence, TrailingZeroInput, TryConvert};
	use sp_weights::WeightToFee as WeightToFeeT;
	use std::marker::PhantomData;
	use xcm::latest::prelude::*;

	// === locations into accounts ===

	pub struct AccountId32Aliases<Network, AccountId>(PhantomData<(Network, AccountId)>);
	impl<Network: Get<Option<NetworkId>>, AccountId: From<[u8; 32]>> ConvertLocation<AccountId> for AccountId32Aliases<Network, AccountId> {
		fn convert_location(location: &Location) -> Option<AccountId> {
			match location.unpack() {
				(0, [AccountId32 { id, network: None }]) => Some((*id).into()),
				(0, [AccountId32 { id, network }]) if *network == Network::get() => Some((*id).into()),
				_ => None,
			}
		}
	}
	pub struct ParentIsPreset<AccountId>(PhantomData<AccountId>);
	impl<AccountId: Decode> ConvertLocation<AccountId> for ParentIsPreset<AccountId> {
		fn convert_location(location: &Location) -> Option<AccountId> {
			location
				.contains_parents_only(1)
				.then(|| b"Parent".using_encoded(|b| AccountId::decode(&mut TrailingZeroInput::new(b))).expect("infinite length input; no invalid inputs for type"))
		}
	}
	pub struct SiblingParachainConvertsVia<ParaId, AccountId>(PhantomData<(ParaId, AccountId)>);
	impl<ParaId: From<u32> + AccountIdConversion<AccountId>, AccountId: Clone> ConvertLocation<AccountId> for SiblingParachainConvertsVia<ParaId, AccountId> {
		fn convert_location(location: &Location) -> Option<AccountId> {
			match location.unpack() {
				(1, [Parachain(id)]) => Some(ParaId::from(*id).into_account_truncating()),
				_ => None,
			}
		}
	}
	pub struct ChildParachainConvertsVia<ParaId, AccountId>(PhantomData<(ParaId, AccountId)>);
	impl<ParaId: From<u32> + AccountIdConversion<AccountId>, AccountId: Clone> ConvertLocation<AccountId> for ChildParachainConvertsVia<ParaId, AccountId> {
		fn convert_location(location: &Location) -> Option<AccountId> {
			match location.unpack() {
				(0, [Parachain(id)]) => Some(ParaId::from(*id).into_account_truncating()),
				_ => None,
			}
		}
	}

	// === locations into origins ===

	pub struct SovereignSignedViaLocation<L, O>(PhantomData<(L, O)>);
	impl<L: ConvertLocation<O::AccountId>, O: OriginTrait> ConvertOrigin<O> for SovereignSignedViaLocation<L, O>
	where
		O::AccountId: Clone,
	{
		fn convert_origin(origin: impl Into<Location>, kind: OriginKind) -> Result<O, Location> {
			let origin = origin.into();
			if kind != OriginKind::SovereignAccount {
				return Err(origin);
			}
			L::convert_location(&origin).map(O::signed).ok_or(origin)
		}
	}
	pub struct ParentAsSuperuser<O>(PhantomData<O>);
	impl<O: OriginTrait> ConvertOrigin<O> for ParentAsSuperuser<O> {
		fn convert_origin(origin: impl Into<Location>, kind: OriginKind) -> Result<O, Location> {
			let origin = origin.into();
			if kind == OriginKind::Superuser && origin.contains_parents_only(1) {
				Ok(O::root())
			} else {
				Err(origin)
			}
		}
	}
	pub struct RelayChainAsNative<R, O>(PhantomData<(R, O)>);
	impl<R: Get<O>, O> ConvertOrigin<O> for RelayChainAsNative<R, O> {
		fn convert_origin(origin: impl Into<Location>, kind: OriginKind) -> Result<O, Location> {
			let origin = origin.into();
			if kind == OriginKind::Native && origin.contains_parents_only(1) {
				Ok(R::get())
			} else {
				Err(origin)
			}
		}
	}
	pub struct SiblingParachainAsNative<P, O>(PhantomData<(P, O)>);
	impl<P: From<u32>, O: From<P>> ConvertOrigin<O> for SiblingParachainAsNative<P, O> {
		fn convert_origin(origin: impl Into<Location>, kind: OriginKind) -> Result<O, Location> {
			let origin = origin.into();
			match (kind, origin.unpack()) {
				(OriginKind::Native, (1, [Parachain(id)])) => Ok(O::from(P::from(*id))),
				_ => Err(origin),
			}
		}
	}
	pub struct SignedAccountId32AsNative<N, O>(PhantomData<(N, O)>);
	impl<N: Get<Option<NetworkId>>, O: OriginTrait> ConvertOrigin<O> for SignedAccountId32AsNative<N, O>
	where
		O::AccountId: From<[u8; 32]>,
	{
		fn convert_origin(origin: impl Into<Location>, kind: OriginKind) -> Result<O, Location> {
			let origin = origin.into();
			match (kind, origin.unpack()) {
				(OriginKind::Native, (0, [AccountId32 { id, network }])) if network.is_none() || *network == N::get() => Ok(O::signed((*id).into())),
				_ => Err(origin),
			}
		}
	}

	// === origins into locations ===

	pub struct SignedToAccountId32<O, A, N>(PhantomData<(O, A, N)>);
	impl<O: OriginTrait<AccountId = A> + Clone, A: Into<[u8; 32]>, N: Get<Option<NetworkId>>> TryConvert<O, Location> for SignedToAccountId32<O, A, N> {
		fn try_convert(o: O) -> Result<Location, O> {
			match o.clone().into_signer() {
				Some(who) => Ok(AccountId32 { network: N::get(), id: who.into() }.into()),
				None => Err(o),
			}
		}
	}
	pub struct EnsureXcmOrigin<O, C>(PhantomData<(O, C)>);
	impl<O: OriginTrait + Clone, C: TryConvert<O, Location>> EnsureOrigin<O> for EnsureXcmOrigin<O, C>
	where
		O::PalletsOrigin: PartialEq,
	{
		type Success = Location;
		fn try_origin(o: O) -> Result<Location, O> {
			let o = match C::try_convert(o) {
				Ok(location) => return Ok(location),
				Err(o) => o,
			};
			// root can always represent the context
			if o.caller() == O::root().caller() {
				Ok(Here.into())
			} else {
				Err(o)
			}
		}
		#[cfg(feature = "runtime-benchmarks")]
		fn try_successful_origin() -> Result<O, ()> {
			Ok(O::root())
		}
	}
	pub struct EnsureXcm<F>(PhantomData<F>);

	// === assets ===

	pub struct IsConcrete<T>(PhantomData<T>);
	impl<T: Get<Location>, B: TryFrom<u128>> MatchesFungible<B> for IsConcrete<T> {
		fn matches_fungible(a: &Asset) -> Option<B> {
			match (&a.id, &a.fun) {
				(AssetId(id), Fungible(amount)) if *id == T::get() => B::try_from(*amount).ok(),
				_ => None,
			}
		}
	}
	impl<T: Get<Location>> Contains<Location> for IsConcrete<T> {
		fn contains(l: &Location) -> bool {
			*l == T::get()
		}
	}
	pub struct StartsWith<T, L = Location>(PhantomData<(T, L)>);
	impl<T: Get<Location>> Contains<Location> for StartsWith<T> {
		fn contains(l: &Location) -> bool {
			l.starts_with(&T::get())
		}
	}
	pub struct Equals<T>(PhantomData<T>);
	impl<T: Get<Location>> Contains<Location> for Equals<T> {
		fn contains(l: &Location) -> bool {
			*l == T::get()
		}
	}
	pub struct ConvertedConcreteId<A, B, CA, CB>(PhantomData<(A, B, CA, CB)>);
	impl<A, B, CA: MaybeEquivalence<Location, A>, CB: MaybeEquivalence<u128, B>> MatchesFungibles<A, B> for ConvertedConcreteId<A, B, CA, CB> {
		fn matches_fungibles(a: &Asset) -> Result<(A, B), MatchError> {
			let (amount, id) = match (&a.fun, &a.id) {
				(Fungible(amount), AssetId(id)) => (amount, id),
				_ => return Err(MatchError::AssetNotHandled),
			};
			let what = CA::convert(id).ok_or(MatchError::AssetIdConversionFailed)?;
			let amount = CB::convert(amount).ok_or(MatchError::AmountToBalanceConversionFailed)?;
			Ok((what, amount))
		}
	}
	pub struct MatchedConvertedConcreteId<A, B, M, CA, CB>(PhantomData<(A, B, M, CA, CB)>);
	impl<A, B, M: Contains<Location>, CA: MaybeEquivalence<Location, A>, CB: MaybeEquivalence<u128, B>> MatchesFungibles<A, B>
		for MatchedConvertedConcreteId<A, B, M, CA, CB>
	{
		fn matches_fungibles(a: &Asset) -> Result<(A, B), MatchError> {
			let (amount, id) = match (&a.fun, &a.id) {
				(Fungible(amount), AssetId(id)) if M::contains(id) => (amount, id),
				_ => return Err(MatchError::AssetNotHandled),
			};
			let what = CA::convert(id).ok_or(MatchError::AssetIdConversionFailed)?;
			let amount = CB::convert(amount).ok_or(MatchError::AmountToBalanceConversionFailed)?;
			Ok((what, amount))
		}
	}
	pub struct NativeAsset;
	impl ContainsPair<Asset, Location> for NativeAsset {
		fn contains(asset: &Asset, origin: &Location) -> bool {
			matches!(&asset.id, AssetId(id) if id == origin)
		}
	}
	#[derive(Clone, Copy, Debug, PartialEq, Eq)]
	pub enum MintLocation {
		Local,
		NonLocal,
	}
	pub struct LocalMint<T>(PhantomData<T>);
	pub struct NonLocalMint<T>(PhantomData<T>);
	pub struct NoChecking;
	/// The single currency of the chain.
	pub struct FungibleAdapter<F, M, C, A, Ch>(PhantomData<(F, M, C, A, Ch)>);
	impl<F: fungible::Mutate<A>, M: MatchesFungible<F::Balance>, C: ConvertLocation<A>, A: Eq + Clone, Ch> TransactAsset for FungibleAdapter<F, M, C, A, Ch> {
		fn deposit_asset(what: &Asset, who: &Location, _: Option<&XcmContext>) -> XcmResult {
			let amount = M::matches_fungible(what).ok_or(MatchError::AssetNotHandled)?;
			let who = C::convert_location(who).ok_or(MatchError::AccountIdConversionFailed)?;
			F::mint_into(&who, amount).map_err(|_| XcmError::FailedToTransactAsset)?;
			Ok(())
		}
		fn withdraw_asset(what: &Asset, who: &Location, _: Option<&XcmContext>) -> Result<AssetsInHolding, XcmError> {
			let amount = M::matches_fungible(what).ok_or(MatchError::AssetNotHandled)?;
			let who = C::convert_location(who).ok_or(MatchError::AccountIdConversionFailed)?;
			F::burn_from(&who, amount, Expendable, Exact, Polite).map_err(|_| XcmError::FailedToTransactAsset)?;
			Ok(what.clone().into())
		}
		fn internal_transfer_asset(what: &Asset, from: &Location, to: &Location, _: &XcmContext) -> Result<AssetsInHolding, XcmError> {
			let amount = M::matches_fungible(what).ok_or(MatchError::AssetNotHandled)?;
			let from = C::convert_location(from).ok_or(MatchError::AccountIdConversionFailed)?;
			let to = C::convert_location(to).ok_or(MatchError::AccountIdConversionFailed)?;
			F::transfer(&from, &to, amount, Expendable).map_err(|_| XcmError::FailedToTransactAsset)?;
			Ok(what.clone().into())
		}
	}
	pub struct FungiblesAdapter<F, M, C, A, K, Ch>(PhantomData<(F, M, C, A, K, Ch)>);
	impl<F: fungibles::Mutate<A>, M: MatchesFungibles<F::AssetId, F::Balance>, C: ConvertLocation<A>, A: Eq + Clone, K, Ch> TransactAsset
		for FungiblesAdapter<F, M, C, A, K, Ch>
	{
		fn deposit_asset(what: &Asset, who: &Location, _: Option<&XcmContext>) -> XcmResult {
			let (id, amount) = M::matches_fungibles(what)?;
			let who = C::convert_location(who).ok_or(MatchError::AccountIdConversionFailed)?;
			F::mint_into(id, &who, amount).map_err(|_| XcmError::FailedToTransactAsset)?;
			Ok(())
		}
		fn withdraw_asset(what: &Asset, who: &Location, _: Option<&XcmContext>) -> Result<AssetsInHolding, XcmError> {
			let (id, amount) = M::matches_fungibles(what)?;
			let who = C::convert_location(who).ok_or(MatchError::AccountIdConversionFailed)?;
			F::burn_from(id, &who, amount, Expendable, Exact, Polite).map_err(|_| XcmError::FailedToTransactAsset)?;
			Ok(what.clone().into())
		}
		fn internal_transfer_asset(what: &Asset, from: &Location, to: &Location, _: &XcmContext) -> Result<AssetsInHolding, XcmError> {
			let (id, amount) = M::matches_fungibles(what)?;
			let from = C::convert_location(from).ok_or(MatchError::AccountIdConversionFailed)?;
			let to = C::convert_location(to).ok_or(MatchError::AccountIdConversionFailed)?;
			F::transfer(id, &from, &to, amount, Expendable).map_err(|_| XcmError::FailedToTransactAsset)?;
			Ok(what.clone().into())
		}
	}

	// === barriers ===

	pub struct TakeWeightCredit;
	impl ShouldExecute for TakeWeightCredit {
		fn should_execute<C>(_: &Location, _: &mut [Instruction<C>], max_weight: Weight, p: &mut Properties) -> Result<(), ProcessMessageError> {
			p.weight_credit = p.weight_credit.checked_sub(&max_weight).ok_or(ProcessMessageError::Overweight(max_weight))?;
			Ok(())
		}
	}
	pub struct AllowTopLevelPaidExecutionFrom<T>(PhantomData<T>);
	impl<T: Contains<Location>> ShouldExecute for AllowTopLevelPaidExecutionFrom<T> {
		fn should_execute<C>(origin: &Location, instructions: &mut [Instruction<C>], max_weight: Weight, _: &mut Properties) -> Result<(), ProcessMessageError> {
			if !T::contains(origin) {
				return Err(ProcessMessageError::Unsupported);
			}
			let end = instructions.len().min(5);
			let mut it = instructions[..end].iter_mut();
			match it.next() {
				Some(WithdrawAsset(assets) | ReceiveTeleportedAsset(assets) | ReserveAssetDeposited(assets) | ClaimAsset { assets, .. }) if assets.len() <= 2 => (),
				_ => return Err(ProcessMessageError::BadFormat),
			}
			for i in it {
				match i {
					ClearOrigin | AliasOrigin(..) => continue,
					DescendOrigin(child) if *child != Here => continue,
					BuyExecution { weight_limit: Limited(weight), .. } if weight.all_gte(max_weight) => {
						*weight = max_weight;
						return Ok(());
					}
					BuyExecution { weight_limit: weight_limit @ Unlimited, .. } => {
						*weight_limit = Limited(max_weight);
						return Ok(());
					}
					_ => return Err(ProcessMessageError::Overweight(max_weight)),
				}
			}
			Err(ProcessMessageError::BadFormat)
		}
	}
	pub struct AllowUnpaidExecutionFrom<T>(PhantomData<T>);
	impl<T: Contains<Location>> ShouldExecute for AllowUnpaidExecutionFrom<T> {
		fn should_execute<C>(origin: &Location, _: &mut [Instruction<C>], _: Weight, _: &mut Properties) -> Result<(), ProcessMessageError> {
			T::contains(origin).then_some(()).ok_or(ProcessMessageError::Unsupported)
		}
	}
	pub struct AllowExplicitUnpaidExecutionFrom<T>(PhantomData<T>);
	impl<T: Contains<Location>> ShouldExecute for AllowExplicitUnpaidExecutionFrom<T> {
		fn should_execute<C>(origin: &Location, instructions: &mut [Instruction<C>], max_weight: Weight, _: &mut Properties) -> Result<(), ProcessMessageError> {
			if !T::contains(origin) {
				return Err(ProcessMessageError::Unsupported);
			}
			match instructions.first() {
				Some(UnpaidExecution { weight_limit: Limited(m), .. }) if m.all_gte(max_weight) => Ok(()),
				Some(UnpaidExecution { weight_limit: Unlimited, .. }) => Ok(()),
				_ => Err(ProcessMessageError::Overweight(max_weight)),
			}
		}
	}
	pub struct AllowKnownQueryResponses<T>(PhantomData<T>);
	pub struct AllowSubscriptionsFrom<T>(PhantomData<T>);
	impl<T: Contains<Location>> ShouldExecute for AllowSubscriptionsFrom<T> {
		fn should_execute<C>(origin: &Location, instructions: &mut [Instruction<C>], _: Weight, _: &mut Properties) -> Result<(), ProcessMessageError> {
			match instructions {
				[SubscribeVersion { .. } | UnsubscribeVersion] if T::contains(origin) => Ok(()),
				_ => Err(ProcessMessageError::BadFormat),
			}
		}
	}
	pub struct TrailingSetTopicAsId<B>(PhantomData<B>);
	impl<B: ShouldExecute> ShouldExecute for TrailingSetTopicAsId<B> {
		fn should_execute<C>(origin: &Location, instructions: &mut [Instruction<C>], w: Weight, p: &mut Properties) -> Result<(), ProcessMessageError> {
			let until = match instructions.last() {
				Some(SetTopic(t)) => {
					p.message_id = Some(*t);
					instructions.len() - 1
				}
				_ => instructions.len(),
			};
			B::should_execute(origin, &mut instructions[..until], w, p)
		}
	}
	pub struct DenyThenTry<D, A>(PhantomData<(D, A)>);
	impl<D: ShouldExecute, A: ShouldExecute> ShouldExecute for DenyThenTry<D, A> {
		fn should_execute<C>(origin: &Location, instructions: &mut [Instruction<C>], w: Weight, p: &mut Properties) -> Result<(), ProcessMessageError> {
			D::should_execute(origin, instructions, w, p)?;
			A::should_execute(origin, instructions, w, p)
		}
	}
	pub struct WithComputedOrigin<B, U, M>(PhantomData<(B, U, M)>);
	impl<B: ShouldExecute, U: Get<InteriorLocation>, M: Get<u32>> ShouldExecute for WithComputedOrigin<B, U, M> {
		fn should_execute<C>(origin: &Location, instructions: &mut [Instruction<C>], max_weight: Weight, p: &mut Properties) -> Result<(), ProcessMessageError> {
			let mut actual = origin.clone();
			let mut skipped = 0;
			while skipped < (M::get() as usize).min(instructions.len()) {
				match &instructions[skipped] {
					UniversalOrigin(new_global) => actual = Junctions::from([*new_global]).relative_to(&U::get()),
					DescendOrigin(j) => actual.append_with(j.clone()).map_err(|_| ProcessMessageError::Unsupported)?,
					_ => break,
				}
				skipped += 1;
			}
			B::should_execute(&actual, &mut instructions[skipped..], max_weight, p)
		}
	}
	pub struct IsChildSystemParachain<P>(PhantomData<P>);
	impl<P> Contains<Location> for IsChildSystemParachain<P> {
		fn contains(l: &Location) -> bool {
			matches!(l.unpack(), (0, [Parachain(id)]) if *id < 2000)
		}
	}
	pub struct ParentAsUmp;
	pub struct FrameTransactionalProcessor;
	pub struct ProcessXcmMessage<O, E, C>(PhantomData<(O, E, C)>);

	// === weights and fees ===

	pub struct WeightInfoBounds<W, C, M>(PhantomData<(W, C, M)>);
	impl<W: XcmWeightInfo<C>, C, M: Get<u32>> WeightInfoBounds<W, C, M> {
		fn with_limit(message: &Xcm<C>, left: &mut u32) -> Result<Weight, ()> {
			*left = left.checked_sub(message.0.len() as u32).ok_or(())?;
			message.0.iter().try_fold(Weight::zero(), |r, m| r.checked_add(&Self::instr_with_limit(m, left)?).ok_or(()))
		}
		fn instr_with_limit(instruction: &Instruction<C>, left: &mut u32) -> Result<Weight, ()> {
			let inner = match instruction {
				Transact { require_weight_at_most, .. } => *require_weight_at_most,
				SetErrorHandler(xcm) | SetAppendix(xcm) => Self::with_limit(xcm, left)?,
				_ => Weight::zero(),
			};
			GetWeight::<W>::weight(instruction).checked_add(&inner).ok_or(())
		}
	}
	impl<W: XcmWeightInfo<C>, C, M: Get<u32>> WeightBounds<C> for WeightInfoBounds<W, C, M> {
		fn weight(message: &mut Xcm<C>) -> Result<Weight, ()> {
			Self::with_limit(message, &mut M::get())
		}
		fn instr_weight(instruction: &Instruction<C>) -> Result<Weight, ()> {
			Self::instr_with_limit(instruction, &mut u32::MAX.clone())
		}
	}
	pub struct FixedWeightBounds<T, C, M>(PhantomData<(T, C, M)>);
	impl<T: Get<Weight>, C, M: Get<u32>> FixedWeightBounds<T, C, M> {
		fn with_limit(message: &Xcm<C>, left: &mut u32) -> Result<Weight, ()> {
			*left = left.checked_sub(message.0.len() as u32).ok_or(())?;
			message.0.iter().try_fold(Weight::zero(), |r, m| r.checked_add(&Self::instr_with_limit(m, left)?).ok_or(()))
		}
		fn instr_with_limit(instruction: &Instruction<C>, left: &mut u32) -> Result<Weight, ()> {
			let inner = match instruction {
				Transact { require_weight_at_most, .. } => *require_weight_at_most,
				SetErrorHandler(xcm) | SetAppendix(xcm) => Self::with_limit(xcm, left)?,
				_ => Weight::zero(),
			};
			T::get().checked_add(&inner).ok_or(())
		}
	}
	impl<T: Get<Weight>, C, M: Get<u32>> WeightBounds<C> for FixedWeightBounds<T, C, M> {
		fn weight(message: &mut Xcm<C>) -> Result<Weight, ()> {
			Self::with_limit(message, &mut M::get())
		}
		fn instr_weight(instruction: &Instruction<C>) -> Result<Weight, ()> {
			Self::instr_with_limit(instruction, &mut u32::MAX.clone())
		}
	}
	pub trait TakeRevenue {
		fn take_revenue(revenue: Asset);
	}
	impl TakeRevenue for () {
		fn take_revenue(_: Asset) {}
	}
	pub struct UsingComponents<W: WeightToFeeT<Balance = u128>, L: Get<Location>, A, C: fungible::Balanced<A, Balance = u128>, U: OnUnbalanced<fungible::Credit<A, C>>>(
		Weight,
		u128,
		PhantomData<(W, L, A, C, U)>,
	);
	impl<W: WeightToFeeT<Balance = u128>, L: Get<Location>, A, C: fungible::Balanced<A, Balance = u128>, U: OnUnbalanced<fungible::Credit<A, C>>> WeightTrader
		for UsingComponents<W, L, A, C, U>
	{
		fn new() -> Self {
			Self(Weight::zero(), 0, PhantomData)
		}
		fn buy_weight(&mut self, weight: Weight, payment: AssetsInHolding, _: &XcmContext) -> Result<AssetsInHolding, XcmError> {
			let amount = W::weight_to_fee(&weight);
			let required = Asset { id: AssetId(L::get()), fun: Fungible(amount) };
			let unused = payment.checked_sub(required).map_err(|_| XcmError::TooExpensive)?;
			self.0 = self.0.saturating_add(weight);
			self.1 = self.1.saturating_add(amount);
			Ok(unused)
		}
		fn refund_weight(&mut self, weight: Weight, _: &XcmContext) -> Option<Asset> {
			let weight = weight.min(self.0);
			let amount = W::weight_to_fee(&weight);
			self.0 -= weight;
			self.1 = self.1.saturating_sub(amount);
			(amount > 0).then(|| Asset { id: AssetId(L::get()), fun: Fungible(amount) })
		}
	}
	impl<W: WeightToFeeT<Balance = u128>, L: Get<Location>, A, C: fungible::Balanced<A, Balance = u128>, U: OnUnbalanced<fungible::Credit<A, C>>> Drop
		for UsingComponents<W, L, A, C, U>
	{
		fn drop(&mut self) {
			if self.1 > 0 {
				U::on_unbalanced(C::issue(self.1))
			}
		}
	}
}

pub mod cumulus_primitives_utility {
	use super::xcm_builder::TakeRevenue;
	use super::xcm_executor::traits::{MatchesFungibles, TransactAsset, WeightTrader};
	use super::xcm_executor::AssetsInHolding;
	use frame_support::traits::tokens::fungibles;
	use frame_support::traits::Get;
	use std::marker::PhantomData;
	use xcm::latest::prelude::*;
	pub struct ParentAsUmp<T, W, P>(PhantomData<(T, W, P)>);
	/// What a weight costs in some asset.
	pub trait ChargeWeightInFungibles<AccountId, Assets: fungibles::Inspect<AccountId>> {
		fn charge_weight_in_fungibles(asset_id: Assets::AssetId, weight: Weight) -> Result<Assets::Balance, XcmError>;
	}
	/// Pays with the first asset of the payment.
	pub struct TakeFirstAssetTrader<A: Eq, F: ChargeWeightInFungibles<A, C>, M: MatchesFungibles<C::AssetId, C::Balance>, C: fungibles::Mutate<A> + fungibles::Balanced<A>, H: TakeRevenue>(
		Option<(AssetId, u128, Weight)>,
		PhantomData<(A, F, M, C, H)>,
	);
	impl<A: Eq, F, M, C, H> WeightTrader for TakeFirstAssetTrader<A, F, M, C, H>
	where
		F: ChargeWeightInFungibles<A, C>,
		M: MatchesFungibles<C::AssetId, C::Balance>,
		C: fungibles::Mutate<A> + fungibles::Balanced<A>,
		C::Balance: Into<u128> + From<u128> + Ord,
		H: TakeRevenue,
	{
		fn new() -> Self {
			Self(None, PhantomData)
		}
		fn buy_weight(&mut self, weight: Weight, payment: AssetsInHolding, _: &XcmContext) -> Result<AssetsInHolding, XcmError> {
			if self.0.is_some() {
				return Err(XcmError::NotWithdrawable);
			}
			let first: Asset = payment.clone().into_assets_iter().next().ok_or(XcmError::AssetNotFound)?;
			let (id, _) = M::matches_fungibles(&first).map_err(|_| XcmError::AssetNotFound)?;
			let price: C::Balance = F::charge_weight_in_fungibles(id.clone(), weight)?;
			let price: u128 = price.max(C::minimum_balance(id)).into();
			let required = Asset { id: first.id.clone(), fun: Fungible(price) };
			let unused = payment.checked_sub(required).map_err(|_| XcmError::TooExpensive)?;
			self.0 = Some((first.id, price, weight));
			Ok(unused)
		}
	}
	impl<A: Eq, F: ChargeWeightInFungibles<A, C>, M: MatchesFungibles<C::AssetId, C::Balance>, C: fungibles::Mutate<A> + fungibles::Balanced<A>, H: TakeRevenue> Drop
		for TakeFirstAssetTrader<A, F, M, C, H>
	{
		fn drop(&mut self) {
			if let Some((id, price, _)) = self.0.take() {
				if price > 0 {
					H::take_revenue(Asset { id, fun: Fungible(price) })
				}
			}
		}
	}
	pub struct XcmFeesTo32ByteAccount<F, A, R>(PhantomData<(F, A, R)>);
	impl<F: TransactAsset, A: Clone + Into<[u8; 32]>, R: Get<A>> TakeRevenue for XcmFeesTo32ByteAccount<F, A, R> {
		fn take_revenue(revenue: Asset) {
			let receiver = R::get();
			let _ = F::deposit_asset(&revenue, &AccountId32 { network: None, id: receiver.into() }.into(), None);
		}
	}
}

pub mod pallet_xcm {
	pub use pallet::*;
	use frame_support::traits::{Contains, EnsureOrigin, Get, OriginTrait};
	use std::marker::PhantomData;
	use xcm::latest::prelude::*;
	pub struct TestWeightInfo;
	pub trait WeightInfo {}
	impl WeightInfo for TestWeightInfo {}
	pub struct CurrentXcmVersion;
	impl Get<u32> for CurrentXcmVersion {
		fn get() -> u32 {
			4
		}
	}
	/// Origins given natively.
	pub struct XcmPassthrough<O>(PhantomData<O>);
	impl<O: From<pallet::Origin>> super::xcm_executor::traits::ConvertOrigin<O> for XcmPassthrough<O> {
		fn convert_origin(origin: impl Into<Location>, kind: OriginKind) -> Result<O, Location> {
			let origin = origin.into();
			if kind == OriginKind::Xcm {
				Ok(pallet::Origin::Xcm(origin).into())
			} else {
				Err(origin)
			}
		}
	}
	/// A location that passes the filter.
	pub struct EnsureXcm<F>(PhantomData<F>);
	impl<O: OriginTrait + From<pallet::Origin> + Clone, F: Contains<Location>> EnsureOrigin<O> for EnsureXcm<F>
	where
		O::PalletsOrigin: TryInto<pallet::Origin> + Clone,
	{
		type Success = Location;
		fn try_origin(o: O) -> Result<Location, O> {
			match o.caller().clone().try_into() {
				Ok(pallet::Origin::Xcm(l)) if F::contains(&l) => Ok(l),
				_ => Err(o),
			}
		}
		#[cfg(feature = "runtime-benchmarks")]
		fn try_successful_origin() -> Result<O, ()> {
			Err(())
		}
	}
	fn body_of<P: Get<Location>, B: Get<BodyId>>(l: &Location) -> Option<BodyPart> {
		let prefix = P::get();
		if l.parents != prefix.parents || !l.interior().starts_with(prefix.interior()) || l.interior().len() != prefix.interior().len() + 1 {
			return None;
		}
		match l.last() {
			Some(Plurality { id, part }) if *id == B::get() => Some(*part),
			_ => None,
		}
	}
	pub struct IsVoiceOfBody<P, B>(PhantomData<(P, B)>);
	impl<P: Get<Location>, B: Get<BodyId>> Contains<Location> for IsVoiceOfBody<P, B> {
		fn contains(l: &Location) -> bool {
			body_of::<P, B>(l) == Some(BodyPart::Voice)
		}
	}
	pub struct IsMajorityOfBody<P, B>(PhantomData<(P, B)>);
	impl<P: Get<Location>, B: Get<BodyId>> Contains<Location> for IsMajorityOfBody<P, B> {
		fn contains(l: &Location) -> bool {
			body_of::<P, B>(l).map_or(false, |p| p.is_majority())
		}
	}
	#[frame_support::pallet]
	pub mod pallet {
		use frame_support::pallet_prelude::*;
		use frame_support::traits::EnsureOrigin;
		use frame_system::pallet_prelude::*;
		use sp_runtime::traits::AccountIdConversion;
		use xcm::latest::Location;
		use xcm::{VersionedAssets, VersionedLocation, VersionedXcm};
		#[pallet::config]
		pub trait Config: frame_system::Config {
			const VERSION_DISCOVERY_QUEUE_SIZE: u32;
			type RuntimeEvent;
			type SendXcmOrigin: EnsureOrigin<<Self as frame_system::Config>::RuntimeOrigin, Success = Location>;
			type ExecuteXcmOrigin: EnsureOrigin<<Self as frame_system::Config>::RuntimeOrigin, Success = Location>;
			type XcmRouter;
			type XcmExecuteFilter: frame_support::traits::Contains<(Location, xcm::latest::Xcm<<Self as Config>::RuntimeCall>)>;
			type XcmExecutor;
			type XcmTeleportFilter: frame_support::traits::Contains<(Location, Vec<xcm::latest::Asset>)>;
			type XcmReserveTransferFilter: frame_support::traits::Contains<(Location, Vec<xcm::latest::Asset>)>;
			type Weigher;
			type UniversalLocation: Get<xcm::latest::InteriorLocation>;
			type RuntimeOrigin;
			type RuntimeCall;
			type AdvertisedXcmVersion;
			type Currency;
			type CurrencyMatcher;
			type TrustedLockers;
			type SovereignAccountOf;
			type MaxLockers;
			type WeightInfo;
			type AdminOrigin: EnsureOrigin<<Self as frame_system::Config>::RuntimeOrigin>;
			type MaxRemoteLockConsumers;
			type RemoteLockConsumerIdentifier;
		}
		#[pallet::pallet]
		pub struct Pallet<T>(_);
		#[pallet::event]
		pub enum Event<T: Config> {
			Nothing,
		}
		#[pallet::origin]
		#[derive(PartialEq, Eq, Clone, Encode, Decode, RuntimeDebug, TypeInfo)]
		pub enum Origin {
			Xcm(Location),
			Response(Location),
		}
		impl From<Location> for Origin {
			fn from(l: Location) -> Origin {
				Origin::Xcm(l)
			}
		}
		impl MaxEncodedLen for Origin {
			fn max_encoded_len() -> usize {
				600
			}
		}
		#[pallet::call]
		impl<T: Config> Pallet<T> {
			#[pallet::call_index(0)]
			pub fn send(origin: OriginFor<T>, dest: Box<VersionedLocation>, message: Box<VersionedXcm<()>>) -> DispatchResult {
				T::SendXcmOrigin::ensure_origin(origin)?;
				let _ = (dest, message);
				panic!("SHIM-UNSUPPORTED: pallet_xcm::send")
			}
			#[pallet::call_index(1)]
			pub fn teleport_assets(_o: OriginFor<T>, _dest: Box<VersionedLocation>, _beneficiary: Box<VersionedLocation>, _assets: Box<VersionedAssets>, _fee: u32) -> DispatchResult {
				panic!("SHIM-UNSUPPORTED: pallet_xcm::teleport_assets")
			}
			#[pallet::call_index(2)]
			pub fn reserve_transfer_assets(
				_o: OriginFor<T>,
				_dest: Box<VersionedLocation>,
				_beneficiary: Box<VersionedLocation>,
				_assets: Box<VersionedAssets>,
				_fee_asset_item: u32,
			) -> DispatchResult {
				panic!("SHIM-UNSUPPORTED: pallet_xcm::reserve_transfer_assets")
			}
			#[pallet::call_index(3)]
			pub fn execute(_o: OriginFor<T>, _message: Box<VersionedXcm<()>>, _max_weight: Weight) -> DispatchResult {
				panic!("SHIM-UNSUPPORTED: pallet_xcm::execute")
			}
			#[pallet::call_index(8)]
			pub fn limited_reserve_transfer_assets(
				_o: OriginFor<T>,
				_dest: Box<VersionedLocation>,
				_beneficiary: Box<VersionedLocation>,
				_assets: Box<VersionedAssets>,
				_fee_asset_item: u32,
				_weight_limit: xcm::latest::WeightLimit,
			) -> DispatchResult {
				panic!("SHIM-UNSUPPORTED: pallet_xcm::limited_reserve_transfer_assets")
			}
			#[pallet::call_index(9)]
			pub fn limited_teleport_assets(
				_o: OriginFor<T>,
				_dest: Box<VersionedLocation>,
				_beneficiary: Box<VersionedLocation>,
				_assets: Box<VersionedAssets>,
				_fee_asset_item: u32,
				_weight_limit: xcm::latest::WeightLimit,
			) -> DispatchResult {
				panic!("SHIM-UNSUPPORTED: pallet_xcm::limited_teleport_assets")
			}
			#[pallet::call_index(11)]
			pub fn transfer_assets(
				_o: OriginFor<T>,
				_dest: Box<VersionedLocation>,
				_beneficiary: Box<VersionedLocation>,
				_assets: Box<VersionedAssets>,
				_fee_asset_item: u32,
				_weight_limit: xcm::latest::WeightLimit,
			) -> DispatchResult {
				panic!("SHIM-UNSUPPORTED: pallet_xcm::transfer_assets")
			}
		}
		impl<T: Config> Pallet<T> {
			pub fn check_account() -> T::AccountId {
				frame_support::PalletId(*b"py/xcmch").into_account_truncating()
			}
		}
	}
}
