//! Types and constants of the relay chain and of parachains, and odds and ends.

pub mod cumulus_primitives_core {
	use parity_scale_codec::{CompactAs, Decode, Encode, MaxEncodedLen};
	use scale_info::TypeInfo;
	use sp_runtime::traits::AccountIdConversion;
	pub mod relay_chain {
		pub const MAX_POV_SIZE: u32 = 5 * 1024 * 1024;
		pub type BlockNumber = u32;
		pub type AccountId = sp_runtime::AccountId32;
	}
	#[derive(Clone, Copy, Debug, Default, PartialEq, Eq, PartialOrd, Ord, Hash, Encode, Decode, MaxEncodedLen, TypeInfo, CompactAs, serde::Serialize, serde::Deserialize)]
	pub struct ParaId(u32);
	impl ParaId {
		pub const fn new(id: u32) -> Self {
			Self(id)
		}
	}
	impl From<u32> for ParaId {
		fn from(x: u32) -> Self {
			ParaId(x)
		}
	}
	impl From<ParaId> for u32 {
		fn from(x: ParaId) -> u32 {
			x.0
		}
	}
	#[derive(Clone, Copy, Debug, Default, PartialEq, Eq, PartialOrd, Ord, Encode, Decode)]
	pub struct Sibling(pub ParaId);
	impl From<u32> for Sibling {
		fn from(x: u32) -> Self {
			Sibling(ParaId(x))
		}
	}
	macro_rules! accounts {
		($t:ty, $id:literal) => {
			impl<A: Encode + Decode> AccountIdConversion<A> for $t {
				fn into_sub_account_truncating<S: Encode>(&self, sub: S) -> A {
					(*$id, self, sub).using_encoded(|b| A::decode(&mut sp_runtime::traits::TrailingZeroInput::new(b))).expect("All byte sequences are valid accounts; qed")
				}
				fn try_into_sub_account<S: Encode>(&self, sub: S) -> Option<A> {
					Some(self.into_sub_account_truncating(sub))
				}
				fn try_from_sub_account<S: Decode>(_: &A) -> Option<(Self, S)> {
					panic!("SHIM-UNSUPPORTED: the chain an account is of")
				}
			}
		};
	}
	accounts!(ParaId, b"para");
	accounts!(Sibling, b"sibl");
	#[derive(Clone, Debug, PartialEq, Eq, Encode, Decode, MaxEncodedLen, TypeInfo)]
	pub enum AggregateMessageOrigin {
		Here,
		Parent,
		Sibling(ParaId),
	}
	pub use xcm::latest::AssetId;
	pub trait XcmpMessageSource {}
	pub struct DispatchError;
}
pub mod polkadot_parachain_primitives {
	pub mod primitives {
		pub use super::super::cumulus_primitives_core::{ParaId as Id, Sibling};
	}
}
pub mod polkadot_core_primitives {
	pub type AccountId = sp_runtime::AccountId32;
	pub type Balance = u128;
	pub type BlockNumber = u32;
	pub type Moment = u64;
	pub type Hash = sp_core::H256;
	pub type Nonce = u32;
	pub type Signature = sp_runtime::MultiSignature;
	pub mod v2 {
		pub use super::*;
	}
}
pub mod polkadot_primitives {
	pub use super::cumulus_primitives_core::ParaId as Id;
	pub use super::polkadot_core_primitives::*;
}
pub mod polkadot_runtime_common {
	use frame_support::parameter_types;
	use sp_runtime::Perbill;
	use sp_weights::constants::WEIGHT_REF_TIME_PER_SECOND;
	use sp_weights::Weight;
	pub use crate::prod_or_fast;
	parameter_types! {
		pub const BlockHashCount: u32 = 4096;
	}
	pub const MAXIMUM_BLOCK_WEIGHT: Weight = Weight::from_parts(WEIGHT_REF_TIME_PER_SECOND.saturating_mul(2), super::cumulus_primitives_core::relay_chain::MAX_POV_SIZE as u64);
	pub const NORMAL_DISPATCH_RATIO: Perbill = Perbill::from_percent(75);
	pub const AVERAGE_ON_INITIALIZE_RATIO: Perbill = Perbill::from_percent(1);
	pub struct SlowAdjustingFeeUpdate<R>(std::marker::PhantomData<R>);
	pub mod xcm_sender {
		pub struct NoPriceForMessageDelivery<Id>(std::marker::PhantomData<Id>);
		pub struct ExponentialPrice<A, B, M, F>(std::marker::PhantomData<(A, B, M, F)>);
	}
}
/// Periods of the real chain, not those for trying things out.
#[macro_export]
macro_rules! prod_or_fast {
	($prod:expr, $test:expr) => {
		$prod
	};
	($prod:expr, $test:expr, $env:expr) => {
		$prod
	};
}
pub mod parachains_common {
	pub use super::polkadot_core_primitives::{AccountId, Balance, BlockNumber, Hash, Nonce, Signature};
	use sp_runtime::Perbill;
	pub type AssetIdForTrustBackedAssets = u32;
	pub type Header = sp_runtime::generic::Header<BlockNumber, sp_runtime::traits::BlakeTwo256>;
	#[derive(Clone, Debug, PartialEq, Eq, PartialOrd, Ord, parity_scale_codec::Encode, parity_scale_codec::Decode, parity_scale_codec::MaxEncodedLen, scale_info::TypeInfo, serde::Serialize, serde::Deserialize)]
	pub struct AuraId(pub [u8; 32]);
	sp_core::crypto::stand_in_pair!(AuraId, AuraPair);
	pub mod opaque {
		pub type Block = sp_runtime::generic::Block<super::Header, Vec<u8>>;
		pub type BlockId = sp_runtime::generic::BlockId<Block>;
	}
	pub const MILLISECS_PER_BLOCK: u64 = 12000;
	pub const SLOT_DURATION: u64 = MILLISECS_PER_BLOCK;
	pub const MINUTES: BlockNumber = 60_000 / (MILLISECS_PER_BLOCK as BlockNumber);
	pub const HOURS: BlockNumber = MINUTES * 60;
	pub const DAYS: BlockNumber = HOURS * 24;
	pub const AVERAGE_ON_INITIALIZE_RATIO: Perbill = Perbill::from_percent(5);
	pub const NORMAL_DISPATCH_RATIO: Perbill = Perbill::from_percent(75);
	pub mod message_queue {
		pub struct NarrowOriginToSibling<I>(std::marker::PhantomData<I>);
		pub struct ParaIdToSibling;
	}
	pub mod impls {
		use frame_support::traits::{fungibles, Contains};
		/// Assets there are some of.
		pub struct NonZeroIssuance<A, F>(std::marker::PhantomData<(A, F)>);
		impl<A, F: fungibles::Inspect<A>> Contains<F::AssetId> for NonZeroIssuance<A, F>
		where
			F::Balance: Default + PartialEq,
		{
			fn contains(id: &F::AssetId) -> bool {
				F::total_issuance(id.clone()) != F::Balance::default()
			}
		}
	}
	pub mod xcm_config {
		use crate::messages::cumulus_primitives_utility::ChargeWeightInFungibles;
		use frame_support::traits::tokens::{fungibles, ConversionToAssetBalance};
		use sp_weights::{Weight, WeightToFee};
		use xcm::latest::prelude::XcmError;
		/// The fee in the native token, in an asset at the rate of the minimum balances.
		pub struct AssetFeeAsExistentialDepositMultiplier<R, W, B, I = ()>(std::marker::PhantomData<(R, W, B, I)>);
		impl<R, W, B, I, F> ChargeWeightInFungibles<R::AccountId, F> for AssetFeeAsExistentialDepositMultiplier<R, W, B, I>
		where
			R: frame_system::Config,
			W: WeightToFee<Balance = u128>,
			F: fungibles::Inspect<R::AccountId, Balance = u128>,
			B: ConversionToAssetBalance<u128, F::AssetId, u128>,
		{
			fn charge_weight_in_fungibles(asset_id: F::AssetId, weight: Weight) -> Result<u128, XcmError> {
				B::to_asset_balance(W::weight_to_fee(&weight), asset_id).map_err(|_| XcmError::TooExpensive)
			}
		}
	}
}
pub mod cumulus_primitives_aura {
	pub use super::sp_consensus_aura::Slot;
}
pub mod cumulus_primitives_timestamp {}
pub mod cumulus_pallet_session_benchmarking {}
pub mod sp_consensus_aura {
	#[derive(Clone, Copy, Debug, PartialEq, Eq)]
	pub struct SlotDuration(u64);
	impl SlotDuration {
		pub const fn from_millis(m: u64) -> Self {
			Self(m)
		}
		pub const fn as_millis(&self) -> u64 {
			self.0
		}
	}
	#[derive(Clone, Copy, Debug, PartialEq, Eq)]
	pub struct Slot(pub u64);
}
pub mod sp_version {
	pub use frame_support_procedural::runtime_version;
	use std::borrow::Cow;
	pub use frame_system::version::*;
	pub const fn no_apis() -> ApisVec {
		Cow::Borrowed(&[])
	}
	#[derive(Clone, Debug)]
	pub struct NativeVersion {
		pub runtime_version: RuntimeVersion,
		pub can_author_with: std::collections::HashSet<u32>,
	}
}
pub mod sp_api {
	pub use frame_support_procedural::impl_runtime_apis;
}
pub mod sp_block_builder {}
pub mod sp_genesis_builder {}
pub mod sp_inherents {
	pub struct InherentData;
	pub struct CheckInherentsResult;
}
pub mod sp_offchain {}
pub mod sp_session {}
pub mod sp_transaction_pool {}
pub mod frame_system_rpc_runtime_api {}
pub mod pallet_transaction_payment_rpc_runtime_api {
	pub use crate::pallet_transaction_payment::{FeeDetails, RuntimeDispatchInfo};
}
pub mod frame_executive {
	use frame_support::dispatch::GetDispatchInfo;
	use parity_scale_codec::Encode;
	use sp_runtime::generic::UncheckedExtrinsic;
	use sp_runtime::traits::{Block, DispatchInfoOf, Dispatchable, SignedExtension, StaticLookup};
	use sp_runtime::transaction_validity::*;
	pub struct Executive<R, B, C, U, P, M = ()>(std::marker::PhantomData<(R, B, C, U, P, M)>);
	impl<R: frame_system::Config, B, X, U, P, M, A, C, S, E> Executive<R, B, X, U, P, M>
	where
		B: Block<Extrinsic = UncheckedExtrinsic<A, C, S, E>>,
		R::Lookup: StaticLookup<Source = A, Target = R::AccountId>,
		C: Encode + GetDispatchInfo + Dispatchable<Info = frame_support::dispatch::DispatchInfo>,
		E: SignedExtension<AccountId = R::AccountId, Call = C>,
	{
		/// What the extensions say of a transaction that is signed well.
		pub fn validate_transaction(_: TransactionSource, tx: B::Extrinsic, _: B::Hash) -> TransactionValidity {
			let Some((who, _, extra)) = tx.signature else { return InvalidTransaction::Call.into() };
			let who = R::Lookup::lookup(who).map_err(|_| TransactionValidityError::Invalid(InvalidTransaction::BadSigner))?;
			extra.additional_signed()?;
			let info: DispatchInfoOf<C> = tx.function.get_dispatch_info();
			extra.validate(&who, &tx.function, &info, tx.function.encoded_size())
		}
	}
}
pub mod assets_common {
	pub mod runtime_api {
		#[derive(Clone, Copy, Debug, PartialEq, Eq)]
		pub enum FungiblesAccessError {
			AssetIdConversionFailed,
			AmountToBalanceConversionFailed,
		}
	}
	pub mod fungible_conversion {
		use super::runtime_api::FungiblesAccessError;
		use crate::messages::xcm_builder::{ConvertedConcreteId, MatchedConvertedConcreteId};
		use frame_support::traits::{Contains, Get};
		use sp_runtime::traits::MaybeEquivalence;
		use xcm::latest::prelude::*;
		pub trait AssetsConverted<A, B, CA, CB> {
			fn as_asset(a: &A, b: &B) -> Result<Asset, FungiblesAccessError>;
		}
		impl<A, B, M: Contains<Location>, CA: MaybeEquivalence<Location, A>, CB: MaybeEquivalence<u128, B>> AssetsConverted<A, B, CA, CB>
			for MatchedConvertedConcreteId<A, B, M, CA, CB>
		{
			fn as_asset(a: &A, b: &B) -> Result<Asset, FungiblesAccessError> {
				let location = CA::convert_back(a).ok_or(FungiblesAccessError::AssetIdConversionFailed)?;
				let amount = CB::convert_back(b).ok_or(FungiblesAccessError::AmountToBalanceConversionFailed)?;
				Ok(Asset { id: AssetId(location), fun: Fungible(amount) })
			}
		}
		impl<A, B, CA: MaybeEquivalence<Location, A>, CB: MaybeEquivalence<u128, B>> AssetsConverted<A, B, CA, CB> for ConvertedConcreteId<A, B, CA, CB> {
			fn as_asset(a: &A, b: &B) -> Result<Asset, FungiblesAccessError> {
				let location = CA::convert_back(a).ok_or(FungiblesAccessError::AssetIdConversionFailed)?;
				let amount = CB::convert_back(b).ok_or(FungiblesAccessError::AmountToBalanceConversionFailed)?;
				Ok(Asset { id: AssetId(location), fun: Fungible(amount) })
			}
		}
		pub fn convert<'a, A: 'a, B: 'a, CA, CB, C: AssetsConverted<A, B, CA, CB>>(
			items: impl Iterator<Item = &'a (A, B)>,
		) -> Result<Vec<Asset>, FungiblesAccessError> {
			items.map(|(a, b)| C::as_asset(a, b)).collect()
		}
		pub fn convert_balance<L: Get<Location>, B: TryInto<u128>>(b: B) -> Result<Asset, FungiblesAccessError> {
			let amount = b.try_into().map_err(|_| FungiblesAccessError::AmountToBalanceConversionFailed)?;
			Ok(Asset { id: AssetId(L::get()), fun: Fungible(amount) })
		}
	}
}
pub mod fc_traits_authn {
	pub use crate::composite_authenticator;
	pub type Challenge = [u8; 32];
	pub type HashedUserId = [u8; 32];
	pub type DeviceId = [u8; 32];
	pub type AuthorityId = [u8; 32];
	/// What somebody who logs in has to answer.
	pub trait Challenger {
		type Context: parity_scale_codec::Codec + PartialEq + Clone + std::fmt::Debug;
		fn generate(cx: &Self::Context) -> Challenge;
		fn check_challenge(cx: &Self::Context, challenge: &[u8]) -> Option<()> {
			Self::generate(cx).eq(challenge).then_some(())
		}
	}
	/// Which challenges an authenticator puts; for checks only.
	pub trait HasChallenger {
		type Challenger: Challenger;
	}
	pub mod util {
		pub struct AuthorityFromPalletId<Id>(std::marker::PhantomData<Id>);
		pub mod dummy {
			pub struct Dummy<A>(std::marker::PhantomData<A>);
		}
	}
}
/// Several authenticators as one.
#[macro_export]
macro_rules! composite_authenticator {
	($(#[$m:meta])* $v:vis $name:ident<$authority:ty> { $first:ident $(, $item:ident)* $(,)? }) => {
		#[allow(unused_imports)]
		use fc_traits_authn::HashedUserId;
		$v struct PassAuthenticator;
		const _: () = {
			#[allow(dead_code)]
			type Parts = ($authority, $first, $($item,)*);
			impl fc_traits_authn::HasChallenger for PassAuthenticator {
				type Challenger = <$first as fc_traits_authn::HasChallenger>::Challenger;
			}
		};
	};
}
pub mod pass_webauthn {
	pub struct Authenticator<Ch, A>(std::marker::PhantomData<(Ch, A)>);
	impl<Ch: super::fc_traits_authn::Challenger, A> super::fc_traits_authn::HasChallenger for Authenticator<Ch, A> {
		type Challenger = Ch;
	}
}
pub mod fc_traits_gas_tank {
	use frame_support::weights::Weight;
	/// Whoever has gas of their own pays with it.
	pub trait GasBurner {
		type AccountId;
		type Gas;
		fn check_available_gas(who: &Self::AccountId, estimated: &Self::Gas) -> Option<Self::Gas>;
		fn burn_gas(who: &Self::AccountId, expected_remaining: &Self::Gas, used: &Self::Gas) -> Self::Gas;
	}
	/// The gas of whoever has a membership with a tank.
	pub struct NonFungibleGasBurner<T, F, I>(std::marker::PhantomData<(T, F, I)>);
	pub fn tank<A: parity_scale_codec::Encode>(who: &A) -> Option<Weight> {
		vmock::kv::get(&vmock::kv::key("tank", who))
	}
	pub fn set_tank<A: parity_scale_codec::Encode>(who: &A, w: &Weight) {
		vmock::kv::put(&vmock::kv::key("tank", who), w)
	}
	impl<T: frame_system::Config, F, I> GasBurner for NonFungibleGasBurner<T, F, I> {
		type AccountId = T::AccountId;
		type Gas = Weight;
		fn check_available_gas(who: &T::AccountId, estimated: &Weight) -> Option<Weight> {
			tank(who)?.checked_sub(estimated)
		}
		fn burn_gas(who: &T::AccountId, _: &Weight, used: &Weight) -> Weight {
			let left = tank(who).unwrap_or_default().saturating_sub(*used);
			set_tank(who, &left);
			left
		}
	}
	pub struct NonFungibleGasTank<T, F, I>(std::marker::PhantomData<(T, F, I)>);
}
