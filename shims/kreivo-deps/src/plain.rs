//! Pallets whose calls only need to exist.

/// A wrapper of something sent along is sent as what it wraps.
macro_rules! wraps {
	($n:ident) => {
		impl<T, S: Clone> Clone for $n<T, S> {
			fn clone(&self) -> Self { Self(self.0.clone(), PhantomData) }
		}
		impl<T, S: Encode> Encode for $n<T, S> {
			fn encode_to<O: parity_scale_codec::Output + ?Sized>(&self, o: &mut O) { self.0.encode_to(o) }
		}
		impl<T, S: Decode> Decode for $n<T, S> {
			fn decode<I: parity_scale_codec::Input>(i: &mut I) -> Result<Self, parity_scale_codec::Error> { S::decode(i).map(|s| Self(s, PhantomData)) }
		}
	};
}
pub(crate) use wraps;
/// A wrapper that has what it wraps do everything, for the account it stands for.
macro_rules! passes_on {
	($t:ident, $s:ident, |$who:ident| $as:expr) => {
		type AccountId = $t::AccountId;
		type Call = <$t as frame_system::Config>::RuntimeCall;
		type AdditionalSigned = $s::AdditionalSigned;
		type Pre = $s::Pre;
		fn additional_signed(&self) -> Result<$s::AdditionalSigned, sp_runtime::transaction_validity::TransactionValidityError> { self.0.additional_signed() }
		fn validate(&self, $who: &$t::AccountId, call: &Self::Call, info: &sp_runtime::traits::DispatchInfoOf<Self::Call>, len: usize) -> sp_runtime::transaction_validity::TransactionValidity {
			self.0.validate(&$as, call, info, len)
		}
		fn pre_dispatch(self, $who: &$t::AccountId, call: &Self::Call, info: &sp_runtime::traits::DispatchInfoOf<Self::Call>, len: usize) -> Result<$s::Pre, sp_runtime::transaction_validity::TransactionValidityError> {
			self.0.pre_dispatch(&$as, call, info, len)
		}
		fn post_dispatch(pre: Option<$s::Pre>, info: &sp_runtime::traits::DispatchInfoOf<Self::Call>, post: &sp_runtime::traits::PostDispatchInfoOf<Self::Call>, len: usize, result: &sp_runtime::DispatchResult) -> Result<(), sp_runtime::transaction_validity::TransactionValidityError> {
			$s::post_dispatch(pre, info, post, len, result)
		}
	};
}
pub(crate) use passes_on;

/// A pallet with unbounded configuration types and calls that cannot be run here.
#[macro_export]
macro_rules! plain_pallet {
	($name:ident; types { $($ty:ident),* $(,)? } $(consts { $($cn:ident: $ct:ty),* })? calls { $($idx:literal $call:ident ( $($arg:ident : $at:ty),* )),* $(,)? } $($rest:item)*) => {
		pub mod $name {
			pub use pallet::*;
			pub mod weights {
				pub struct SubstrateWeight<T>(std::marker::PhantomData<T>);
			}
			#[frame_support::pallet]
			pub mod pallet {
				#[allow(unused_imports)]
				use frame_support::pallet_prelude::*;
				use frame_system::pallet_prelude::*;
				#[pallet::config]
				pub trait Config: frame_system::Config {
					$(type $ty;)*
					$($(const $cn: $ct;)*)?
				}
				#[pallet::pallet]
				pub struct Pallet<T>(_);
				#[pallet::event]
				pub enum Event<T: Config> { Nothing }
				#[pallet::call]
				impl<T: Config> Pallet<T> {
					$(
						#[pallet::call_index($idx)]
						pub fn $call(_origin: OriginFor<T>, $($arg: $at),*) -> DispatchResult {
							$(let _ = $arg;)*
							panic!(concat!("SHIM-UNSUPPORTED: ", stringify!($name), "::", stringify!($call)))
						}
					)*
				}
				$($rest)*
			}
		}
	};
	($name:ident<I>; types { $($ty:ident),* $(,)? } calls { $($idx:literal $call:ident ( $($arg:ident : $at:ty),* )),* $(,)? } $($rest:item)*) => {
		pub mod $name {
			pub use frame_support::instances::*;
			pub use pallet::*;
			pub mod weights {
				pub struct SubstrateWeight<T>(std::marker::PhantomData<T>);
			}
			#[frame_support::pallet]
			pub mod pallet {
				#[allow(unused_imports)]
				use frame_support::pallet_prelude::*;
				use frame_system::pallet_prelude::*;
				#[pallet::config]
				pub trait Config<I: 'static = ()>: frame_system::Config {
					$(type $ty;)*
				}
				#[pallet::pallet]
				pub struct Pallet<T, I = ()>(_);
				#[pallet::event]
				pub enum Event<T: Config<I>, I: 'static = ()> { Nothing }
				#[pallet::call]
				impl<T: Config<I>, I: 'static> Pallet<T, I> {
					$(
						#[pallet::call_index($idx)]
						pub fn $call(_origin: OriginFor<T>, $($arg: $at),*) -> DispatchResult {
							$(let _ = $arg;)*
							panic!(concat!("SHIM-UNSUPPORTED: ", stringify!($name), "::", stringify!($call)))
						}
					)*
				}
				$($rest)*
			}
		}
	};
}

plain_pallet! { cumulus_pallet_parachain_system;
	types { WeightInfo, RuntimeEvent, OnSystemEvent, SelfParaId, OutboundXcmpMessageSource, DmpQueue, ReservedDmpWeight, XcmpMessageHandler,
		ReservedXcmpWeight, CheckAssociatedRelayNumber, ConsensusHook }
	calls { 0 set_validation_data(), 1 sudo_send_upward_message(), 2 authorize_upgrade(), 3 enact_authorized_upgrade() }
	pub struct ParachainSetCode<T>(PhantomData<T>);
	pub struct RelayNumberMonotonicallyIncreases;
	pub struct RelayNumberStrictlyIncreases;
	pub struct RelaychainDataProvider<T>(PhantomData<T>);
	pub use crate::register_validate_block;
}
#[macro_export]
macro_rules! register_validate_block {
	($($t:tt)*) => {};
}
plain_pallet! { pallet_timestamp;
	types { Moment, OnTimestampSet, MinimumPeriod, WeightInfo }
	calls { 0 set() }
	impl<T: Config> frame_support::traits::Time for Pallet<T> where T::Moment: Default {
		type Moment = T::Moment;
		fn now() -> T::Moment { Default::default() }
	}
}
plain_pallet! { parachain_info;
	types {}
	calls { 0 nothing() }
	impl<T: Config> Pallet<T> {
		pub fn parachain_id() -> crate::cumulus_primitives_core::ParaId {
			vmock::kv::get::<u32>(&vmock::kv::key("para id", ())).unwrap_or(2281).into()
		}
	}
	impl<T: Config> frame_support::traits::Get<crate::cumulus_primitives_core::ParaId> for Pallet<T> {
		fn get() -> crate::cumulus_primitives_core::ParaId { Self::parachain_id() }
	}
}
plain_pallet! { pallet_transaction_payment;
	types { RuntimeEvent, OnChargeTransaction, WeightToFee, LengthToFee, FeeMultiplierUpdate, OperationalFeeMultiplier }
	calls { 0 nothing() }
	use frame_support::traits::tokens::{fungible, Fortitude::Polite, Precision::Exact, Preservation::Preserve};
	use frame_support::traits::OnUnbalanced;
	use sp_runtime::traits::{DispatchInfoOf, PostDispatchInfoOf};
	use sp_runtime::transaction_validity::{InvalidTransaction, TransactionValidityError};
	type CallOf<T> = <T as frame_system::Config>::RuntimeCall;
	/// How fees are taken from the sender and where they go.
	pub trait OnChargeTransaction<T: Config> {
		type Balance;
		type LiquidityInfo: Default;
		fn withdraw_fee(who: &T::AccountId, call: &CallOf<T>, info: &DispatchInfoOf<CallOf<T>>, fee: Self::Balance, tip: Self::Balance) -> Result<Self::LiquidityInfo, TransactionValidityError>;
		fn correct_and_deposit_fee(who: &T::AccountId, info: &DispatchInfoOf<CallOf<T>>, post: &PostDispatchInfoOf<CallOf<T>>, corrected: Self::Balance, tip: Self::Balance, paid: Self::LiquidityInfo) -> Result<(), TransactionValidityError>;
	}
	pub struct FungibleAdapter<F, OU>(PhantomData<(F, OU)>);
	impl<T: Config, F: fungible::Balanced<T::AccountId, Balance = u128>, OU: OnUnbalanced<fungible::Credit<T::AccountId, F>>> OnChargeTransaction<T> for FungibleAdapter<F, OU> {
		type Balance = u128;
		type LiquidityInfo = Option<fungible::Credit<T::AccountId, F>>;
		fn withdraw_fee(who: &T::AccountId, _: &CallOf<T>, _: &DispatchInfoOf<CallOf<T>>, fee: u128, _tip: u128) -> Result<Self::LiquidityInfo, TransactionValidityError> {
			if fee == 0 {
				return Ok(None);
			}
			F::withdraw(who, fee, Exact, Preserve, Polite).map(Some).map_err(|_| InvalidTransaction::Payment.into())
		}
		fn correct_and_deposit_fee(who: &T::AccountId, _: &DispatchInfoOf<CallOf<T>>, _: &PostDispatchInfoOf<CallOf<T>>, corrected: u128, tip: u128, paid: Self::LiquidityInfo) -> Result<(), TransactionValidityError> {
			if let Some(paid) = paid {
				let (fee, refund) = paid.split(corrected);
				let _ = F::resolve(who, refund);
				let (tip, fee) = fee.split(tip);
				OU::on_unbalanceds(Some(fee).into_iter().chain(Some(tip)));
			}
			Ok(())
		}
	}
	pub struct CurrencyAdapter<F, OU>(PhantomData<(F, OU)>);
	pub struct TargetedFeeAdjustment<T, S, V, M, X>(PhantomData<(T, S, V, M, X)>);
	pub struct ConstFeeMultiplier<M>(PhantomData<M>);
	#[derive(Clone, Debug, PartialEq, Eq)]
	pub struct RuntimeDispatchInfo<B> {
		pub weight: frame_support::weights::Weight,
		pub class: frame_support::dispatch::DispatchClass,
		pub partial_fee: B,
	}
	#[derive(Clone, Debug, PartialEq, Eq)]
	pub struct InclusionFee<B> {
		pub base_fee: B,
		pub len_fee: B,
		pub adjusted_weight_fee: B,
	}
	#[derive(Clone, Debug, PartialEq, Eq)]
	pub struct FeeDetails<B> {
		pub inclusion_fee: Option<InclusionFee<B>>,
		pub tip: B,
	}
	/// What a transaction costs: what any costs, what its length and its weight cost, and the tip.
	pub fn fee_of<T: Config + frame_system::ConfigExtra>(len: u32, weight: frame_support::weights::Weight, class: frame_support::dispatch::DispatchClass, pays: bool, tip: u128) -> u128
	where
		T::BlockWeights: Get<frame_system::limits::BlockWeights>,
		T::WeightToFee: frame_support::weights::WeightToFee<Balance = u128>,
		T::LengthToFee: frame_support::weights::WeightToFee<Balance = u128>,
	{
		if !pays {
			return tip;
		}
		let limits = T::BlockWeights::get();
		let fee = |w: frame_support::weights::Weight| <T::WeightToFee as frame_support::weights::WeightToFee>::weight_to_fee(&w.min(limits.max_block));
		let length = Pallet::<T>::length_to_fee(len);
		fee(limits.get(class).base_extrinsic).saturating_add(length).saturating_add(fee(weight)).saturating_add(tip)
	}
	/// What of a transaction decides what it costs: who signed it, if anybody, and its call.
	pub trait Quoted {
		type Call;
		fn quoted(&self) -> (bool, &Self::Call);
	}
	impl<A, C, S, E> Quoted for sp_runtime::generic::UncheckedExtrinsic<A, C, S, E> {
		type Call = C;
		fn quoted(&self) -> (bool, &C) { (self.signature.is_some(), &self.function) }
	}
	use frame_support::dispatch::{GetDispatchInfo, Pays};
	impl<T: Config + frame_system::ConfigExtra> Pallet<T>
	where
		T::BlockWeights: Get<frame_system::limits::BlockWeights>,
		T::WeightToFee: frame_support::weights::WeightToFee<Balance = u128>,
		T::LengthToFee: frame_support::weights::WeightToFee<Balance = u128>,
	{
		pub fn query_call_info<C: GetDispatchInfo>(call: C, len: u32) -> RuntimeDispatchInfo<u128> {
			let i = call.get_dispatch_info();
			RuntimeDispatchInfo { weight: i.weight, class: i.class, partial_fee: fee_of::<T>(len, i.weight, i.class, i.pays_fee == Pays::Yes, 0) }
		}
		pub fn query_call_fee_details<C: GetDispatchInfo>(call: C, len: u32) -> FeeDetails<u128> {
			let i = call.get_dispatch_info();
			let fee = |len, weight| fee_of::<T>(len, weight, i.class, true, 0);
			let base_fee = fee(0, frame_support::weights::Weight::zero());
			let inclusion_fee = (i.pays_fee == Pays::Yes).then(|| InclusionFee { base_fee, len_fee: Self::length_to_fee(len), adjusted_weight_fee: fee(0, i.weight) - base_fee });
			FeeDetails { inclusion_fee, tip: 0 }
		}
		/// What nobody signed costs nothing.
		pub fn query_info<X: Quoted>(x: X, len: u32) -> RuntimeDispatchInfo<u128>
		where
			X::Call: GetDispatchInfo + Clone,
		{
			let (signed, call) = x.quoted();
			let i = Self::query_call_info(call.clone(), len);
			RuntimeDispatchInfo { partial_fee: if signed { i.partial_fee } else { 0 }, ..i }
		}
		pub fn query_fee_details<X: Quoted>(x: X, len: u32) -> FeeDetails<u128>
		where
			X::Call: GetDispatchInfo + Clone,
		{
			let (signed, call) = x.quoted();
			if signed { Self::query_call_fee_details(call.clone(), len) } else { FeeDetails { inclusion_fee: None, tip: 0 } }
		}
	}
	impl<T: Config> Pallet<T> {
		pub fn weight_to_fee(weight: frame_support::weights::Weight) -> <T::WeightToFee as frame_support::weights::WeightToFee>::Balance
		where T::WeightToFee: frame_support::weights::WeightToFee {
			<T::WeightToFee as frame_support::weights::WeightToFee>::weight_to_fee(&weight)
		}
		pub fn length_to_fee(length: u32) -> <T::LengthToFee as frame_support::weights::WeightToFee>::Balance
		where T::LengthToFee: frame_support::weights::WeightToFee {
			<T::LengthToFee as frame_support::weights::WeightToFee>::weight_to_fee(&frame_support::weights::Weight::from_parts(length as u64, 0))
		}
	}
	/// The fee of a weight.
	impl<T: Config, B> sp_runtime::traits::Convert<frame_support::weights::Weight, B> for Pallet<T>
	where T::WeightToFee: frame_support::weights::WeightToFee<Balance = B> {
		fn convert(w: frame_support::weights::Weight) -> B { <T::WeightToFee as frame_support::weights::WeightToFee>::weight_to_fee(&w) }
	}
}
plain_pallet! { pallet_skip_feeless_payment;
	types { RuntimeEvent }
	calls { 0 nothing() }
	/// None of the calls offered here is free of fees, so that nothing is skipped.
	pub struct SkipCheckIfFeeless<T, S>(pub S, PhantomData<T>);
	impl<T, S> From<S> for SkipCheckIfFeeless<T, S> {
		fn from(s: S) -> Self { Self(s, PhantomData) }
	}
	crate::plain::wraps! { SkipCheckIfFeeless }
	impl<T: Config, S: sp_runtime::traits::SignedExtension<AccountId = T::AccountId, Call = <T as frame_system::Config>::RuntimeCall>> sp_runtime::traits::SignedExtension for SkipCheckIfFeeless<T, S> {
		const IDENTIFIER: &'static str = S::IDENTIFIER;
		crate::plain::passes_on! { T, S, |who| who.clone() }
	}
}
plain_pallet! { pallet_gas_transaction_payment;
	types { RuntimeEvent, GasBurner }
	calls { 0 nothing() }
	use crate::fc_traits_gas_tank::GasBurner as _;
	use frame_support::dispatch::{DispatchInfo, PostDispatchInfo};
	use frame_support::weights::Weight;
	use sp_runtime::traits::{Dispatchable, SignedExtension};
	use sp_runtime::transaction_validity::{TransactionValidity, TransactionValidityError};
	/// Gas pays for the transaction if there is enough of it, otherwise the other way of paying applies.
	pub struct ChargeTransactionPayment<T, S>(pub S, PhantomData<T>);
	impl<T, S> ChargeTransactionPayment<T, S> {
		pub fn new(s: S) -> Self { Self(s, PhantomData) }
	}
	impl<T, S> From<S> for ChargeTransactionPayment<T, S> {
		fn from(s: S) -> Self { Self(s, PhantomData) }
	}
	crate::plain::wraps! { ChargeTransactionPayment }
	pub enum Paid<A, P> { Gas(A, Weight), Otherwise(P) }
	type CallOf<T> = <T as frame_system::Config>::RuntimeCall;
	impl<T: Config, S> SignedExtension for ChargeTransactionPayment<T, S>
	where
		S: SignedExtension<AccountId = T::AccountId, Call = CallOf<T>>,
		T::GasBurner: crate::fc_traits_gas_tank::GasBurner<AccountId = T::AccountId, Gas = Weight>,
		CallOf<T>: Dispatchable<Info = DispatchInfo, PostInfo = PostDispatchInfo>,
	{
		const IDENTIFIER: &'static str = S::IDENTIFIER;
		type AccountId = T::AccountId;
		type Call = CallOf<T>;
		type AdditionalSigned = S::AdditionalSigned;
		type Pre = Paid<T::AccountId, S::Pre>;
		fn additional_signed(&self) -> Result<S::AdditionalSigned, TransactionValidityError> { self.0.additional_signed() }
		fn validate(&self, who: &T::AccountId, call: &CallOf<T>, info: &DispatchInfo, len: usize) -> TransactionValidity {
			match T::GasBurner::check_available_gas(who, &info.weight) {
				Some(_) => Ok(Default::default()),
				None => self.0.validate(who, call, info, len),
			}
		}
		fn pre_dispatch(self, who: &T::AccountId, call: &CallOf<T>, info: &DispatchInfo, len: usize) -> Result<Self::Pre, TransactionValidityError> {
			match T::GasBurner::check_available_gas(who, &info.weight) {
				Some(left) => Ok(Paid::Gas(who.clone(), left)),
				None => self.0.pre_dispatch(who, call, info, len).map(Paid::Otherwise),
			}
		}
		fn post_dispatch(pre: Option<Self::Pre>, info: &DispatchInfo, post: &PostDispatchInfo, len: usize, result: &sp_runtime::DispatchResult) -> Result<(), TransactionValidityError> {
			match pre {
				Some(Paid::Gas(who, left)) => {
					T::GasBurner::burn_gas(&who, &left, &post.calc_actual_weight(info));
					Ok(())
				}
				Some(Paid::Otherwise(p)) => S::post_dispatch(Some(p), info, post, len, result),
				None => S::post_dispatch(None, info, post, len, result),
			}
		}
	}
}
plain_pallet! { pallet_asset_tx_payment;
	types { RuntimeEvent, Fungibles, OnChargeAssetTransaction }
	calls { 0 nothing() }
	use frame_support::traits::tokens::{fungibles::{self, Inspect, Balanced}, ConversionToAssetBalance, Fortitude::Polite, Precision::Exact, Preservation::Protect};
	use sp_runtime::traits::{DispatchInfoOf, PostDispatchInfoOf};
	use sp_runtime::transaction_validity::{InvalidTransaction, TransactionValidityError};
	type CallOf<T> = <T as frame_system::Config>::RuntimeCall;
	type AssetsOf<T> = <T as Config>::Fungibles;
	type IdOf<T> = <AssetsOf<T> as Inspect<<T as frame_system::Config>::AccountId>>::AssetId;
	/// How fees are taken from the sender in some asset and where they go.
	pub trait OnChargeAssetTransaction<T: Config> {
		type Balance;
		type AssetId;
		type LiquidityInfo;
		fn withdraw_fee(who: &T::AccountId, call: &CallOf<T>, info: &DispatchInfoOf<CallOf<T>>, asset: Self::AssetId, fee: Self::Balance, tip: Self::Balance) -> Result<Self::LiquidityInfo, TransactionValidityError>;
		fn correct_and_deposit_fee(who: &T::AccountId, info: &DispatchInfoOf<CallOf<T>>, post: &PostDispatchInfoOf<CallOf<T>>, corrected: Self::Balance, tip: Self::Balance, paid: Self::LiquidityInfo) -> Result<(u128, u128), TransactionValidityError>;
	}
	pub struct FungiblesAdapter<C, H>(PhantomData<(C, H)>);
	impl<T, C, H> OnChargeAssetTransaction<T> for FungiblesAdapter<C, H>
	where
		T: Config,
		AssetsOf<T>: fungibles::Balanced<T::AccountId, Balance = u128>,
		C: ConversionToAssetBalance<u128, IdOf<T>, u128>,
		H: HandleCredit<T::AccountId, AssetsOf<T>>,
	{
		type Balance = u128;
		type AssetId = IdOf<T>;
		type LiquidityInfo = fungibles::Credit<T::AccountId, AssetsOf<T>>;
		fn withdraw_fee(who: &T::AccountId, _: &CallOf<T>, _: &DispatchInfoOf<CallOf<T>>, asset: IdOf<T>, fee: u128, _tip: u128) -> Result<Self::LiquidityInfo, TransactionValidityError> {
			let fee = C::to_asset_balance(fee, asset.clone()).map_err(|_| InvalidTransaction::Payment)?.max((fee > 0) as u128);
			AssetsOf::<T>::can_withdraw(asset.clone(), who, fee).into_result(true).map_err(|_| InvalidTransaction::Payment)?;
			AssetsOf::<T>::withdraw(asset, who, fee, Exact, Protect, Polite).map_err(|_| InvalidTransaction::Payment.into())
		}
		fn correct_and_deposit_fee(who: &T::AccountId, _: &DispatchInfoOf<CallOf<T>>, _: &PostDispatchInfoOf<CallOf<T>>, corrected: u128, _tip: u128, paid: Self::LiquidityInfo) -> Result<(u128, u128), TransactionValidityError> {
			let fee = C::to_asset_balance(corrected, paid.asset()).map_err(|_| InvalidTransaction::Payment)?.max((corrected > 0) as u128);
			let (fee, refund) = paid.split(fee);
			let done = fee.peek();
			let _ = AssetsOf::<T>::resolve(who, refund);
			H::handle_credit(fee);
			Ok((done, corrected))
		}
	}
	/// The fee is paid in the named asset, or in the native token.
	pub struct ChargeAssetTxPayment<T: Config>(pub u128, pub Option<IdOf<T>>) where AssetsOf<T>: Inspect<T::AccountId>;
	impl<T: Config> ChargeAssetTxPayment<T> where AssetsOf<T>: Inspect<T::AccountId> {
		pub fn from(tip: u128, asset: Option<IdOf<T>>) -> Self { Self(tip, asset) }
	}
	impl<T: Config> Clone for ChargeAssetTxPayment<T> where AssetsOf<T>: Inspect<T::AccountId> {
		fn clone(&self) -> Self { Self(self.0, self.1.clone()) }
	}
	impl<T: Config> Encode for ChargeAssetTxPayment<T> where AssetsOf<T>: Inspect<T::AccountId> {
		fn encode_to<O: parity_scale_codec::Output + ?Sized>(&self, o: &mut O) {
			parity_scale_codec::Compact(self.0).encode_to(o);
			self.1.encode_to(o)
		}
	}
	impl<T: Config> Decode for ChargeAssetTxPayment<T> where AssetsOf<T>: Inspect<T::AccountId> {
		fn decode<I: parity_scale_codec::Input>(i: &mut I) -> Result<Self, parity_scale_codec::Error> {
			Ok(Self(parity_scale_codec::Compact::<u128>::decode(i)?.0, Decode::decode(i)?))
		}
	}
	type Native<T> = <T as crate::pallet_transaction_payment::Config>::OnChargeTransaction;
	type InAsset<T> = <T as Config>::OnChargeAssetTransaction;
	/// Who paid, the tip, and what was taken.
	pub enum Paid<A, N, X> { Nothing, Native(A, u128, N), Asset(A, u128, X) }
	use frame_support::dispatch::{DispatchInfo, Pays, PostDispatchInfo};
	use frame_support::weights::WeightToFee as _;
	use crate::pallet_transaction_payment::{self as native, OnChargeTransaction as _};
	use sp_runtime::traits::{Dispatchable, SignedExtension};
	use sp_runtime::transaction_validity::TransactionValidity;
	impl<T> SignedExtension for ChargeAssetTxPayment<T>
	where
		T: Config + native::Config + frame_system::ConfigExtra,
		AssetsOf<T>: Inspect<T::AccountId>,
		Native<T>: native::OnChargeTransaction<T, Balance = u128>,
		InAsset<T>: OnChargeAssetTransaction<T, Balance = u128, AssetId = IdOf<T>>,
		T::BlockWeights: Get<frame_system::limits::BlockWeights>,
		<T as native::Config>::WeightToFee: frame_support::weights::WeightToFee<Balance = u128>,
		<T as native::Config>::LengthToFee: frame_support::weights::WeightToFee<Balance = u128>,
		CallOf<T>: Dispatchable<Info = DispatchInfo, PostInfo = PostDispatchInfo>,
	{
		const IDENTIFIER: &'static str = "ChargeAssetTxPayment";
		type AccountId = T::AccountId;
		type Call = CallOf<T>;
		type AdditionalSigned = ();
		type Pre = Paid<T::AccountId, <Native<T> as native::OnChargeTransaction<T>>::LiquidityInfo, <InAsset<T> as OnChargeAssetTransaction<T>>::LiquidityInfo>;
		fn additional_signed(&self) -> Result<(), TransactionValidityError> { Ok(()) }
		fn validate(&self, who: &T::AccountId, call: &CallOf<T>, info: &DispatchInfo, len: usize) -> TransactionValidity {
			sp_io::storage::start_transaction();
			let r = self.clone().pre_dispatch(who, call, info, len);
			sp_io::storage::rollback_transaction();
			match r {
				Ok(pre) => { std::mem::forget(pre); Ok(Default::default()) }
				Err(e) => Err(e),
			}
		}
		fn pre_dispatch(self, who: &T::AccountId, call: &CallOf<T>, info: &DispatchInfo, len: usize) -> Result<Self::Pre, TransactionValidityError> {
			let fee = native::fee_of::<T>(len as u32, info.weight, info.class, info.pays_fee == Pays::Yes, self.0);
			if fee == 0 {
				return Ok(Paid::Nothing);
			}
			Ok(match self.1 {
				Some(asset) => Paid::Asset(who.clone(), self.0, InAsset::<T>::withdraw_fee(who, call, info, asset, fee, self.0)?),
				None => Paid::Native(who.clone(), self.0, Native::<T>::withdraw_fee(who, call, info, fee, self.0)?),
			})
		}
		fn post_dispatch(pre: Option<Self::Pre>, info: &DispatchInfo, post: &PostDispatchInfo, len: usize, _: &sp_runtime::DispatchResult) -> Result<(), TransactionValidityError> {
			let due = |tip| native::fee_of::<T>(len as u32, post.calc_actual_weight(info), info.class, info.pays_fee == Pays::Yes && post.pays_fee == Pays::Yes, tip);
			match pre {
				Some(Paid::Native(who, tip, paid)) => Native::<T>::correct_and_deposit_fee(&who, info, post, due(tip), tip, paid),
				Some(Paid::Asset(who, tip, paid)) => InAsset::<T>::correct_and_deposit_fee(&who, info, post, due(tip), tip, paid).map(|_| ()),
				_ => Ok(()),
			}
		}
	}
	/// What becomes of fees paid in assets.
	pub trait HandleCredit<AccountId, B: frame_support::traits::fungibles::Balanced<AccountId>> {
		fn handle_credit(credit: frame_support::traits::fungibles::Credit<AccountId, B>);
	}
	impl<A, B: frame_support::traits::fungibles::Balanced<A>> HandleCredit<A, B> for () {
		fn handle_credit(_credit: frame_support::traits::fungibles::Credit<A, B>) {}
	}
}
plain_pallet! { pallet_vesting;
	types { RuntimeEvent, Currency, BlockNumberToBalance, MinVestedTransfer, WeightInfo, UnvestedFundsAllowedWithdrawReasons, BlockNumberProvider }
	consts { MAX_VESTING_SCHEDULES: u32 }
	calls { 0 vest(), 1 vest_other(), 2 vested_transfer(), 3 force_vested_transfer(), 4 merge_schedules(), 5 force_remove_vesting_schedule() }
}
plain_pallet! { pallet_authorship;
	types { FindAuthor, EventHandler }
	calls { 0 nothing() }
	impl<T: Config> Pallet<T> {
		pub fn author() -> Option<T::AccountId> {
			vmock::kv::get(&vmock::kv::key("author", ()))
		}
	}
	/// Set-up only.
	pub fn set_author<A: Encode>(a: &A) {
		vmock::kv::put(&vmock::kv::key("author", ()), a)
	}
}
plain_pallet! { pallet_collator_selection;
	types { RuntimeEvent, Currency, UpdateOrigin, PotId, MaxCandidates, MinEligibleCollators, MaxInvulnerables, KickThreshold, ValidatorId, ValidatorIdOf,
		ValidatorRegistration, WeightInfo }
	calls { 0 set_invulnerables(), 1 set_desired_candidates(), 2 set_candidacy_bond(), 3 register_as_candidate(), 4 leave_intent(), 5 add_invulnerable(),
		6 remove_invulnerable(), 7 update_bond(), 8 take_candidate_slot() }
	pub struct IdentityCollator;
	impl<T> sp_runtime::traits::Convert<T, Option<T>> for IdentityCollator {
		fn convert(t: T) -> Option<T> { Some(t) }
	}
	impl<T: Config> Pallet<T> where T::PotId: Get<frame_support::PalletId> {
		pub fn account_id() -> T::AccountId {
			sp_runtime::traits::AccountIdConversion::into_account_truncating(&<T::PotId as Get<frame_support::PalletId>>::get())
		}
	}
}
plain_pallet! { pallet_session;
	types { RuntimeEvent, ValidatorId, ValidatorIdOf, ShouldEndSession, NextSessionRotation, SessionManager, SessionHandler, Keys, WeightInfo }
	calls { 0 set_keys(), 1 purge_keys() }
	pub struct FindAccountFromAuthorIndex<T, I>(PhantomData<(T, I)>);
	pub struct PeriodicSessions<P, O>(PhantomData<(P, O)>);
	pub trait ShouldEndSession<N> {
		fn should_end_session(now: N) -> bool;
	}
	impl<P: Get<u32>, O: Get<u32>> ShouldEndSession<u32> for PeriodicSessions<P, O> {
		fn should_end_session(now: u32) -> bool {
			now >= O::get() && (now - O::get()) % P::get() == 0
		}
	}
}
plain_pallet! { pallet_aura;
	types { AuthorityId, DisabledValidators, MaxAuthorities, AllowMultipleBlocksPerSlot, SlotDuration }
	calls { 0 nothing() }
	pub struct MinimumPeriodTimesTwo<T>(PhantomData<T>);
	pub struct Authorities<T>(PhantomData<T>);
	impl<T: Config> sp_runtime::BoundToRuntimeAppPublic for Pallet<T> {
		type Public = T::AuthorityId;
	}
}
plain_pallet! { cumulus_pallet_aura_ext;
	types {}
	calls { 0 nothing() }
	pub struct FixedVelocityConsensusHook<T, const A: u32, const B: u32, const C: u32>(PhantomData<T>);
	pub struct BlockExecutor<T, E>(PhantomData<(T, E)>);
}
plain_pallet! { cumulus_pallet_xcmp_queue;
	types { RuntimeEvent, ChannelInfo, VersionWrapper, XcmpQueue, MaxActiveOutboundChannels, MaxPageSize, MaxInboundSuspended, ControllerOrigin,
		ControllerOriginConverter, WeightInfo, PriceForSiblingDelivery }
	calls { 1 suspend_xcm_execution(), 2 resume_xcm_execution(), 3 update_suspend_threshold(), 4 update_drop_threshold(), 5 update_resume_threshold() }
}
plain_pallet! { pallet_message_queue;
	types { RuntimeEvent, WeightInfo, MessageProcessor, Size, QueueChangeHandler, QueuePausedQuery, HeapSize, MaxStale, ServiceWeight, IdleMaxServiceWeight }
	calls { 0 reap_page(), 1 execute_overweight() }
}
plain_pallet! { pallet_multisig;
	types { RuntimeEvent, RuntimeCall, Currency, DepositBase, DepositFactor, MaxSignatories, WeightInfo }
	calls { 0 as_multi_threshold_1(other_signatories: Vec<T::AccountId>, call: Box<<T as frame_system::Config>::RuntimeCall>), 1 as_multi(), 2 approve_as_multi(), 3 cancel_as_multi() }
}
plain_pallet! { pallet_utility;
	types { RuntimeEvent, RuntimeCall, PalletsOrigin, WeightInfo }
	calls { 0 batch(calls: Vec<<T as frame_system::Config>::RuntimeCall>), 1 as_derivative(index: u16, call: Box<<T as frame_system::Config>::RuntimeCall>),
		2 batch_all(calls: Vec<<T as frame_system::Config>::RuntimeCall>), 3 dispatch_as(), 4 force_batch(calls: Vec<<T as frame_system::Config>::RuntimeCall>), 5 with_weight() }
}
plain_pallet! { pallet_proxy;
	types { RuntimeEvent, RuntimeCall, Currency, ProxyType, ProxyDepositBase, ProxyDepositFactor, MaxProxies, WeightInfo, MaxPending, CallHasher,
		AnnouncementDepositBase, AnnouncementDepositFactor }
	calls { 0 proxy(), 1 add_proxy(), 2 remove_proxy(), 3 remove_proxies(), 4 create_pure(), 5 kill_pure(), 6 announce(), 7 remove_announcement(),
		8 reject_announcement(), 9 proxy_announced() }
	pub trait WeightInfo {
		fn proxy(p: u32) -> Weight;
		fn proxy_announced(a: u32, p: u32) -> Weight;
		fn remove_announcement(a: u32, p: u32) -> Weight;
		fn reject_announcement(a: u32, p: u32) -> Weight;
		fn announce(a: u32, p: u32) -> Weight;
		fn add_proxy(p: u32) -> Weight;
		fn remove_proxy(p: u32) -> Weight;
		fn remove_proxies(p: u32) -> Weight;
		fn create_pure(p: u32) -> Weight;
		fn kill_pure(p: u32) -> Weight;
	}
	use frame_support::weights::Weight;
}
plain_pallet! { pallet_treasury;
	types { Currency, RejectOrigin, RuntimeEvent, SpendPeriod, Burn, PalletId, BurnDestination, WeightInfo, SpendFunds, MaxApprovals, SpendOrigin, AssetKind,
		Beneficiary, BeneficiaryLookup, Paymaster, BalanceConverter, PayoutPeriod }
	calls { 3 spend_local(), 4 remove_approval(), 5 spend(), 6 payout(), 7 check_status(), 8 void_spend() }
	impl<T: Config> Pallet<T> where T::PalletId: Get<frame_support::PalletId> {
		pub fn account_id() -> T::AccountId {
			sp_runtime::traits::AccountIdConversion::into_account_truncating(&<T::PalletId as Get<frame_support::PalletId>>::get())
		}
	}
	pub struct TreasuryAccountId<T>(PhantomData<T>);
	impl<T: Config> frame_support::traits::TypedGet for TreasuryAccountId<T> where T::PalletId: Get<frame_support::PalletId> {
		type Type = T::AccountId;
		fn get() -> T::AccountId { Pallet::<T>::account_id() }
	}
}
plain_pallet! { pallet_contracts;
	types { Time, Randomness, Currency, RuntimeEvent, RuntimeCall, UploadOrigin, InstantiateOrigin, CallFilter, DepositPerItem, DepositPerByte, CallStack,
		WeightPrice, WeightInfo, Schedule, AddressGenerator, ChainExtension, ApiVersion, MaxCodeLen, MaxTransientStorageSize, DefaultDepositLimit,
		MaxStorageKeyLen, MaxDebugBufferLen, UnsafeUnstableInterface, CodeHashLockupDepositPercent, MaxDelegateDependencies, RuntimeHoldReason,
		Environment, Debug, Migrations, Xcm }
	calls { 0 call_old_weight(), 1 instantiate_with_code_old_weight(), 2 instantiate_old_weight(), 3 upload_code(), 4 remove_code(), 5 set_code(),
		6 call(), 7 instantiate_with_code(), 8 instantiate(), 9 migrate() }
	#[pallet::composite_enum]
	pub enum HoldReason { CodeUploadDepositReserve, StorageDepositReserve }
	pub struct DefaultAddressGenerator;
	pub struct Frame<T>(PhantomData<T>);
	#[derive(Clone, Debug, PartialEq, Eq)]
	pub struct Limits {
		pub event_topics: u32,
		pub memory_pages: u32,
		pub subject_len: u32,
		pub payload_len: u32,
		pub runtime_memory: u32,
		pub validator_runtime_memory: u32,
		pub event_ref_time: u64,
	}
	impl Default for Limits {
		fn default() -> Self {
			Self { event_topics: 4, memory_pages: 16, subject_len: 32, payload_len: 16 * 1024, runtime_memory: 1024 * 1024 * 128,
				validator_runtime_memory: 1024 * 1024 * 512, event_ref_time: 60_000_000 }
		}
	}
	pub struct Schedule<T> { pub limits: Limits, pub instruction_weights: PhantomData<T> }
	impl<T> Default for Schedule<T> {
		fn default() -> Self { Self { limits: Default::default(), instruction_weights: PhantomData } }
	}
}
plain_pallet! { pallet_sudo;
	types { RuntimeEvent, RuntimeCall, WeightInfo }
	calls { 0 sudo() }
}
plain_pallet! { cumulus_pallet_xcm;
	types { RuntimeEvent, XcmExecutor }
	calls { 0 nothing() }
	#[derive(PartialEq, Eq, Clone, Encode, Decode, TypeInfo, RuntimeDebug, MaxEncodedLen)]
	pub enum Origin {
		Relay,
		SiblingParachain(crate::cumulus_primitives_core::ParaId),
	}
	impl From<u32> for Origin {
		fn from(id: u32) -> Origin { Origin::SiblingParachain(id.into()) }
	}
	impl From<crate::cumulus_primitives_core::ParaId> for Origin {
		fn from(id: crate::cumulus_primitives_core::ParaId) -> Origin { Origin::SiblingParachain(id) }
	}
	use frame_support::RuntimeDebug;
}
