//! What the system module checks of signed transactions.
use crate::limits::{BlockLength, BlockWeights};
use crate::{BlockNumberFor, Config, ConfigExtra, Pallet};
use frame_support::dispatch::{DispatchClass, DispatchInfo, PostDispatchInfo};
use frame_support::traits::Get;
use frame_support::weights::Weight;
use parity_scale_codec::{Compact, Decode, Encode, Error, Input, Output};
use sp_runtime::generic::Era;
use sp_runtime::traits::{DispatchInfoOf, Dispatchable, PostDispatchInfoOf, SignedExtension};
use sp_runtime::transaction_validity::{InvalidTransaction, TransactionValidity, TransactionValidityError};
use std::marker::PhantomData;

/// What a runtime says of itself.
pub mod version {
	use std::borrow::Cow;
	pub type ApisVec = Cow<'static, [([u8; 8], u32)]>;
	#[derive(Clone, Debug, PartialEq, Eq)]
	pub struct RuntimeVersion {
		pub spec_name: Cow<'static, str>,
		pub impl_name: Cow<'static, str>,
		pub authoring_version: u32,
		pub spec_version: u32,
		pub impl_version: u32,
		pub apis: ApisVec,
		pub transaction_version: u32,
		pub state_version: u8,
	}
	impl frame_support::traits::Get<RuntimeVersion> for RuntimeVersion {
		fn get() -> RuntimeVersion {
			panic!("SHIM-UNSUPPORTED: a version")
		}
	}
}
use version::RuntimeVersion;

macro_rules! nothing_sent {
	($($n:ident),*) => { $(
		pub struct $n<T>(pub PhantomData<T>);
		impl<T> $n<T> {
			pub fn new() -> Self { Self(PhantomData) }
		}
		impl<T> Default for $n<T> { fn default() -> Self { Self(PhantomData) } }
		impl<T> Clone for $n<T> { fn clone(&self) -> Self { Self(PhantomData) } }
		impl<T> Encode for $n<T> { fn encode_to<O: Output + ?Sized>(&self, _: &mut O) {} }
		impl<T> Decode for $n<T> { fn decode<I: Input>(_: &mut I) -> Result<Self, Error> { Ok(Self(PhantomData)) } }
	)* };
}
nothing_sent!(CheckNonZeroSender, CheckSpecVersion, CheckTxVersion, CheckGenesis, CheckWeight);
pub struct ChainContext<T>(pub PhantomData<T>);

type CallOf<T> = <T as Config>::RuntimeCall;
type R<X> = Result<X, TransactionValidityError>;
macro_rules! common {
	() => {
		type AccountId = T::AccountId;
		type Call = CallOf<T>;
	};
}

impl<T: Config> SignedExtension for CheckNonZeroSender<T> {
	const IDENTIFIER: &'static str = "CheckNonZeroSender";
	common!();
	type AdditionalSigned = ();
	type Pre = ();
	fn additional_signed(&self) -> R<()> {
		Ok(())
	}
	fn validate(&self, who: &T::AccountId, _: &CallOf<T>, _: &DispatchInfoOf<CallOf<T>>, _: usize) -> TransactionValidity {
		if who.using_encoded(|b| b.iter().all(|x| *x == 0)) {
			return Err(InvalidTransaction::BadSigner.into());
		}
		Ok(Default::default())
	}
	fn pre_dispatch(self, who: &T::AccountId, call: &CallOf<T>, info: &DispatchInfoOf<CallOf<T>>, len: usize) -> R<()> {
		self.validate(who, call, info, len).map(|_| ())
	}
}
macro_rules! signs_along {
	($n:ident, $t:ty, [$($bound:tt)*], |$s:ident| $what:expr) => {
		impl<T: Config + ConfigExtra> SignedExtension for $n<T> where $($bound)* {
			const IDENTIFIER: &'static str = stringify!($n);
			common!();
			type AdditionalSigned = $t;
			type Pre = ();
			fn additional_signed(&self) -> R<$t> {
				let $s = self;
				$what
			}
			fn pre_dispatch(self, who: &T::AccountId, call: &CallOf<T>, info: &DispatchInfoOf<CallOf<T>>, len: usize) -> R<()> {
				self.validate(who, call, info, len).map(|_| ())
			}
		}
	};
}
signs_along!(CheckSpecVersion, u32, [T::Version: Get<RuntimeVersion>], |_s| Ok(T::Version::get().spec_version));
signs_along!(CheckTxVersion, u32, [T::Version: Get<RuntimeVersion>], |_s| Ok(T::Version::get().transaction_version));
signs_along!(CheckGenesis, T::Hash, [BlockNumberFor<T>: parity_scale_codec::EncodeLike], |_s| Ok(Pallet::<T>::block_hash(BlockNumberFor::<T>::default())));

macro_rules! mortality {
	($($n:ident),*) => { $(
		pub struct $n<T>(pub Era, PhantomData<T>);
		impl<T> $n<T> {
			pub fn from(era: Era) -> Self { Self(era, PhantomData) }
		}
		impl<T> Clone for $n<T> { fn clone(&self) -> Self { Self(self.0, PhantomData) } }
		impl<T> Encode for $n<T> { fn encode_to<O: Output + ?Sized>(&self, o: &mut O) { self.0.encode_to(o) } }
		impl<T> Decode for $n<T> { fn decode<I: Input>(i: &mut I) -> Result<Self, Error> { Era::decode(i).map(Self::from) } }
		signs_along!($n, T::Hash, [BlockNumberFor<T>: TryInto<u64> + TryFrom<u64> + parity_scale_codec::EncodeLike, T::BlockHashCount: Get<BlockNumberFor<T>>], |s| {
			let number = |n: BlockNumberFor<T>| TryInto::<u64>::try_into(n).unwrap_or(u64::MAX);
			let now = number(Pallet::<T>::block_number());
			let birth = s.0.birth(now);
			// the hashes of the blocks before these are gone
			if birth != 0 && now.saturating_sub(birth) > number(T::BlockHashCount::get()) {
				return Err(InvalidTransaction::AncientBirthBlock.into());
			}
			let birth = TryFrom::<u64>::try_from(birth).unwrap_or_else(|_| panic!("HARNESS-BUG: a number"));
			Ok(Pallet::<T>::block_hash::<BlockNumberFor<T>>(birth))
		});
	)* };
}
mortality!(CheckEra, CheckMortality);

pub struct CheckNonce<T>(pub u64, PhantomData<T>);
impl<T: Config> CheckNonce<T> {
	pub fn from(nonce: T::Nonce) -> Self
	where
		T::Nonce: Into<u64>,
	{
		Self(nonce.into(), PhantomData)
	}
}
impl<T> Clone for CheckNonce<T> {
	fn clone(&self) -> Self {
		Self(self.0, PhantomData)
	}
}
impl<T> Encode for CheckNonce<T> {
	fn encode_to<O: Output + ?Sized>(&self, o: &mut O) {
		Compact(self.0).encode_to(o)
	}
}
impl<T> Decode for CheckNonce<T> {
	fn decode<I: Input>(i: &mut I) -> Result<Self, Error> {
		Compact::<u64>::decode(i).map(|c| Self(c.0, PhantomData))
	}
}
fn nonce_key<T: Config>(who: &T::AccountId) -> Vec<u8> {
	(b"system nonce", who).encode()
}
/// The number of the next transaction of the account.
pub fn nonce_of<T: Config>(who: &T::AccountId) -> u64 {
	sp_io::storage::get(&nonce_key::<T>(who)).map_or(0, |b| u64::decode(&mut &b[..]).expect("HARNESS-BUG: a nonce"))
}
pub fn set_nonce<T: Config>(who: &T::AccountId, n: u64) {
	sp_io::storage::set(&nonce_key::<T>(who), &n.encode())
}
impl<T: Config> SignedExtension for CheckNonce<T> {
	const IDENTIFIER: &'static str = "CheckNonce";
	common!();
	type AdditionalSigned = ();
	type Pre = ();
	fn additional_signed(&self) -> R<()> {
		Ok(())
	}
	fn validate(&self, who: &T::AccountId, _: &CallOf<T>, _: &DispatchInfoOf<CallOf<T>>, _: usize) -> TransactionValidity {
		if self.0 < nonce_of::<T>(who) {
			return Err(InvalidTransaction::Stale.into());
		}
		Ok(Default::default())
	}
	fn pre_dispatch(self, who: &T::AccountId, _: &CallOf<T>, _: &DispatchInfoOf<CallOf<T>>, _: usize) -> R<()> {
		let next = nonce_of::<T>(who);
		if self.0 != next {
			return Err(if self.0 < next { InvalidTransaction::Stale } else { InvalidTransaction::Future }.into());
		}
		set_nonce::<T>(who, next + 1);
		Ok(())
	}
}

/// How much of the block is used up, by class.
pub fn used_weight(class: DispatchClass) -> Weight {
	sp_io::storage::get(&(b"system weight", class as u8).encode()).map_or(Weight::zero(), |b| Decode::decode(&mut &b[..]).expect("HARNESS-BUG: a weight"))
}
pub fn set_used_weight(class: DispatchClass, w: Weight) {
	sp_io::storage::set(&(b"system weight", class as u8).encode(), &w.encode())
}
impl<T: Config + ConfigExtra> CheckWeight<T>
where
	T::BlockWeights: Get<BlockWeights>,
	T::BlockLength: Get<BlockLength>,
{
	fn fits(info: &DispatchInfo, len: usize) -> R<Weight> {
		let limits = T::BlockWeights::get();
		let of = limits.get(info.class);
		if of.max_extrinsic.is_some_and(|max| info.weight.any_gt(max)) {
			return Err(InvalidTransaction::ExhaustsResources.into());
		}
		if len > *T::BlockLength::get().max.get(info.class) as usize {
			return Err(InvalidTransaction::ExhaustsResources.into());
		}
		let after = used_weight(info.class).saturating_add(info.weight).saturating_add(of.base_extrinsic);
		if of.max_total.is_some_and(|max| after.any_gt(max)) {
			return Err(InvalidTransaction::ExhaustsResources.into());
		}
		Ok(after)
	}
}
impl<T: Config + ConfigExtra> SignedExtension for CheckWeight<T>
where
	T::BlockWeights: Get<BlockWeights>,
	T::BlockLength: Get<BlockLength>,
	CallOf<T>: Dispatchable<Info = DispatchInfo, PostInfo = PostDispatchInfo>,
{
	const IDENTIFIER: &'static str = "CheckWeight";
	common!();
	type AdditionalSigned = ();
	type Pre = ();
	fn additional_signed(&self) -> R<()> {
		Ok(())
	}
	fn validate(&self, _: &T::AccountId, _: &CallOf<T>, info: &DispatchInfo, len: usize) -> TransactionValidity {
		Self::fits(info, len).map(|_| Default::default())
	}
	fn pre_dispatch(self, _: &T::AccountId, _: &CallOf<T>, info: &DispatchInfo, len: usize) -> R<()> {
		set_used_weight(info.class, Self::fits(info, len)?);
		Ok(())
	}
	fn post_dispatch(_: Option<()>, info: &DispatchInfo, post: &PostDispatchInfoOf<CallOf<T>>, _: usize, _: &sp_runtime::DispatchResult) -> R<()> {
		set_used_weight(info.class, used_weight(info.class).saturating_sub(post.calc_unspent(info)));
		Ok(())
	}
}
