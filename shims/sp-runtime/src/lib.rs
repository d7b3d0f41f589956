//! Stand-in for the parts of sp-runtime in use.
pub use parity_scale_codec as codec;
pub use serde;
use parity_scale_codec::{Decode, Encode, MaxEncodedLen};
use scale_info::TypeInfo;

pub mod traits;
pub mod multiaddress;
pub use multiaddress::MultiAddress;
pub use sp_arithmetic::{
	self, ArithmeticError, FixedI128, FixedI64, FixedPointNumber, FixedU128, FixedU64, InnerOf, PerThing, PerU16, Perbill, Percent, Permill,
	Perquintill, Rounding, UpperOf,
};
pub use sp_arithmetic::traits::SaturatedConversion;
pub use sp_arithmetic::traits::Saturating;
pub use sp_core::crypto::AccountId32;
pub use sp_core::{bounded_vec, BoundedBTreeMap, BoundedBTreeSet, BoundedSlice, BoundedVec, WeakBoundedVec, Get};
pub use sp_weights as weights;
pub use Debug as RuntimeDebug;
pub use RuntimeDebugDummy as RuntimeDebugNoBoundDummy;
pub struct RuntimeDebugDummy;
pub use std::fmt::Debug;

pub mod generic {
	use crate::traits;
	use parity_scale_codec::{Decode, Encode};
	use std::marker::PhantomData;
	#[derive(Clone, Debug, PartialEq, Eq)]
	pub struct Block<H, E>(pub PhantomData<(H, E)>);
	impl<H: traits::Header, E> traits::Block for Block<H, E> {
		type Hashing = H::Hashing;
		type Hash = H::Hash;
		type Header = H;
		type Extrinsic = E;
	}
	#[derive(Clone, Debug, PartialEq, Eq)]
	pub struct Header<N, H>(pub PhantomData<(N, H)>);
	impl<N, H: traits::Hash> traits::Header for Header<N, H> {
		type Number = N;
		type Hash = H::Output;
		type Hashing = H;
	}
	#[derive(Clone, Debug, PartialEq, Eq)]
	pub struct SignedBlock<B>(pub PhantomData<B>);
	#[derive(Clone, Debug, PartialEq, Eq)]
	pub struct BlockId<B>(pub PhantomData<B>);
	#[derive(Clone, Debug, PartialEq, Eq)]
	pub struct UncheckedExtrinsic<A = (), C = (), S = (), E = ()> {
		pub signature: Option<(A, S, E)>,
		pub function: C,
	}
	impl<A, C, S, E> UncheckedExtrinsic<A, C, S, E> {
		pub fn new_signed(function: C, signed: A, signature: S, extra: E) -> Self {
			Self { signature: Some((signed, signature, extra)), function }
		}
		pub fn new_unsigned(function: C) -> Self {
			Self { signature: None, function }
		}
	}
	pub struct SignedPayload<C, E>(pub PhantomData<(C, E)>);
	pub struct CheckedExtrinsic<A, C, E>(pub PhantomData<(A, C, E)>);
	/// How long a transaction may wait: for ever, or from the start of the period it was signed in for
	/// as long as a period.
	#[derive(Clone, Copy, Debug, PartialEq, Eq)]
	pub enum Era {
		Immortal,
		Mortal(u64, u64),
	}
	impl Era {
		pub fn mortal(period: u64, current: u64) -> Self {
			let period = period.checked_next_power_of_two().unwrap_or(1 << 16).clamp(4, 1 << 16);
			let phase = current % period;
			let factor = (period >> 12).max(1);
			Era::Mortal(period, phase / factor * factor)
		}
		pub fn immortal() -> Self {
			Era::Immortal
		}
		pub fn is_immortal(&self) -> bool {
			matches!(self, Era::Immortal)
		}
		pub fn birth(self, current: u64) -> u64 {
			match self {
				Era::Immortal => 0,
				Era::Mortal(period, phase) => (current.max(phase) - phase) / period * period + phase,
			}
		}
		pub fn death(self, current: u64) -> u64 {
			match self {
				Era::Immortal => u64::MAX,
				Era::Mortal(period, _) => self.birth(current) + period,
			}
		}
	}
	impl Encode for Era {
		fn encode_to<O: parity_scale_codec::Output + ?Sized>(&self, o: &mut O) {
			match self {
				Era::Immortal => o.push_byte(0),
				Era::Mortal(period, phase) => {
					let factor = (*period >> 12).max(1);
					let x = (period.trailing_zeros() as u16 - 1).clamp(1, 15) | ((phase / factor) << 4) as u16;
					x.encode_to(o);
				}
			}
		}
	}
	impl Decode for Era {
		fn decode<I: parity_scale_codec::Input>(i: &mut I) -> Result<Self, parity_scale_codec::Error> {
			let first = i.read_byte()?;
			if first == 0 {
				return Ok(Era::Immortal);
			}
			let x = first as u64 + ((i.read_byte()? as u64) << 8);
			let period = 2u64 << (x % (1 << 4));
			let phase = (x >> 4) * (period >> 12).max(1);
			if period >= 4 && phase < period {
				Ok(Era::Mortal(period, phase))
			} else {
				Err("Invalid period and phase".into())
			}
		}
	}
}
pub mod testing {
	pub use sp_core::H256;
}

/// Why a dispatch failed.
#[derive(Eq, Clone, Copy, Encode, Decode, Debug, TypeInfo, PartialEq, MaxEncodedLen, serde::Serialize, serde::Deserialize)]
pub enum TokenError {
	FundsUnavailable,
	OnlyProvider,
	BelowMinimum,
	CannotCreate,
	UnknownAsset,
	Frozen,
	Unsupported,
	CannotCreateHold,
	NotExpendable,
	Blocked,
}
#[derive(Eq, PartialEq, Clone, Copy, Encode, Decode, Debug, TypeInfo, MaxEncodedLen, serde::Serialize, serde::Deserialize)]
pub enum TransactionalError {
	LimitReached,
	NoLayer,
}
pub const MAX_MODULE_ERROR_ENCODED_SIZE: usize = 4;
#[derive(Eq, Clone, Copy, Encode, Decode, Debug, TypeInfo, MaxEncodedLen)]
pub struct ModuleError {
	pub index: u8,
	pub error: [u8; MAX_MODULE_ERROR_ENCODED_SIZE],
	#[codec(skip)]
	pub message: Option<&'static str>,
}
impl PartialEq for ModuleError {
	fn eq(&self, o: &Self) -> bool {
		self.index == o.index && self.error == o.error
	}
}
#[derive(Eq, Clone, Copy, Encode, Decode, Debug, TypeInfo, PartialEq, MaxEncodedLen)]
pub enum DispatchError {
	Other(
		#[codec(skip)]
		&'static str,
	),
	CannotLookup,
	BadOrigin,
	Module(ModuleError),
	ConsumerRemaining,
	NoProviders,
	TooManyConsumers,
	Token(TokenError),
	Arithmetic(ArithmeticError),
	Transactional(TransactionalError),
	Exhausted,
	Corruption,
	Unavailable,
	RootNotAllowed,
}
impl DispatchError {
	pub fn stripped(self) -> Self {
		match self {
			DispatchError::Module(ModuleError { index, error, .. }) => {
				DispatchError::Module(ModuleError { index, error, message: None })
			}
			m => m,
		}
	}
}
impl From<&'static str> for DispatchError {
	fn from(e: &'static str) -> Self {
		DispatchError::Other(e)
	}
}
impl From<DispatchError> for &'static str {
	fn from(e: DispatchError) -> &'static str {
		match e {
			DispatchError::Other(m) => m,
			DispatchError::CannotLookup => "Cannot lookup",
			DispatchError::BadOrigin => "Bad origin",
			DispatchError::Module(ModuleError { message, .. }) => message.unwrap_or("Unknown module error"),
			DispatchError::Token(_) => "Token error",
			DispatchError::Arithmetic(e) => e.into(),
			_ => "Dispatch error",
		}
	}
}
impl From<traits::LookupError> for DispatchError {
	fn from(_: traits::LookupError) -> Self {
		Self::CannotLookup
	}
}
impl From<traits::BadOrigin> for DispatchError {
	fn from(_: traits::BadOrigin) -> Self {
		Self::BadOrigin
	}
}
impl From<TokenError> for DispatchError {
	fn from(e: TokenError) -> Self {
		Self::Token(e)
	}
}
impl From<ArithmeticError> for DispatchError {
	fn from(e: ArithmeticError) -> Self {
		Self::Arithmetic(e)
	}
}
impl From<TransactionalError> for DispatchError {
	fn from(e: TransactionalError) -> Self {
		Self::Transactional(e)
	}
}
pub type DispatchResult = Result<(), DispatchError>;
#[derive(Eq, PartialEq, Clone, Copy, Encode, Decode, Debug, TypeInfo)]
pub struct DispatchErrorWithPostInfo<Info> {
	pub post_info: Info,
	pub error: DispatchError,
}
pub type DispatchResultWithInfo<T> = Result<T, DispatchErrorWithPostInfo<T>>;
impl<T: Default, E: Into<DispatchError>> From<E> for DispatchErrorWithPostInfo<T> {
	fn from(e: E) -> Self {
		Self { post_info: Default::default(), error: e.into() }
	}
}

#[derive(Eq, PartialEq, Clone, Encode, Decode, Debug, TypeInfo)]
pub enum MultiSignature {
	Ed25519([u8; 64]),
	Sr25519([u8; 64]),
	Ecdsa([u8; 65]),
}
#[derive(Eq, PartialEq, Clone, Encode, Decode, Debug, TypeInfo)]
pub enum MultiSigner {
	Ed25519([u8; 32]),
	Sr25519([u8; 32]),
	Ecdsa([u8; 33]),
}
impl traits::IdentifyAccount for MultiSigner {
	type AccountId = AccountId32;
	fn into_account(self) -> AccountId32 {
		match self {
			Self::Ed25519(w) | Self::Sr25519(w) => AccountId32::new(w),
			Self::Ecdsa(w) => AccountId32::new(sp_core::hashing::blake2_256(&w)),
		}
	}
}
impl From<sp_core::sr25519::Public> for MultiSigner {
	fn from(x: sp_core::sr25519::Public) -> Self {
		Self::Sr25519(x.0)
	}
}
impl From<sp_core::ed25519::Public> for MultiSigner {
	fn from(x: sp_core::ed25519::Public) -> Self {
		Self::Ed25519(x.0)
	}
}
/// The module of a kind of key.
pub trait BoundToRuntimeAppPublic {
	type Public;
}
pub trait BuildStorage {}
pub type ApplyExtrinsicResult = Result<Result<(), DispatchError>, transaction_validity::TransactionValidityError>;
#[derive(Clone, Copy, PartialEq, Eq, Debug)]
pub enum ExtrinsicInclusionMode {
	AllExtrinsics,
	OnlyInherents,
}
pub type RuntimeString = std::borrow::Cow<'static, str>;
#[macro_export]
macro_rules! create_runtime_str {
	( $y:expr ) => {{
		std::borrow::Cow::Borrowed($y)
	}};
}
#[macro_export]
macro_rules! impl_opaque_keys {
	( $( #[ $attr:meta ] )* $vis:vis struct $name:ident { $( $( #[ $inner:meta ] )* $fv:vis $f:ident: $t:ty, )* } ) => {
		$( #[ $attr ] )*
		#[derive(Clone, PartialEq, Eq, Debug, $crate::serde::Serialize)]
		#[serde(crate = "sp_runtime::serde")]
		$vis struct $name { $( $( #[ $inner ] )* $fv $f: <$t as $crate::BoundToRuntimeAppPublic>::Public, )* }
		impl $crate::traits::OpaqueKeys for $name {
			type KeyTypeIdProviders = ( $( $t, )* );
		}
	};
}

#[derive(Clone, Copy, PartialEq, Eq, Debug, Encode, Decode, TypeInfo, MaxEncodedLen, Hash)]
pub enum Either<L, R> {
	Left(L),
	Right(R),
}

#[derive(Debug, Clone, PartialEq, Eq)]
pub enum TransactionOutcome<R> {
	Commit(R),
	Rollback(R),
}

/// Compares the inner string to the given one.
#[macro_export]
macro_rules! assert_eq_error_rate {
	($x:expr, $y:expr, $e:expr $(,)?) => {
		assert!(($x) >= (($y) - ($e)) && ($x) <= (($y) + ($e)))
	};
}

pub const fn str_array<const N: usize>(s: &str) -> [u8; N] {
	let mut o = [0u8; N];
	let b = s.as_bytes();
	let mut i = 0;
	while i < N && i < b.len() {
		o[i] = b[i];
		i += 1;
	}
	o
}

#[macro_export]
macro_rules! print { ($($t:tt)*) => {} }

pub mod transaction_validity {
	pub type TransactionValidity = Result<ValidTransaction, TransactionValidityError>;
	#[derive(Clone, PartialEq, Eq, Debug, Default)]
	pub struct ValidTransaction {
		pub priority: u64,
	}
	impl From<InvalidTransaction> for TransactionValidity {
		fn from(e: InvalidTransaction) -> Self {
			Err(TransactionValidityError::Invalid(e))
		}
	}
	#[derive(Clone, Copy, PartialEq, Eq, Debug)]
	pub enum InvalidTransaction {
		Call,
		Payment,
		Future,
		Stale,
		BadProof,
		AncientBirthBlock,
		ExhaustsResources,
		BadMandatory,
		BadSigner,
		Custom(u8),
	}
	#[derive(Clone, Copy, PartialEq, Eq, Debug)]
	pub enum TransactionValidityError {
		Invalid(InvalidTransaction),
	}
	impl From<InvalidTransaction> for TransactionValidityError {
		fn from(x: InvalidTransaction) -> Self {
			Self::Invalid(x)
		}
	}
	#[derive(Clone, Copy, PartialEq, Eq, Debug)]
	pub enum TransactionSource {
		InBlock,
		Local,
		External,
	}
	pub type TransactionPriority = u64;
}
pub mod biguint {}
