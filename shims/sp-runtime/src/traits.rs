use crate::DispatchResultWithInfo;
use impl_trait_for_tuples::impl_for_tuples;
use parity_scale_codec::{Codec, Decode, Encode, EncodeLike, Input, MaxEncodedLen};
use scale_info::TypeInfo;
pub use sp_arithmetic::traits::*;
pub use sp_core::{
	ConstBool, ConstI128, ConstI16, ConstI32, ConstI64, ConstI8, ConstU128, ConstU16, ConstU32, ConstU64, ConstU8, Get, GetDefault, TypedGet,
	TryCollect,
};
use std::fmt::{Debug, Display};
use std::hash::Hash as StdHash;
use std::marker::PhantomData;
use std::str::FromStr;

#[derive(Debug, Clone, Copy, PartialEq, Eq)]
pub struct BadOrigin;
impl From<BadOrigin> for &'static str {
	fn from(_: BadOrigin) -> &'static str {
		"Bad origin"
	}
}
#[derive(Debug, Clone, Copy, PartialEq, Eq)]
pub struct LookupError;
impl From<LookupError> for &'static str {
	fn from(_: LookupError) -> &'static str {
		"Can not lookup"
	}
}
impl From<BadOrigin> for LookupError {
	fn from(_: BadOrigin) -> Self {
		LookupError
	}
}

pub trait MaybeSerialize: serde::Serialize {}
impl<T: serde::Serialize> MaybeSerialize for T {}
pub trait MaybeSerializeDeserialize {}
impl<T> MaybeSerializeDeserialize for T {}
pub trait MaybeDisplay {}
impl<T> MaybeDisplay for T {}
pub trait MaybeFromStr {}
impl<T> MaybeFromStr for T {}
pub trait MaybeHash {}
impl<T> MaybeHash for T {}
pub trait Member: Send + Sync + Sized + Debug + Eq + PartialEq + Clone + 'static {}
impl<T: Send + Sync + Sized + Debug + Eq + PartialEq + Clone + 'static> Member for T {}
const _: () = {
	fn _f<T: Display + FromStr + StdHash + EncodeLike>() {}
};

pub trait StaticLookup {
	type Source: Codec + Clone + PartialEq + Debug + TypeInfo;
	type Target;
	fn lookup(s: Self::Source) -> Result<Self::Target, LookupError>;
	fn unlookup(t: Self::Target) -> Self::Source;
}
#[derive(Default, Clone, Copy, PartialEq, Eq)]
pub struct IdentityLookup<T>(PhantomData<T>);
impl<T: Codec + Clone + PartialEq + Debug + TypeInfo> StaticLookup for IdentityLookup<T> {
	type Source = T;
	type Target = T;
	fn lookup(x: T) -> Result<T, LookupError> {
		Ok(x)
	}
	fn unlookup(x: T) -> T {
		x
	}
}
impl<T> Lookup for IdentityLookup<T> {
	type Source = T;
	type Target = T;
	fn lookup(&self, x: T) -> Result<T, LookupError> {
		Ok(x)
	}
}
pub trait Lookup {
	type Source;
	type Target;
	fn lookup(&self, s: Self::Source) -> Result<Self::Target, LookupError>;
}
pub struct AccountIdLookup<AccountId, AccountIndex>(PhantomData<(AccountId, AccountIndex)>);
impl<AccountId, AccountIndex> StaticLookup for AccountIdLookup<AccountId, AccountIndex>
where
	AccountId: Codec + Clone + PartialEq + Debug + TypeInfo + 'static,
	AccountIndex: Codec + Clone + PartialEq + Debug + parity_scale_codec::HasCompact + TypeInfo + 'static,
	crate::MultiAddress<AccountId, AccountIndex>: Codec + TypeInfo,
{
	type Source = crate::MultiAddress<AccountId, AccountIndex>;
	type Target = AccountId;
	fn lookup(x: Self::Source) -> Result<AccountId, LookupError> {
		match x {
			crate::MultiAddress::Id(i) => Ok(i),
			_ => Err(LookupError),
		}
	}
	fn unlookup(x: AccountId) -> Self::Source {
		crate::MultiAddress::Id(x)
	}
}

pub trait Hash: 'static + Debug + Clone + Eq + PartialEq {
	type Output: Member + Codec + AsRef<[u8]> + AsMut<[u8]> + Copy + Default + TypeInfo + MaxEncodedLen + Ord + StdHash + From<[u8; 32]> + EncodeLike;
	fn hash(s: &[u8]) -> Self::Output;
	fn hash_of<S: Encode>(s: &S) -> Self::Output {
		Self::hash(&s.encode())
	}
}
#[derive(PartialEq, Eq, Clone, Debug, TypeInfo, Copy)]
pub struct BlakeTwo256;
impl Hash for BlakeTwo256 {
	type Output = sp_core::H256;
	fn hash(s: &[u8]) -> sp_core::H256 {
		sp_core::H256(sp_core::hashing::blake2_256(s))
	}
}
pub type HashingFor<B> = <B as Block>::Hashing;
pub trait Block {
	type Hashing;
	type Hash;
	type Header: Header;
	type Extrinsic;
}
pub trait Header {
	type Number;
	type Hash;
	type Hashing;
}
pub trait OpaqueKeys {
	type KeyTypeIdProviders;
}
pub trait BlockNumber {}
impl<T> BlockNumber for T {}
pub type NumberFor<B> = <<B as Block>::Header as Header>::Number;

pub trait Verify {
	type Signer: IdentifyAccount;
}
pub trait IdentifyAccount {
	type AccountId;
	fn into_account(self) -> Self::AccountId;
}
pub type AnySigner = crate::MultiSigner;
impl Verify for crate::MultiSignature {
	type Signer = crate::MultiSigner;
}

pub trait Convert<A, B> {
	fn convert(a: A) -> B;
}
impl<A, B: Default> Convert<A, B> for () {
	fn convert(_: A) -> B {
		Default::default()
	}
}
pub trait ConvertBack<A, B>: Convert<A, B> {
	fn convert_back(b: B) -> A;
}
pub trait MaybeConvert<A, B> {
	fn maybe_convert(a: A) -> Option<B>;
}
pub trait MaybeConvertBack<A, B>: MaybeConvert<A, B> {
	fn maybe_convert_back(b: B) -> Option<A>;
}
pub trait TryConvert<A, B> {
	fn try_convert(a: A) -> Result<B, A>;
}
#[impl_for_tuples(12)]
#[tuple_types_custom_trait_bound(TryConvert<A, B>)]
impl<A, B> TryConvert<A, B> for Tuple {
	fn try_convert(a: A) -> Result<B, A> {
		for_tuples!( #(
			let a = match Tuple::try_convert(a) {
				Ok(b) => return Ok(b),
				Err(a) => a,
			};
		)* );
		Err(a)
	}
}
pub trait TryConvertBack<A, B>: TryConvert<A, B> {
	fn try_convert_back(b: B) -> Result<A, B>;
}
pub trait MaybeEquivalence<A, B> {
	fn convert(a: &A) -> Option<B>;
	fn convert_back(b: &B) -> Option<A>;
}
#[impl_for_tuples(8)]
#[tuple_types_custom_trait_bound(MaybeEquivalence<A, B>)]
impl<A, B> MaybeEquivalence<A, B> for Tuple {
	fn convert(a: &A) -> Option<B> {
		for_tuples!( #( if let Some(b) = Tuple::convert(a) { return Some(b) } )* );
		None
	}
	fn convert_back(b: &B) -> Option<A> {
		for_tuples!( #( if let Some(a) = Tuple::convert_back(b) { return Some(a) } )* );
		None
	}
}
pub struct ConvertInto;
impl<A: Into<B>, B> Convert<A, B> for ConvertInto {
	fn convert(a: A) -> B {
		a.into()
	}
}
impl<A: Clone + TryInto<B>, B: Clone + TryInto<A>> MaybeEquivalence<A, B> for ConvertInto {
	fn convert(a: &A) -> Option<B> {
		a.clone().try_into().ok()
	}
	fn convert_back(b: &B) -> Option<A> {
		b.clone().try_into().ok()
	}
}
pub struct Identity;
impl<T> Convert<T, T> for Identity {
	fn convert(a: T) -> T {
		a
	}
}
impl<T: Clone> MaybeEquivalence<T, T> for Identity {
	fn convert(a: &T) -> Option<T> {
		Some(a.clone())
	}
	fn convert_back(b: &T) -> Option<T> {
		Some(b.clone())
	}
}
pub struct TryMorphInto<T>(PhantomData<T>);
pub struct MorphInto<T>(PhantomData<T>);
pub trait Morph<A> {
	type Outcome;
	fn morph(a: A) -> Self::Outcome;
}
impl<T> Morph<T> for Identity {
	type Outcome = T;
	fn morph(a: T) -> T {
		a
	}
}
pub trait TryMorph<A> {
	type Outcome;
	fn try_morph(a: A) -> Result<Self::Outcome, ()>;
}
impl<T> TryMorph<T> for Identity {
	type Outcome = T;
	fn try_morph(a: T) -> Result<T, ()> {
		Ok(a)
	}
}
/// A fixed value, whatever it is given.
pub struct Replace<T>(PhantomData<T>);
impl<A, T: sp_core::TypedGet> Morph<A> for Replace<T> {
	type Outcome = T::Type;
	fn morph(_: A) -> T::Type {
		T::get()
	}
}
impl<A, T: sp_core::TypedGet> TryMorph<A> for Replace<T> {
	type Outcome = T::Type;
	fn try_morph(_: A) -> Result<T::Type, ()> {
		Ok(T::get())
	}
}
impl<A, T: Default> Morph<A> for ReplaceWithDefault<T> {
	type Outcome = T;
	fn morph(_: A) -> T {
		T::default()
	}
}
/// The first of a tuple.
pub struct TakeFirst;
impl<A, B> Morph<(A, B)> for TakeFirst {
	type Outcome = A;
	fn morph(a: (A, B)) -> A {
		a.0
	}
}
impl<A, B> TryMorph<(A, B)> for TakeFirst {
	type Outcome = A;
	fn try_morph(a: (A, B)) -> Result<A, ()> {
		Ok(a.0)
	}
}
impl<A: Into<T>, T> Morph<A> for MorphInto<T> {
	type Outcome = T;
	fn morph(a: A) -> T {
		a.into()
	}
}
impl<A: TryInto<T>, T> TryMorph<A> for TryMorphInto<T> {
	type Outcome = T;
	fn try_morph(a: A) -> Result<T, ()> {
		a.try_into().map_err(|_| ())
	}
}

/// Creates types implementing `Morph`/`TryMorph`, as the macro of the same name in sp-runtime.
#[macro_export]
macro_rules! morph_types {
	(
		@DECL $( #[doc = $doc:expr] )* $vq:vis $name:ident ()
	) => {
		$( #[doc = $doc] )* $vq struct $name;
	};
	(
		@DECL $( #[doc = $doc:expr] )* $vq:vis $name:ident ( $( $bound_id:ident ),+ )
	) => {
		$( #[doc = $doc] )*
		$vq struct $name < $($bound_id,)* > ( $crate::traits::PhantomData_< ( $($bound_id,)* ) > ) ;
	};
	(
		@IMPL $name:ty : ( $( $bounds:tt )* ) ( $( $where:tt )* )
		= |$var:ident: $var_type:ty| -> $outcome:ty { $( $ex:expr )* }
	) => {
		impl<$($bounds)*> $crate::traits::Morph<$var_type> for $name $( $where )? {
			type Outcome = $outcome;
			fn morph($var: $var_type) -> Self::Outcome { $( $ex )* }
		}
	};
	(
		@IMPL_TRY $name:ty : ( $( $bounds:tt )* ) ( $( $where:tt )* )
		= |$var:ident: $var_type:ty| -> $outcome:ty { $( $ex:expr )* }
	) => {
		impl<$($bounds)*> $crate::traits::TryMorph<$var_type> for $name $( $where )? {
			type Outcome = $outcome;
			fn try_morph($var: $var_type) -> Result<Self::Outcome, ()> { $( $ex )* }
		}
	};
	(
		@IMPL $name:ty : () ( $( $where:tt )* )
		= |$var:ident: $var_type:ty| -> $outcome:ty { $( $ex:expr )* }
	) => {
		impl $crate::traits::Morph<$var_type> for $name $( $where )? {
			type Outcome = $outcome;
			fn morph($var: $var_type) -> Self::Outcome { $( $ex )* }
		}
	};
	(
		$( #[doc = $doc:expr] )* $vq:vis type $name:ident
		$( < $( $bound_id:ident $( : $bound_head:path $( | $bound_tail:path )* )? ),+ > )?
		$(: $type:tt)?
		= |_| -> $outcome:ty { $( $ex:expr )* };
		$( $rest:tt )*
	) => {
		$crate::morph_types! {
			$( #[doc = $doc] )* $vq type $name
			$( < $( $bound_id $( : $bound_head $( | $bound_tail )* )? ),+ > )?
			EXTRA_GENERIC(X)
			$(: $type)?
			= |_x: X| -> $outcome { $( $ex )* };
			$( $rest )*
		}
	};
	(
		$( #[doc = $doc:expr] )* $vq:vis type $name:ident
		$( < $( $bound_id:ident $( : $bound_head:path $( | $bound_tail:path )* )? ),+ > )?
		$( EXTRA_GENERIC ($extra:ident) )?
		$( : Morph )?
		= |$var:ident: $var_type:ty| -> $outcome:ty { $( $ex:expr )* }
		$( where $( $where_path:ty : $where_bound_head:path $( | $where_bound_tail:path )* ),* )?;
		$( $rest:tt )*
	) => {
		$crate::morph_types! { @DECL $( #[doc = $doc] )* $vq $name ( $( $( $bound_id ),+ )? ) }
		$crate::morph_types! {
			@IMPL $name $( < $( $bound_id ),* > )? : ( $( $( $bound_id $( : $bound_head $( + $bound_tail )* )? , )+ )? $( $extra )? )
			( $( where $( $where_path : $where_bound_head $( + $where_bound_tail )* ),* )? )
			= |$var: $var_type| -> $outcome { $( $ex )* }
		}
		$crate::morph_types!{ $($rest)* }
	};
	(
		$( #[doc = $doc:expr] )* $vq:vis type $name:ident
		$( < $( $bound_id:ident $( : $bound_head:path $( | $bound_tail:path )* )? ),+ > )?
		$( EXTRA_GENERIC ($extra:ident) )?
		: TryMorph
		= |$var:ident: $var_type:ty| -> Result<$outcome:ty, ()> { $( $ex:expr )* }
		$( where $( $where_path:ty : $where_bound_head:path $( | $where_bound_tail:path )* ),* )?;
		$( $rest:tt )*
	) => {
		$crate::morph_types! { @DECL $( #[doc = $doc] )* $vq $name ( $( $( $bound_id ),+ )? ) }
		$crate::morph_types! {
			@IMPL_TRY $name $( < $( $bound_id ),* > )? : ( $( $( $bound_id $( : $bound_head $( + $bound_tail )* )? , )+ )? $( $extra )? )
			( $( where $( $where_path : $where_bound_head $( + $where_bound_tail )* ),* )? )
			= |$var: $var_type| -> $outcome { $( $ex )* }
		}
		$crate::morph_types!{ $($rest)* }
	};
	() => {};
}
pub use crate::morph_types;
pub type PhantomData_<T> = std::marker::PhantomData<T>;

/// Reads zeroes once the input is exhausted.
pub struct TrailingZeroInput<'a>(&'a [u8]);
impl<'a> TrailingZeroInput<'a> {
	pub fn new(d: &'a [u8]) -> Self {
		Self(d)
	}
	pub fn zeroes() -> Self {
		Self::new(&[][..])
	}
}
impl<'a> Input for TrailingZeroInput<'a> {
	fn remaining_len(&mut self) -> Result<Option<usize>, parity_scale_codec::Error> {
		Ok(None)
	}
	fn read(&mut self, into: &mut [u8]) -> Result<(), parity_scale_codec::Error> {
		let n = into.len().min(self.0.len());
		into[..n].copy_from_slice(&self.0[..n]);
		for i in &mut into[n..] {
			*i = 0;
		}
		self.0 = &self.0[n..];
		Ok(())
	}
}
pub struct AppendZerosInput;

pub trait AccountIdConversion<AccountId>: Sized {
	fn into_account_truncating(&self) -> AccountId {
		self.into_sub_account_truncating(&())
	}
	fn try_into_account(&self) -> Option<AccountId> {
		self.try_into_sub_account(&())
	}
	fn try_from_account(a: &AccountId) -> Option<Self> {
		Self::try_from_sub_account::<()>(a).map(|x| x.0)
	}
	fn into_sub_account_truncating<S: Encode>(&self, sub: S) -> AccountId;
	fn try_into_sub_account<S: Encode>(&self, sub: S) -> Option<AccountId>;
	fn try_from_sub_account<S: Decode>(x: &AccountId) -> Option<(Self, S)>;
}
impl<T: Encode + Decode, Id: Encode + Decode + TypeIdT> AccountIdConversion<T> for Id {
	fn into_sub_account_truncating<S: Encode>(&self, sub: S) -> T {
		(Id::TYPE_ID, self, sub)
			.using_encoded(|b| T::decode(&mut TrailingZeroInput(b)))
			.expect("All byte sequences are valid `AccountIds`; qed")
	}
	fn try_into_sub_account<S: Encode>(&self, sub: S) -> Option<T> {
		let encoded_seed = (Id::TYPE_ID, self, sub).encode();
		let account = T::decode(&mut TrailingZeroInput(&encoded_seed))
			.expect("All byte sequences are valid `AccountIds`; qed");
		if encoded_seed.len() <= account.encoded_size() {
			Some(account)
		} else {
			None
		}
	}
	fn try_from_sub_account<S: Decode>(x: &T) -> Option<(Self, S)> {
		x.using_encoded(|d| {
			if d[0..4] != Id::TYPE_ID {
				return None;
			}
			let mut cursor = &d[4..];
			let result = Decode::decode(&mut cursor).ok()?;
			if cursor.iter().all(|x| *x == 0) {
				Some(result)
			} else {
				None
			}
		})
	}
}
pub trait TypeIdT {
	const TYPE_ID: [u8; 4];
}

use crate::transaction_validity::{TransactionValidity, TransactionValidityError};
pub trait Dispatchable {
	type RuntimeOrigin: Debug;
	type Config;
	type Info;
	type PostInfo: Eq + PartialEq + Clone + Copy + Encode + Decode + Debug;
	fn dispatch(self, origin: Self::RuntimeOrigin) -> DispatchResultWithInfo<Self::PostInfo>;
}
pub type DispatchInfoOf<C> = <C as Dispatchable>::Info;
pub type PostDispatchInfoOf<C> = <C as Dispatchable>::PostInfo;
pub trait BlockNumberProvider {
	type BlockNumber: Codec + Clone + Ord + Eq + AtLeast32BitUnsigned + TypeInfo + Debug + MaxEncodedLen + Copy + EncodeLike + Default;
	fn current_block_number() -> Self::BlockNumber;
}
pub trait ReduceBy<N> {
	type Outcome;
	fn reduce_by(a: N) -> Self::Outcome;
}
pub struct ReplaceWithDefault<T>(PhantomData<T>);

/// What is checked of a signed transaction, beyond the signature, and done around it.
pub trait SignedExtension: Encode + Decode + Clone + Sized {
	const IDENTIFIER: &'static str;
	type AccountId;
	type Call: Dispatchable;
	type AdditionalSigned: Encode;
	type Pre;
	/// What is signed along though it is not sent.
	fn additional_signed(&self) -> Result<Self::AdditionalSigned, TransactionValidityError>;
	fn validate(&self, _who: &Self::AccountId, _call: &Self::Call, _info: &DispatchInfoOf<Self::Call>, _len: usize) -> TransactionValidity {
		Ok(Default::default())
	}
	fn pre_dispatch(self, who: &Self::AccountId, call: &Self::Call, info: &DispatchInfoOf<Self::Call>, len: usize) -> Result<Self::Pre, TransactionValidityError>;
	fn post_dispatch(_pre: Option<Self::Pre>, _info: &DispatchInfoOf<Self::Call>, _post_info: &PostDispatchInfoOf<Self::Call>, _len: usize, _result: &crate::DispatchResult) -> Result<(), TransactionValidityError> {
		Ok(())
	}
	fn identifiers() -> Vec<&'static str> {
		vec![Self::IDENTIFIER]
	}
}
macro_rules! signed_extensions {
	($first:ident $(, $e:ident)*) => {
		signed_extensions!(@one $first $(, $e)*);
		signed_extensions!($($e),*);
	};
	() => {};
	(@one $first:ident $(, $e:ident)*) => {
		#[allow(non_snake_case)]
		impl<AccountId, Call: Dispatchable, $first: SignedExtension<AccountId = AccountId, Call = Call> $(, $e: SignedExtension<AccountId = AccountId, Call = Call>)*> SignedExtension for ($first, $($e,)*) {
			const IDENTIFIER: &'static str = "all of them";
			type AccountId = AccountId;
			type Call = Call;
			type AdditionalSigned = ($first::AdditionalSigned, $($e::AdditionalSigned,)*);
			type Pre = ($first::Pre, $($e::Pre,)*);
			fn additional_signed(&self) -> Result<Self::AdditionalSigned, TransactionValidityError> {
				let ($first, $($e,)*) = self;
				Ok(($first.additional_signed()?, $($e.additional_signed()?,)*))
			}
			fn validate(&self, who: &AccountId, call: &Call, info: &DispatchInfoOf<Call>, len: usize) -> TransactionValidity {
				let ($first, $($e,)*) = self;
				$first.validate(who, call, info, len)?;
				$($e.validate(who, call, info, len)?;)*
				Ok(Default::default())
			}
			fn pre_dispatch(self, who: &AccountId, call: &Call, info: &DispatchInfoOf<Call>, len: usize) -> Result<Self::Pre, TransactionValidityError> {
				let ($first, $($e,)*) = self;
				Ok(($first.pre_dispatch(who, call, info, len)?, $($e.pre_dispatch(who, call, info, len)?,)*))
			}
			fn post_dispatch(pre: Option<Self::Pre>, info: &DispatchInfoOf<Call>, post: &PostDispatchInfoOf<Call>, len: usize, result: &crate::DispatchResult) -> Result<(), TransactionValidityError> {
				match pre {
					Some(($first, $($e,)*)) => {
						<$first as SignedExtension>::post_dispatch(Some($first), info, post, len, result)?;
						$(<$e as SignedExtension>::post_dispatch(Some($e), info, post, len, result)?;)*
					}
					None => {
						$first::post_dispatch(None, info, post, len, result)?;
						$($e::post_dispatch(None, info, post, len, result)?;)*
					}
				}
				Ok(())
			}
			fn identifiers() -> Vec<&'static str> {
				let mut v = $first::identifiers();
				$(v.extend($e::identifiers());)*
				v
			}
		}
	};
}
signed_extensions!(A1, A2, A3, A4, A5, A6, A7, A8, A9, A10, A11, A12);

pub trait CheckedConversion {
	fn checked_from<T>(t: T) -> Option<Self>
	where
		Self: TryFrom<T>,
	{
		Self::try_from(t).ok()
	}
	fn checked_into<T>(self) -> Option<T>
	where
		Self: TryInto<T>,
	{
		self.try_into().ok()
	}
}
impl<T: Sized> CheckedConversion for T {}
