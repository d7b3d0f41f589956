//! Stand-in for the parts of sp-core in use.
pub use parity_scale_codec as codec;
pub use parity_scale_codec::{Decode, Encode, MaxEncodedLen};

pub mod bounded;
pub mod hashing;
pub use hashing::{blake2_128, blake2_256, twox_128, twox_64};
pub use bounded::*;
pub mod bounded_vec {
	pub use crate::bounded::BoundedVec;
}
pub mod crypto;
pub use crypto::{ByteArray, CryptoType, Pair, Public, H256, H160};
pub mod sr25519 {
	crate::crypto::stand_in_keys!(Public, Pair);
}
pub mod ed25519 {
	crate::crypto::stand_in_keys!(Public, Pair);
}

pub type RuntimeDebug = ();

pub trait Get<T> {
	fn get() -> T;
}
impl<T: Default> Get<T> for () {
	fn get() -> T {
		T::default()
	}
}
pub trait TypedGet {
	type Type;
	fn get() -> Self::Type;
}
pub struct GetDefault;
impl<T: Default> Get<T> for GetDefault {
	fn get() -> T {
		T::default()
	}
}
macro_rules! const_get {
	($n:ident, $t:ty) => {
		#[derive(Debug, Default, Clone, Copy, PartialEq, Eq)]
		pub struct $n<const T: $t>;
		impl<const T: $t> Get<$t> for $n<T> {
			fn get() -> $t {
				T
			}
		}
		impl<const T: $t> Get<Option<$t>> for $n<T> {
			fn get() -> Option<$t> {
				Some(T)
			}
		}
		impl<const T: $t> TypedGet for $n<T> {
			type Type = $t;
			fn get() -> $t {
				T
			}
		}
	};
}
const_get!(ConstBool, bool);
const_get!(ConstU8, u8);
const_get!(ConstU16, u16);
const_get!(ConstU32, u32);
const_get!(ConstU64, u64);
const_get!(ConstU128, u128);
const_get!(ConstI8, i8);
const_get!(ConstI16, i16);
const_get!(ConstI32, i32);
const_get!(ConstI64, i64);
const_get!(ConstI128, i128);

pub struct ConstUint<const N: u128>;
macro_rules! const_uint { ($($t:ty),*) => { $(impl<const N: u128> Get<$t> for ConstUint<N> { fn get() -> $t { N as $t } })* } }
const_uint!(u8, u16, u32, u64, u128);

pub trait TryCollect<C> {
	type Error;
	fn try_collect(self) -> Result<C, Self::Error>;
}

#[macro_export]
macro_rules! bounded_vec {
	($($values:expr),* $(,)?) => { $crate::BoundedVec::<_, _>::truncate_from(vec![$($values),*]) };
	($value:expr ; $rep:expr) => { $crate::BoundedVec::<_, _>::truncate_from(vec![$value; $rep]) };
}

pub mod offchain {}

#[derive(Clone, PartialEq, Eq, Debug)]
pub struct OpaqueMetadata(Vec<u8>);
impl OpaqueMetadata {
	pub fn new(metadata: Vec<u8>) -> Self {
		OpaqueMetadata(metadata)
	}
}

#[macro_export]
macro_rules! parameter_types {
	( $( #[ $attr:meta ] )* $vis:vis const $name:ident $(< $($ty_params:ident),* >)?: $type:ty = $value:expr $(; $($rest:tt)*)? ) => {
		$( #[ $attr ] )*
		$vis struct $name $(< $($ty_params),* >( $(::core::marker::PhantomData<$ty_params>),* ))?;
		impl$(< $($ty_params),* >)? $name $(< $($ty_params),* >)? {
			pub const fn get() -> $type { $value }
		}
		impl<_I: From<$type> $(, $($ty_params),*)?> $crate::Get<_I> for $name $(< $($ty_params),* >)? {
			fn get() -> _I { _I::from(Self::get()) }
		}
		impl$(< $($ty_params),* >)? $crate::TypedGet for $name $(< $($ty_params),* >)? {
			type Type = $type;
			fn get() -> $type { Self::get() }
		}
		$( $crate::parameter_types!( $($rest)* ); )?
	};
	( $( #[ $attr:meta ] )* $vis:vis static $name:ident: $type:ty = $value:expr $(; $($rest:tt)*)? ) => {
		$( #[ $attr ] )*
		$vis struct $name;
		const _: () = {
			std::thread_local! { static CELL: std::cell::RefCell<Option<$type>> = const { std::cell::RefCell::new(None) }; }
			impl $name {
				pub fn get() -> $type { CELL.with(|v| v.borrow_mut().get_or_insert_with(|| $value).clone()) }
				pub fn set(t: $type) { CELL.with(|v| *v.borrow_mut() = Some(t)); }
			}
		};
		impl<_I: From<$type>> $crate::Get<_I> for $name { fn get() -> _I { _I::from(Self::get()) } }
		impl $crate::TypedGet for $name { type Type = $type; fn get() -> $type { Self::get() } }
		$( $crate::parameter_types!( $($rest)* ); )?
	};
	( $( #[ $attr:meta ] )* $vis:vis storage $name:ident: $type:ty = $value:expr $(; $($rest:tt)*)? ) => {
		$crate::parameter_types!( $( #[ $attr ] )* $vis $name: $type = $value );
		$( $crate::parameter_types!( $($rest)* ); )?
	};
	( $( #[ $attr:meta ] )* $vis:vis $name:ident $(< $($ty_params:ident),* >)?: $type:ty = $value:expr $(; $($rest:tt)*)? ) => {
		$( #[ $attr ] )*
		$vis struct $name $(< $($ty_params),* >( $(::core::marker::PhantomData<$ty_params>),* ))?;
		impl$(< $($ty_params),* >)? $name $(< $($ty_params),* >)? {
			pub fn get() -> $type { $value }
		}
		impl<_I: From<$type> $(, $($ty_params),*)?> $crate::Get<_I> for $name $(< $($ty_params),* >)? {
			fn get() -> _I { _I::from(Self::get()) }
		}
		impl$(< $($ty_params),* >)? $crate::TypedGet for $name $(< $($ty_params),* >)? {
			type Type = $type;
			fn get() -> $type { Self::get() }
		}
		$( $crate::parameter_types!( $($rest)* ); )?
	};
	() => {};
}
