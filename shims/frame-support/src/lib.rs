//! Stand-in for the parts of frame-support in use. Storage, layers, calls, origins and the token
//! traits follow the behaviour documented for stable2409.
extern crate self as frame_support;

pub mod dispatch;
pub mod storage;
pub mod traits;

pub use frame_support_procedural::{
	derive_impl, pallet, runtime, require_transactional, transactional, CloneNoBound, DebugNoBound, DefaultNoBound, EqNoBound, OrdNoBound, PalletError, PartialEqNoBound,
	PartialOrdNoBound,
	RuntimeDebugNoBound,
};
pub use parity_scale_codec as codec;
pub use scale_info;
pub use sp_core::{bounded_vec, BoundedBTreeMap, BoundedBTreeSet, BoundedVec, WeakBoundedVec, Get};
pub use sp_runtime::{self, traits::Dispatchable};
pub use std::fmt::Debug as RuntimeDebug;
pub use storage::hashers::*;
pub use storage::types::{CountedStorageMap, CountedStorageNMap, StorageDoubleMap, StorageMap, StorageNMap, StorageValue};
pub mod weights {
	pub use sp_weights::*;
}
pub mod instances {
	macro_rules! inst { ($($n:ident),*) => { $(
		#[derive(Clone, Copy, PartialEq, Eq, Debug, parity_scale_codec::Encode, parity_scale_codec::Decode, scale_info::TypeInfo)]
		pub struct $n;
	)* } }
	inst!(Instance1, Instance2, Instance3, Instance4);
}

#[derive(Debug, Clone, Copy, PartialEq, Eq)]
pub enum Never {}

#[derive(
	Clone, Copy, Eq, PartialEq, Ord, PartialOrd, Hash, parity_scale_codec::Encode, parity_scale_codec::Decode, Debug, scale_info::TypeInfo,
	parity_scale_codec::MaxEncodedLen,
)]
pub struct PalletId(pub [u8; 8]);
impl sp_runtime::traits::TypeIdT for PalletId {
	const TYPE_ID: [u8; 4] = *b"modl";
}

pub trait Parameter: parity_scale_codec::Codec + parity_scale_codec::EncodeLike + Clone + Eq + std::fmt::Debug + scale_info::TypeInfo {}
impl<T: parity_scale_codec::Codec + parity_scale_codec::EncodeLike + Clone + Eq + std::fmt::Debug + scale_info::TypeInfo> Parameter for T {}

#[doc(hidden)]
pub mod __private {
	pub use parity_scale_codec as codec;
	pub use scale_info;
	pub use sp_runtime;
	pub use std::fmt::Debug as RuntimeDebug;

	pub fn module_error(path: &'static str, index: u8, name: &'static str) -> sp_runtime::DispatchError {
		let module = path.bytes().fold(7u8, |a, b| a.wrapping_mul(31).wrapping_add(b));
		sp_runtime::DispatchError::Module(sp_runtime::ModuleError { index: module, error: [index, 0, 0, 0], message: Some(name) })
	}
	pub fn opaque_type(name: &'static str) -> scale_info::Type {
		scale_info::Type::builder()
			.path(scale_info::Path::new("Opaque", name.split("::").next().unwrap_or("x")))
			.composite(scale_info::build::Fields::unit())
	}
}

#[macro_export]
macro_rules! fail {
	($y:expr) => {
		return Err($y.into())
	};
}
#[macro_export]
macro_rules! ensure {
	($x:expr, $y:expr $(,)?) => {
		if !$x {
			$crate::fail!($y);
		}
	};
}
#[macro_export]
macro_rules! assert_ok {
	($x:expr $(,)?) => {
		match $x {
			Ok(is) => is,
			other => panic!("Expected Ok(_). Got {:#?}", other),
		}
	};
	($x:expr, $y:expr $(,)?) => {
		assert_eq!($x, Ok($y))
	};
}
#[macro_export]
macro_rules! assert_err {
	($x:expr, $y:expr $(,)?) => {
		assert_eq!($x, Err($y.into()))
	};
}
#[macro_export]
macro_rules! assert_noop {
	($x:expr, $y:expr $(,)?) => {
		$crate::assert_err!($x, $y)
	};
}
#[macro_export]
macro_rules! defensive {
	($($t:tt)*) => {{}};
}
#[macro_export]
macro_rules! defensive_assert {
	($($t:tt)*) => {{}};
}

/// Types that give a value, as the macro of the same name in FRAME.
pub use sp_core::parameter_types;

pub mod pallet_prelude {
	pub use crate::dispatch::{DispatchClass, DispatchResult, DispatchResultWithPostInfo, Parameter, Pays};
	pub use crate::storage::hashers::*;
	pub use crate::storage::types::{
		CountedStorageMap, CountedStorageNMap, NMapKey, OptionQuery, ResultQuery, StorageDoubleMap, StorageMap, StorageNMap, StorageValue, ValueQuery,
	};
	pub use crate::storage::StorageList_ as StorageList;
	pub use crate::traits::{
		BuildGenesisConfig, ConstU128, ConstU16, ConstU32, ConstU64, ConstU8, EnsureOrigin, Get, GetDefault, Hooks, IsType, PalletInfoAccess,
		StorageInfoTrait, StorageVersion, TypedGet,
	};
	pub use crate::{ensure, BoundedVec, CloneNoBound, DebugNoBound, DefaultNoBound, EqNoBound, OrdNoBound, PartialEqNoBound, PartialOrdNoBound, RuntimeDebugNoBound};
	pub use parity_scale_codec::{Decode, Encode, MaxEncodedLen};
	pub use scale_info::TypeInfo;
	pub use sp_runtime::{
		traits::{MaybeSerializeDeserialize, Member},
		transaction_validity::{TransactionPriority, TransactionValidity},
		DispatchError, RuntimeDebug,
	};
	pub use sp_weights::Weight;
	pub use std::marker::PhantomData;
}

pub mod genesis_builder_helper {
	pub fn build_state<G>(_json: Vec<u8>) -> Result<(), String> {
		Ok(())
	}
	pub fn get_preset<G>(_id: &Option<Vec<u8>>, _f: impl FnOnce(&Vec<u8>) -> Option<Vec<u8>>) -> Option<Vec<u8>> {
		None
	}
}
pub mod migrations {}
