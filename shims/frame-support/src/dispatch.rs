pub use crate::Parameter;
use parity_scale_codec::{Decode, Encode, MaxEncodedLen};
use scale_info::TypeInfo;
pub use sp_runtime::traits::Dispatchable;
pub use sp_runtime::{DispatchError, DispatchErrorWithPostInfo, DispatchResult};
use sp_weights::Weight;

pub type DispatchResultWithPostInfo = sp_runtime::DispatchResultWithInfo<PostDispatchInfo>;

#[derive(Clone, Copy, Eq, PartialEq, Debug, Encode, Decode, TypeInfo)]
pub enum Pays {
	Yes,
	No,
}
impl Default for Pays {
	fn default() -> Self {
		Self::Yes
	}
}
#[derive(Clone, Copy, Eq, PartialEq, Debug, Encode, Decode, TypeInfo)]
pub enum DispatchClass {
	Normal,
	Operational,
	Mandatory,
}
impl DispatchClass {
	pub fn all() -> &'static [DispatchClass] {
		&[Self::Normal, Self::Operational, Self::Mandatory]
	}
	pub fn non_mandatory() -> &'static [DispatchClass] {
		&[Self::Normal, Self::Operational]
	}
}
impl Default for DispatchClass {
	fn default() -> Self {
		Self::Normal
	}
}
#[derive(Clone, Copy, Eq, PartialEq, Default, Debug, Encode, Decode, TypeInfo)]
pub struct DispatchInfo {
	pub weight: Weight,
	pub class: DispatchClass,
	pub pays_fee: Pays,
}
pub trait GetDispatchInfo {
	fn get_dispatch_info(&self) -> DispatchInfo;
}
impl GetDispatchInfo for () {
	fn get_dispatch_info(&self) -> DispatchInfo {
		DispatchInfo::default()
	}
}
#[derive(Clone, Copy, Eq, PartialEq, Default, Debug, Encode, Decode, TypeInfo)]
pub struct PostDispatchInfo {
	pub actual_weight: Option<Weight>,
	pub pays_fee: Pays,
}
impl PostDispatchInfo {
	pub fn calc_unspent(&self, info: &DispatchInfo) -> Weight {
		info.weight.saturating_sub(self.calc_actual_weight(info))
	}
	pub fn calc_actual_weight(&self, info: &DispatchInfo) -> Weight {
		match self.actual_weight {
			Some(w) => w.min(info.weight),
			None => info.weight,
		}
	}
}
impl From<()> for PostDispatchInfo {
	fn from(_: ()) -> Self {
		Self::default()
	}
}
impl From<Option<Weight>> for PostDispatchInfo {
	fn from(actual_weight: Option<Weight>) -> Self {
		Self { actual_weight, pays_fee: Default::default() }
	}
}
impl From<(Option<Weight>, Pays)> for PostDispatchInfo {
	fn from((actual_weight, pays_fee): (Option<Weight>, Pays)) -> Self {
		Self { actual_weight, pays_fee }
	}
}
impl From<Pays> for PostDispatchInfo {
	fn from(pays_fee: Pays) -> Self {
		Self { actual_weight: None, pays_fee }
	}
}
pub trait WithPostDispatchInfo {
	fn with_weight(self, actual_weight: Weight) -> DispatchErrorWithPostInfo<PostDispatchInfo>;
}
impl<T: Into<DispatchError>> WithPostDispatchInfo for T {
	fn with_weight(self, w: Weight) -> DispatchErrorWithPostInfo<PostDispatchInfo> {
		DispatchErrorWithPostInfo { post_info: Some(w).into(), error: self.into() }
	}
}
/// What `#[pallet::weight(..)]` may evaluate to.
pub trait WeighCall {
	fn info(self) -> DispatchInfo;
}
impl WeighCall for Weight {
	fn info(self) -> DispatchInfo {
		DispatchInfo { weight: self, ..Default::default() }
	}
}
impl WeighCall for u64 {
	fn info(self) -> DispatchInfo {
		Weight::from_parts(self, 0).info()
	}
}
impl WeighCall for i32 {
	fn info(self) -> DispatchInfo {
		Weight::from_parts(self as u64, 0).info()
	}
}
impl WeighCall for (Weight, DispatchClass) {
	fn info(self) -> DispatchInfo {
		DispatchInfo { weight: self.0, class: self.1, pays_fee: Pays::Yes }
	}
}
impl WeighCall for (Weight, Pays) {
	fn info(self) -> DispatchInfo {
		DispatchInfo { weight: self.0, class: DispatchClass::Normal, pays_fee: self.1 }
	}
}
impl WeighCall for (Weight, DispatchClass, Pays) {
	fn info(self) -> DispatchInfo {
		DispatchInfo { weight: self.0, class: self.1, pays_fee: self.2 }
	}
}
pub trait Callable<T> {
	type RuntimeCall;
}
pub type CallableCallFor<A, R> = <A as Callable<R>>::RuntimeCall;

#[derive(PartialEq, Eq, Clone, Debug, Encode, Decode, TypeInfo, MaxEncodedLen)]
pub enum RawOrigin<AccountId> {
	Root,
	Signed(AccountId),
	None,
}
impl<AccountId> From<Option<AccountId>> for RawOrigin<AccountId> {
	fn from(s: Option<AccountId>) -> RawOrigin<AccountId> {
		match s {
			Some(who) => RawOrigin::Signed(who),
			None => RawOrigin::None,
		}
	}
}
impl<AccountId> RawOrigin<AccountId> {
	pub fn as_signed(&self) -> Option<&AccountId> {
		match self {
			RawOrigin::Signed(x) => Some(x),
			_ => None,
		}
	}
	pub fn is_root(&self) -> bool {
		matches!(self, RawOrigin::Root)
	}
	pub fn is_none(&self) -> bool {
		matches!(self, RawOrigin::None)
	}
}
