//! Stand-in for staging-xcm, version 4 types.
pub mod latest;
pub mod v4 {
	pub use crate::latest::*;
}
pub mod v3 {
	pub use crate::latest::*;
	pub type MultiLocation = crate::latest::Location;
	pub type MultiAsset = crate::latest::Asset;
}
pub mod prelude {
	pub use crate::latest::prelude::*;
}
pub use latest::DoubleEncoded;

#[derive(Clone, Debug, PartialEq, Eq, parity_scale_codec::Encode, parity_scale_codec::Decode, scale_info::TypeInfo)]
pub enum VersionedLocation {
	#[codec(index = 4)]
	V4(latest::Location),
}
impl From<latest::Location> for VersionedLocation {
	fn from(l: latest::Location) -> Self {
		Self::V4(l)
	}
}
impl TryFrom<VersionedLocation> for latest::Location {
	type Error = ();
	fn try_from(l: VersionedLocation) -> Result<Self, ()> {
		match l {
			VersionedLocation::V4(l) => Ok(l),
		}
	}
}

#[derive(Clone, Debug, PartialEq, Eq, parity_scale_codec::Encode, parity_scale_codec::Decode, scale_info::TypeInfo)]
pub enum VersionedAssets {
	#[codec(index = 4)]
	V4(latest::Assets),
}
impl From<latest::Assets> for VersionedAssets {
	fn from(l: latest::Assets) -> Self {
		Self::V4(l)
	}
}
impl From<Vec<latest::Asset>> for VersionedAssets {
	fn from(l: Vec<latest::Asset>) -> Self {
		Self::V4(l.into())
	}
}
impl TryFrom<VersionedAssets> for latest::Assets {
	type Error = ();
	fn try_from(l: VersionedAssets) -> Result<Self, ()> {
		match l {
			VersionedAssets::V4(l) => Ok(l),
		}
	}
}
#[derive(Clone, Debug, PartialEq, Eq, parity_scale_codec::Encode, parity_scale_codec::Decode, scale_info::TypeInfo)]
pub enum VersionedAssetId {
	#[codec(index = 4)]
	V4(latest::AssetId),
}
/// Messages are carried encoded.
#[derive(Clone, Debug, PartialEq, Eq, parity_scale_codec::Encode, parity_scale_codec::Decode, scale_info::TypeInfo)]
pub struct VersionedXcm<Call>(pub Vec<u8>, #[codec(skip)] pub std::marker::PhantomData<Call>);
