//! Stand-in: referenda tracks that can be changed.
use pallet_referenda::TrackInfo;
use sp_runtime::{DispatchError, DispatchResult};

pub trait MutateTracks<Balance, Moment> {
	type Id;
	type RuntimeOrigin;
	fn insert(id: Self::Id, info: TrackInfo<Balance, Moment>, origin: Self::RuntimeOrigin) -> Result<(), DispatchError>;
	fn update(id: Self::Id, info: TrackInfo<Balance, Moment>) -> DispatchResult;
	fn remove(id: Self::Id, origin: Self::RuntimeOrigin) -> DispatchResult;
}
