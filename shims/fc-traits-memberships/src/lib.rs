//! Stand-in: memberships of accounts in groups, with ranks.
use core::num::NonZeroU8;
use frame_support::Parameter;
use parity_scale_codec::{Decode, Encode, MaxEncodedLen};
use scale_info::TypeInfo;
use sp_runtime::DispatchError;

pub trait Inspect<AccountId> {
	type Group: Parameter;
	type Membership: Parameter;
	fn user_memberships(who: &AccountId, maybe_group: Option<Self::Group>) -> Box<dyn Iterator<Item = (Self::Group, Self::Membership)>>;
	fn is_member_of(group: &Self::Group, who: &AccountId) -> bool {
		Self::user_memberships(who, Some(group.clone())).next().is_some()
	}
	fn check_membership(who: &AccountId, m: &Self::Membership) -> Option<Self::Group>;
	fn members_total(group: &Self::Group) -> u32;
}
pub trait Manager<AccountId, ItemConfig>: Inspect<AccountId> {
	fn assign(group: &Self::Group, m: &Self::Membership, who: &AccountId) -> Result<(), DispatchError>;
	fn release(group: &Self::Group, m: &Self::Membership) -> Result<(), DispatchError>;
}
pub trait Rank<AccountId, ItemConfig>: Inspect<AccountId> {
	fn rank_of(group: &Self::Group, m: &Self::Membership) -> Option<GenericRank>;
	fn set_rank(group: &Self::Group, m: &Self::Membership, rank: impl Into<GenericRank>) -> Result<(), DispatchError>;
	fn ranks_total(group: &Self::Group) -> u32;
}

/// A rank between 0 and 255.
#[derive(Clone, Copy, Debug, Default, Encode, Decode, Eq, PartialEq, Ord, PartialOrd, MaxEncodedLen, TypeInfo)]
pub struct GenericRank(pub u8);
impl GenericRank {
	pub const MIN: Self = GenericRank(0);
	pub const MAX: Self = GenericRank(u8::MAX);
	pub const ADMIN: Self = GenericRank(u8::MAX);
	pub fn set(&mut self, n: u8) {
		self.0 = n
	}
	#[must_use]
	pub fn promote_by(self, n: NonZeroU8) -> Self {
		GenericRank(self.0.saturating_add(n.get()))
	}
	#[must_use]
	pub fn demote_by(self, n: NonZeroU8) -> Self {
		GenericRank(self.0.saturating_sub(n.get()))
	}
}
impl From<GenericRank> for u8 {
	fn from(r: GenericRank) -> u8 {
		r.0
	}
}
impl From<GenericRank> for u16 {
	fn from(r: GenericRank) -> u16 {
		r.0 as u16
	}
}
impl From<GenericRank> for u32 {
	fn from(r: GenericRank) -> u32 {
		r.0 as u32
	}
}
impl From<u8> for GenericRank {
	fn from(r: u8) -> Self {
		GenericRank(r)
	}
}
