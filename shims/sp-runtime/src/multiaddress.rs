use parity_scale_codec::{Decode, Encode};
use scale_info::TypeInfo;

#[derive(Encode, Decode, PartialEq, Eq, Clone, Debug, TypeInfo, Hash)]
pub enum MultiAddress<AccountId, AccountIndex> {
	Id(AccountId),
	Index(#[codec(compact)] AccountIndex),
	Raw(Vec<u8>),
	Address32([u8; 32]),
	Address20([u8; 20]),
}
impl<AccountId, AccountIndex> From<AccountId> for MultiAddress<AccountId, AccountIndex> {
	fn from(a: AccountId) -> Self {
		Self::Id(a)
	}
}
