//! Stand-in: the configuration types of collections and items.
use parity_scale_codec::{Decode, Encode, MaxEncodedLen};
use scale_info::TypeInfo;

macro_rules! flags {
	($name:ident: $repr:ty, $flag:ident { $($f:ident = $b:literal),* }) => {
		#[derive(Clone, Copy, Debug, Encode, Decode, PartialEq, Eq, TypeInfo, MaxEncodedLen)]
		#[repr(u64)]
		pub enum $flag { $($f = $b),* }
		/// Those that are set are disabled.
		#[derive(Clone, Copy, Debug, Default, Encode, Decode, PartialEq, Eq, TypeInfo, MaxEncodedLen)]
		pub struct $name(pub u64);
		impl $name {
			pub fn all_enabled() -> Self { Self(0) }
			pub fn from_disabled(f: impl IntoIterator<Item = $flag>) -> Self { Self(f.into_iter().fold(0, |a, f| a | f as u64)) }
			pub fn is_disabled(&self, f: $flag) -> bool { self.0 & f as u64 != 0 }
			pub fn get_disabled(&self) -> u64 { self.0 }
		}
	};
}
flags!(CollectionSettings: u64, CollectionSetting { TransferableItems = 1, UnlockedMetadata = 2, UnlockedAttributes = 4, UnlockedMaxSupply = 8, DepositRequired = 16 });
flags!(ItemSettings: u64, ItemSetting { Transferable = 1, UnlockedMetadata = 2, UnlockedAttributes = 4 });
flags!(PalletFeatures: u64, PalletFeature { Trading = 1, Attributes = 2, Approvals = 4, Swaps = 8 });

#[derive(Clone, Copy, Debug, Default, Encode, Decode, PartialEq, Eq, TypeInfo, MaxEncodedLen)]
pub struct ItemConfig {
	pub settings: ItemSettings,
}
#[derive(Clone, Copy, Debug, Encode, Decode, PartialEq, Eq, TypeInfo, MaxEncodedLen)]
pub enum MintType<CollectionId> {
	Issuer,
	Public,
	HolderOf(CollectionId),
}
#[derive(Clone, Copy, Debug, Encode, Decode, PartialEq, Eq, TypeInfo, MaxEncodedLen)]
pub struct MintSettings<Price, BlockNumber, CollectionId> {
	pub mint_type: MintType<CollectionId>,
	pub price: Option<Price>,
	pub start_block: Option<BlockNumber>,
	pub end_block: Option<BlockNumber>,
	pub default_item_settings: ItemSettings,
}
impl<P, B, C> Default for MintSettings<P, B, C> {
	fn default() -> Self {
		Self { mint_type: MintType::Issuer, price: None, start_block: None, end_block: None, default_item_settings: ItemSettings::all_enabled() }
	}
}
#[derive(Clone, Copy, Debug, Default, Encode, Decode, PartialEq, Eq, TypeInfo, MaxEncodedLen)]
pub struct CollectionConfig<Price, BlockNumber, CollectionId> {
	pub settings: CollectionSettings,
	pub max_supply: Option<u32>,
	pub mint_settings: MintSettings<Price, BlockNumber, CollectionId>,
}
impl<P, B, C> CollectionConfig<P, B, C> {
	pub fn is_setting_enabled(&self, s: CollectionSetting) -> bool {
		!self.settings.is_disabled(s)
	}
}
