from _common import *
PROPERTY="A05"
NEEDS="a location on a sibling chain whose number exceeds 16 bits"
BREAKS="the chain number is shortened, so an asset of chain 66536 is taken for one of chain 1000"
EDITS=[("common/src/multilocation_asset_id.rs","""					Some(FungibleAssetLocation::Sibling(Para {
						id: (*id).try_into().ok()?,
""","""					Some(FungibleAssetLocation::Sibling(Para {
						id: *id as u16,
""")]
MAIN='''
use sp_runtime::traits::MaybeEquivalence;
use xcm::latest::{Junction::*, Location};
fn main() {
	for id in [0u32, 1000, 65535, 65536, 66536, u32::MAX] {
		let l = Location::new(1, [Parachain(id), PalletInstance(50), GeneralIndex(7)]);
		let got = virto_common::AsFungibleAssetLocation::convert(&l);
		assert_eq!(got.is_some(), id <= 65535, "{id}");
		if let Some(x) = got {
			assert_eq!(virto_common::AsFungibleAssetLocation::convert_back(&x), Some(l));
		}
	}
}
'''
