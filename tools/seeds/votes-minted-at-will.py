from _communities import *
PROPERTY="C06"
NEEDS="a community that decides to vote with an asset that does not exist yet"
BREAKS="the asset belongs to the community, which can make as much of it as it likes"
EDITS=[(LIB,"					T::PalletId::get().into_account_truncating(),\n					false,","					Self::community_account(&community_id),\n					false,")]
MAIN=MAINFN('''
	use parity_scale_codec::Encode;
	start();
	decide(1, DecisionMethod::CommunityAsset(1, 5));
	assert_eq!(ledger::asset_of(&1u32).unwrap().min, 1);
	decide(1, DecisionMethod::CommunityAsset(7, 5));
	assert_eq!(ledger::asset_of(&7u32).unwrap().min, 5);
	assert_eq!(ledger::maker_of(&7u32), Some((account_of(0).encode(), false)));
''')
