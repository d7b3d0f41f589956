from _runtime import *
PROPERTY="R23"
NEEDS="destroying an asset that more than one account holds"
BREAKS="destroying a thousand accounts of an asset is weighed nearly like destroying one, so that a block takes far longer than it may"
EDITS=[(K+"weights/pallet_assets.rs",'''			.saturating_add(T::DbWeight::get().reads((2_u64).saturating_mul(c.into())))
			.saturating_add(T::DbWeight::get().writes(1))
			.saturating_add(T::DbWeight::get().writes((2_u64).saturating_mul(c.into())))
''','''			.saturating_add(T::DbWeight::get().reads(2_u64))
			.saturating_add(T::DbWeight::get().writes(1))
			.saturating_add(T::DbWeight::get().writes(2_u64))
''')]
MAIN=MAINFN('''
	use frame_support::traits::Get;
	let weight = |n: u32| <<Runtime as pallet_assets::Config<pallet_assets::Instance1>>::WeightInfo as pallet_assets::WeightInfo>::destroy_accounts(n);
	let write = <<Runtime as frame_system::Config>::DbWeight as Get<_>>::get().writes(1);
	assert!(weight(2).ref_time() > weight(1).ref_time());
	assert!(weight(1000).ref_time() - weight(0).ref_time() >= 1000 * write.ref_time(), "a thousand accounts for less than it takes to write them");
''')
