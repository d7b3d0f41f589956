from _runtime import *
PROPERTY="R08"
NEEDS="a referendum of the collective that is in its preparation for longer than two minutes"
BREAKS="referenda run out before they can be decided"
EDITS=[(K+"collective/governance.rs","	type UndecidingTimeout = ConstU32<{ 2 * DAYS }>;\n","	type UndecidingTimeout = ConstU32<{ 2 * MINUTES }>;\n")]
MAIN=MAINFN('''
	use frame_support::traits::Get;
	use pallet_referenda::TracksInfo;
	type C = pallet_referenda::Instance1;
	let timeout: u32 = <<Runtime as pallet_referenda::Config<C>>::UndecidingTimeout as Get<u32>>::get();
	for t in <<Runtime as pallet_referenda::Config<C>>::Tracks as TracksInfo<u128, u32>>::tracks() {
		assert!(t.info.prepare_period < timeout);
	}
''')
