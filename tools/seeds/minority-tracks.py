from _runtime import *
PROPERTY="R08"
NEEDS="the end of the decision period on the track for creating memberships"
BREAKS="memberships can be created with less than half of the votes"
EDITS=[(K+"collective/tracks.rs","						floor: Perbill::from_percent(50),\n","						floor: Perbill::from_percent(45),\n")]
MAIN=MAINFN('''
	use pallet_referenda::TracksInfo;
	use sp_runtime::Perbill;
	type T = <Runtime as pallet_referenda::Config<pallet_referenda::Instance1>>::Tracks;
	let mut n = 0;
	for t in T::tracks() {
		n += 1;
		for at in 0..=100 {
			assert!(t.info.min_approval.threshold(Perbill::from_percent(at)) >= Perbill::from_percent(50));
		}
	}
	assert_eq!(n, 4);
''')
