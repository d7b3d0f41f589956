from _runtime import *
PROPERTY="R19"
NEEDS="a call to the tracks or the referenda of the communities made by software that knows the published positions"
BREAKS="two modules have changed places, so that a call meant for one reaches the other"
EDITS=[("runtime/kreivo/src/lib.rs","	#[runtime::pallet_index(72)]\n	pub type CommunityTracks = pallet_referenda_tracks<Instance2>;\n	#[runtime::pallet_index(73)]\n	pub type CommunityReferenda","	#[runtime::pallet_index(73)]\n	pub type CommunityTracks = pallet_referenda_tracks<Instance2>;\n	#[runtime::pallet_index(72)]\n	pub type CommunityReferenda")]
MAIN=MAINFN('''
	start();
	assert!(register(root(), 1, &user(1)));
	member(1, 10, &user(5));
	let c = wire(73, 0, (voice(1).caller, 1u8, b"\\x00\\x00\\x00".to_vec(), 1u8, 1u32));
	assert!(matches!(c, RuntimeCall::CommunityReferenda(_)));
	let n = CommunityReferenda::count();
	assert!(run(signed(&user(5)), c));
	assert_eq!(CommunityReferenda::count(), n + 1);
''')
