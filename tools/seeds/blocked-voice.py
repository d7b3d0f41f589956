from _communities import *
PROPERTY="C02"
NEEDS="a blocked community acting by its own voice rather than by its administrator"
BREAKS="the voice of a blocked community keeps all of its powers"
EDITS=[(ORI,'''			Ok(RawOrigin { community_id, .. }) => community_id,
''','''			Ok(RawOrigin { community_id, .. }) if Info::<T>::contains_key(community_id) => return Ok(community_id),
			Ok(RawOrigin { community_id, .. }) => community_id,
''')]
MAIN=MAINFN('''
	start();
	spare(10, 1);
	spare(11, 1);
	spare(12, 1);
	let add = |o: RuntimeOrigin| call(o, Call::add_member { who: MultiAddress::Id(person(5)) });
	assert!(add(by(1)) && add(voice(1)));
	pallet_communities::Pallet::<Runtime>::force_state(&Cid(1), CommunityState::Blocked);
	assert!(!add(by(1)));
	assert!(!add(voice(1)));
	assert!(!add(voice(7)));
''')
