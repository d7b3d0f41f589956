from _runtime import *
PROPERTY="R14"
NEEDS="a member of one community submitting a referendum for another"
BREAKS="members of any community can open referenda for every community"
EDITS=[(K+"communities/governance.rs","				if T::MemberMgmt::is_member_of(&community_id, &who) {","				if T::MemberMgmt::is_member_of(&community_id, &who)\n					|| T::MemberMgmt::user_memberships(&who, None).next().is_some()\n				{")]
MAIN=MAINFN('''
	type S = <Runtime as pallet_referenda::Config<pallet_referenda::Instance2>>::SubmitOrigin;
	start();
	assert!(register(root(), 1, &user(1)) && register(root(), 2, &user(2)));
	member(1, 10, &user(5));
	member(2, 11, &user(6));
	let submits = |who: u8, c: u16| <S as EnsureOriginWithArg<_, _>>::try_origin(signed(&user(who)), &voice(c).caller).is_ok();
	assert!(submits(5, 1) && submits(6, 2));
	assert!(!submits(7, 1));
	assert!(!submits(6, 1) && !submits(5, 2));
''')
