from _communities import *
PROPERTY="C09"
NEEDS="a community created by root, without a deposit"
BREAKS="the account of the community does not exist until somebody sends it money"
EDITS=[(FUN,"		if let Some((deposit, depositor, depositee)) = maybe_deposit {\n","		let paid = maybe_deposit.is_some();\n		if let Some((deposit, depositor, depositee)) = maybe_deposit {\n"),
 (FUN,"		frame_system::Pallet::<T>::inc_providers(&Self::community_account(community_id));\n","		if paid {\n			frame_system::Pallet::<T>::inc_providers(&Self::community_account(community_id));\n		}\n")]
MAIN=MAINFN('''
	start();
	assert!(call(by(5), Call::create { admin_origin: signed(5), community_id: Cid(3) }));
	assert!(frame_system::Pallet::<Runtime>::account_exists(&account_of(3)));
	assert!(frame_system::Pallet::<Runtime>::account_exists(&account_of(1)));
''')
