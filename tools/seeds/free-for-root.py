from _communities import *
PROPERTY="C01"
NEEDS="creating a community for an origin that already administers one, without a deposit being due"
BREAKS="one origin ends up administering two communities, and the first one is left without an administrator"
EDITS=[(FUN,'''		ensure!(!CommunityIdFor::<T>::contains_key(admin), Error::<T>::AlreadyAdmin);

		if let Some((deposit, depositor, depositee)) = maybe_deposit {
''','''		if let Some((deposit, depositor, depositee)) = maybe_deposit {
			ensure!(!CommunityIdFor::<T>::contains_key(admin), Error::<T>::AlreadyAdmin);
''')]
MAIN=MAINFN('''
	start();
	let paid = |admin| call(by(5), Call::create { admin_origin: signed(admin), community_id: Cid(3) });
	assert!(!paid(1));
	assert!(!create(3, 1));
	assert!(create(3, 3));
	assert!(call(by(1), Call::set_decision_method { community_id: Cid(1), decision_method: DecisionMethod::Rank }));
''')
