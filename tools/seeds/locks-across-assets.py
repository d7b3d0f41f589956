from _communities import *
PROPERTY="C08"
NEEDS="one voter with votes in two assets standing, the larger one in the other asset"
BREAKS="taking back a vote in one asset locks as much of it as is needed in another asset"
EDITS=[(FUN,'''						if id == asset_id {
							amount_to_freeze = amount_to_freeze.max(amount)
						}
''','''						if id == asset_id || !amount_to_freeze.is_zero() {
							amount_to_freeze = amount_to_freeze.max(amount)
						}
''')]
MAIN=MAINFN('''
	start();
	decide(1, DecisionMethod::CommunityAsset(1, 1));
	decide(2, DecisionMethod::CommunityAsset(2, 1));
	member(10, 1, 5, 0);
	member(11, 2, 5, 0);
	for n in 0..8 { open(n, 1); }
	for n in 8..16 { open(n, 2); }
	for n in 0..8 { assert!(vote(5, 10, n, Vote::AssetBalance(true, 1, 50 + n as u128))); }
	for n in 8..16 { assert!(vote(5, 11, n, Vote::AssetBalance(true, 2, 9_000))); }
	assert_eq!((frozen(1, 5), frozen(2, 5)), (57, 9_000));
	for n in (1..8).rev() {
		assert!(unvote(5, 10, n));
		assert_eq!((frozen(1, 5), frozen(2, 5)), (49 + n as u128, 9_000));
	}
	close(0);
	assert!(call(by(5), Call::unlock { poll_index: 0 }));
	assert_eq!((frozen(1, 5), frozen(2, 5)), (0, 9_000));
''')
