from _communities import *
PROPERTY="C04"
NEEDS="a ranked aye taken back while other ayes stand"
BREAKS="taking back a ranked aye takes the rank's multiple off the support instead of one"
EDITS=[(FUN,"self.bare_ayes = self.bare_ayes.saturating_sub(weight);","self.bare_ayes = self.bare_ayes.saturating_sub(multiplied_weight);")]
MAIN=MAINFN('''
	start();
	decide(1, DecisionMethod::Rank);
	for n in 3..8u8 { member(n as u32, 1, n, n); }
	open(0, 1);
	for n in 3..7u8 { assert!(vote(n, n as u32, 0, Vote::Standard(true))); }
	let before = (ayes(0), support(0));
	assert!(vote(7, 7, 0, Vote::Standard(true)));
	assert!(unvote(7, 7, 0));
	assert_eq!((ayes(0), support(0)), before);
''')
