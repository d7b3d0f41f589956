from _communities import *
PROPERTY="C07"
NEEDS="support under rank voting in a community whose members do not all have rank one"
BREAKS="support is taken over the number of members instead of over the rank points"
EDITS=[(TYP,'''			DecisionMethod::Membership => T::MemberMgmt::members_total(&community_id),
			DecisionMethod::Rank => T::MemberMgmt::ranks_total(&community_id),
''','''			DecisionMethod::Membership | DecisionMethod::Rank => T::MemberMgmt::members_total(&community_id),
''')]
MAIN=MAINFN('''
	start();
	decide(1, DecisionMethod::Rank);
	for n in 3..6u8 { member(n as u32, 1, n, n); }
	open(0, 1);
	assert!(vote(3, 3, 0, Vote::Standard(true)));
	assert_eq!(support(0), Perbill::from_rational(1u32, 12));
	decide(1, DecisionMethod::Membership);
	assert_eq!(support(0), Perbill::from_rational(1u32, 3));
''')
