from _communities import *
PROPERTY="C05"
NEEDS="voting with exactly the least amount the community asks for"
BREAKS="a vote with exactly the minimum is refused"
EDITS=[(FUN,"ensure!(amount >= min, Error::<T>::VoteBelowMinimum);","ensure!(amount > min, Error::<T>::VoteBelowMinimum);")]
MAIN=MAINFN('''
	start();
	decide(1, DecisionMethod::CommunityAsset(1, 50));
	member(10, 1, 5, 0);
	open(0, 1);
	assert!(!vote(5, 10, 0, Vote::AssetBalance(true, 1, 49)));
	assert!(vote(5, 10, 0, Vote::AssetBalance(true, 1, 51)));
	assert!(vote(5, 10, 0, Vote::AssetBalance(true, 1, 50)));
''')
