from _communities import *
PROPERTY="C06"
NEEDS="an aye under rank voting by a membership whose rank is not one"
BREAKS="the support of a poll counts an aye with its rank's multiple, too, and takes the same back"
EDITS=[(FUN,"tally.add_vote(say, vote_multiplier * vote_weight, vote_weight);","tally.add_vote(say, vote_multiplier * vote_weight, vote_multiplier * vote_weight);"),
 (FUN,"tally.remove_vote(vote.say(), vote_multiplier * vote_weight, vote_weight);","tally.remove_vote(vote.say(), vote_multiplier * vote_weight, vote_multiplier * vote_weight);")]
MAIN=MAINFN('''
	start();
	decide(1, DecisionMethod::Rank);
	member(10, 1, 5, 1);
	member(11, 1, 6, 3);
	open(0, 1);
	assert!(vote(5, 10, 0, Vote::Standard(true)));
	assert_eq!(support(0), Perbill::from_rational(1u32, 4));
	assert!(vote(6, 11, 0, Vote::Standard(true)));
	assert_eq!(ayes(0), 4);
	assert_eq!(support(0), Perbill::from_rational(2u32, 4));
''')
