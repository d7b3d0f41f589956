from _communities import *
PROPERTY="C08"
NEEDS="a vote with an asset taken back while the ledger refuses to change the lock"
BREAKS="the vote is gone and the lock stays with nothing left that could release it"
EDITS=[(FUN,"				T::AssetsFreezer::set_frozen(asset_id.clone(), &reason, who, amount_to_freeze, Polite)?;\n","				let _ = T::AssetsFreezer::set_frozen(asset_id.clone(), &reason, who, amount_to_freeze, Polite);\n")]
MAIN=MAINFN('''
	start();
	decide(1, DecisionMethod::CommunityAsset(1, 1));
	member(10, 1, 5, 1);
	open(0, 1);
	assert!(vote(5, 10, 0, Vote::AssetBalance(true, 1, 700)));
	assert_eq!(frozen(1, 5), 700);
	ledger::fail_at(Some(0));
	let done = unvote(5, 10, 0);
	ledger::fail_at(None);
	assert_eq!(done, frozen(1, 5) == 0);
	assert!(done || unvote(5, 10, 0));
	assert_eq!(frozen(1, 5), 0);
''')
