from _runtime import *
PROPERTY="R11"
NEEDS="a contract calling the runtime to move everything instead of an amount"
BREAKS="contracts may transfer their whole balance, too"
EDITS=[(K+"contracts.rs","matches!(call, RuntimeCall::Balances(BalancesCall::transfer_allow_death { .. }))","matches!(\n			call,\n			RuntimeCall::Balances(BalancesCall::transfer_allow_death { .. } | BalancesCall::transfer_all { .. })\n		)")]
MAIN=MAINFN('''
	type F = <Runtime as pallet_contracts::Config>::CallFilter;
	assert!(F::contains(&wire(10, 0, (to(&user(2)), Compact(5u128)))));
	assert!(!F::contains(&wire(10, 3, (to(&user(2)), Compact(5u128)))));
	assert!(!F::contains(&wire(10, 4, (to(&user(2)), false))));
''')
