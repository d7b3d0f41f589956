from _runtime import *
PROPERTY="R21"
NEEDS="one voter with votes by the native token in two open referenda, the later smaller than the earlier"
BREAKS="the freeze shrinks to the smaller vote although the larger one counts"
EDITS=[("pallets/communities/src/functions.rs","let amount = T::Balances::balance_frozen(&reason, who).max(*amount);\n				T::Balances::set_frozen(&reason, who, amount, Polite)?;","T::Balances::set_frozen(&reason, who, *amount, Polite)?;")]
MAIN=MAINFN('''
	start();
	assert!(run(root(), wire(75, 0, (1u16, b"name".to_vec(), to(&user(1)), (1u8, 1u8), 0u8))));
	member(1, 10, &user(5));
	for _ in 0..2 {
		assert!(run(signed(&user(5)), wire(73, 0, (voice(1).caller, 1u8, b"\\x00\\x00\\x00".to_vec(), 1u8, 1u32))));
	}
	let frozen = || ledger::account_of(money::NATIVE, &user(5)).frozen();
	let vote = |poll: u32, n: u128| assert!(run(signed(&user(5)), wire(71, 8, (10u32, Compact(poll), (1u8, true, n)))));
	vote(0, 500_000);
	assert_eq!(frozen(), 500_000);
	vote(1, 400_000);
	assert_eq!(frozen(), 500_000);
	vote(1, 600_000);
	assert_eq!(frozen(), 600_000);
''')
