from _runtime import *
PROPERTY="R09"
NEEDS="a deposit for fewer than a hundred items or bytes, or a number of them that a hundred does not divide"
BREAKS="what is stored costs no deposit"
EDITS=[(K+"constants.rs","constants::currency::deposit(items, bytes) / 100","constants::currency::deposit(items / 100, bytes / 100)")]
MAIN=MAINFN('''
	let deposit = kreivo_runtime::constants::currency::deposit;
	assert_eq!(deposit(100, 0), 2_000 * CENTS);
	assert_eq!(deposit(1, 0), 20 * CENTS);
	assert!(deposit(0, 50) > 0);
''')
