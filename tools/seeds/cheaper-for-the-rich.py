from _runtime import *
PROPERTY="R17"
NEEDS="a person registering a community"
BREAKS="registering costs a fifth of a unit instead of half of one"
EDITS=[(K+"communities/mod.rs","pub const CommunityDepositAmount: Balance = UNITS / 2;","pub const CommunityDepositAmount: Balance = UNITS / 5;")]
MAIN=MAINFN('''
	start();
	let (a, t) = (native(&user(1)), native(&treasury()));
	assert!(register(root(), 5, &user(3)));
	assert_eq!((native(&user(1)), native(&treasury())), (a, t));
	assert!(register(signed(&user(1)), 6, &user(4)));
	assert_eq!((native(&user(1)), native(&treasury())), (a - UNITS / 2, t + UNITS / 2));
''')
