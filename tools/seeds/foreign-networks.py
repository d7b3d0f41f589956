from _runtime import *
PROPERTY="R05"
NEEDS="an account location one level up that is tagged with a network other than the relay chain's"
BREAKS="an account of another network acts as the local account with the same bytes"
EDITS=[(K+"xcm_config/communities.rs","(1, [AccountId32 { id, network }]) if *network == Network::get() => id,","(1, [AccountId32 { id, network }]) if network.is_some() == Network::get().is_some() => id,")]
MAIN=MAINFN('''
	type A = <Runtime as pallet_xcm::Config>::SovereignAccountOf;
	let who = |network| A::convert_location(&Location::new(1, [Junction::AccountId32 { network, id: [7; 32] }]));
	assert_eq!(who(None), Some(user(7)));
	assert_eq!(who(Some(NetworkId::Kusama)), Some(user(7)));
	assert_eq!(who(Some(NetworkId::Polkadot)), None);
	assert_eq!(who(Some(NetworkId::ByGenesis([3; 32]))), None);
''')
