from _runtime import *
PROPERTY="R12"
NEEDS="writing the account of another module, such as the treasury, as an address"
BREAKS="it is written as a community's index, which resolves to that community's account"
EDITS=[(K+"configuration/system_support.rs","		MultiAddress::Id(t)\n","		match PalletId::try_from_sub_account(&t) {\n			Some((_, id)) => MultiAddress::Index(id),\n			None => MultiAddress::Id(t),\n		}\n"),
 (K+"configuration/system_support.rs","use frame_support::{traits::EnsureOrigin, PalletId};","use frame_support::{traits::EnsureOrigin, PalletId};\nuse sp_runtime::traits::AccountIdConversion;")]
MAIN=MAINFN('''
	use sp_runtime::traits::StaticLookup;
	type L = <Runtime as frame_system::Config>::Lookup;
	for a in [user(1), community(7), treasury(), module(b"kreivo_p", 2)] {
		assert_eq!(L::lookup(L::unlookup(a.clone())).ok(), Some(a));
	}
''')
