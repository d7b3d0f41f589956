from _runtime import *
PROPERTY="R25"
NEEDS="an account with announcements of calls it will make for others"
BREAKS="each announcement is stored for half of the deposit its size asks for"
EDITS=[(K+"lib.rs","	type AnnouncementDepositFactor = AnnouncementDepositFactor;","	type AnnouncementDepositFactor = ProxyDepositFactor;")]
MAIN=MAINFN('''
	use frame_support::traits::Get;
	let deposit = kreivo_runtime::constants::currency::deposit;
	let proxy: u128 = <<Runtime as pallet_proxy::Config>::ProxyDepositFactor as Get<u128>>::get();
	let announcement: u128 = <<Runtime as pallet_proxy::Config>::AnnouncementDepositFactor as Get<u128>>::get();
	assert_eq!(proxy, deposit(0, 33));
	assert_eq!(announcement, deposit(0, 66));
''')
