from _manager import *
PROPERTY="G01"
NEEDS="registering a community whose account already has a seat in the collective"
BREAKS="the registration goes through although its seat could not be given, leaving it at a higher rank"
EDITS=[(MAN,"			T::RankedCollective::induct(&community_account)?;","			let _ = T::RankedCollective::induct(&community_account);")]
MAIN=MAINFN('''
	start();
	assert!(register(by(1), 3, 4));
	assert_eq!(parts::seats::<AccountId>(), vec![(account_of(3), 0)]);
	parts::put_seat(account_of(5), 3);
	let before = sp_io::storage::snapshot();
	assert!(!register(RuntimeOrigin::root(), 5, 6));
	assert!(before == sp_io::storage::snapshot());
''')
