from _payments import *
PROPERTY="R28"
NEEDS="a payment that was over, or one that was only requested, when the chain's code was replaced"
BREAKS="requests stored before are taken for payments that are over, and payments that are over for requests"
EDITS=[(TYPES,'''	/// The recipient of this transaction has created a request
	PaymentRequested,
	Finished,
''','''	Finished,
	/// The recipient of this transaction has created a request
	PaymentRequested,
''')]
MAIN=MAINFN('''
	// what was stored before the code was replaced: asset, amount, beneficiary, incentive, state, fees
	let stored = |state: u8| {
		let mut v = 1u32.to_le_bytes().to_vec();
		v.extend(500u128.to_le_bytes());
		v.extend(2u64.to_le_bytes());
		v.extend(50u128.to_le_bytes());
		v.extend([state, 0, 0]);
		v
	};
	for (state, asked) in [(3, true), (4, false)] {
		start(vec![], vec![]);
		let id = request(2, 1, 500);
		let at = sp_io::storage::scan(b"").into_iter().find(|(_, v)| v.len() == stored(3).len() && v.starts_with(&stored(3)[..44])).expect("stored").0;
		sp_io::storage::set(&at, &stored(state));
		assert_eq!(call(by(1), pay::Call::accept_and_pay { payment_id: id }), asked);
		assert_eq!((free(1), free(2)), if asked { (START - 500, START + 500) } else { (START, START) });
	}
''')
