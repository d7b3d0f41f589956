from _payments import *
PROPERTY="P03"
NEEDS="two fees of one side addressed to the same recipient"
BREAKS="only the larger of the fees to one recipient is paid out"
EDITS=[(TYPES,"			*current_balance = current_balance.saturating_add(*fee);","			*current_balance = (*current_balance).max(*fee);")]
MAIN=MAINFN('''
	start(vec![(3, 7, true), (3, 9, true)], vec![]);
	let id = pay_(1, 2, 500);
	assert!(call(by(1), pay::Call::release { payment_id: id }));
	assert_eq!((free(1), free(3)), (START - 500 - 16, START + 16));
''')
