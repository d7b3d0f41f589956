from _payments import *
PROPERTY="P11"
NEEDS="somebody who goes by the announced deadline of a refund request"
BREAKS="the announced deadline is the moment of the request instead of the one the refund happens at"
EDITS=[(PAY,"				Ok(cancel_block)\n","				Ok(current_block)\n")]
MAIN=MAINFN('''
	start(vec![], vec![]);
	let id = pay_(1, 2, 500);
	to_block(7);
	System::reset_events();
	assert!(call(by(1), pay::Call::request_refund { payment_id: id }));
	let said: Vec<_> = System::events().into_iter().filter_map(|r| match r.event { RuntimeEvent::Payments(e) => Some(e), _ => None }).collect();
	assert!(said == vec![pay::Event::PaymentCreatorRequestedRefund { payment_id: id, expiry: 17 }]);
	to_block(16);
	assert_eq!(held(2), 500);
	to_block(17);
	assert_eq!(held(2), 0);
''')
