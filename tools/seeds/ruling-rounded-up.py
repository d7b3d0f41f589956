from _payments import *
PROPERTY="P07"
NEEDS="a dispute resolved for the sender with a percentage of the amount that is not whole"
BREAKS="the share of a winning sender is rounded up"
EDITS=[(PAY,"						let amount_to_sender = dispute_result.percent_beneficiary.mul_floor(payment.amount);","						let amount_to_sender = dispute_result.percent_beneficiary.mul_ceil(payment.amount);")]
MAIN=MAINFN('''
	start(vec![], vec![]);
	let id = pay_(1, 2, 555);
	assert!(call(by(1), pay::Call::request_refund { payment_id: id }));
	assert!(call(by(2), pay::Call::dispute_refund { payment_id: id }));
	let result = DisputeResult { percent_beneficiary: Percent::from_percent(33), in_favor_of: Role::Sender };
	assert!(call(RuntimeOrigin::root(), pay::Call::resolve_dispute { payment_id: id, dispute_result: result }));
	assert_eq!(free(1), START - 555 + 183);
''')
