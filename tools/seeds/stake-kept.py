from _payments import *
PROPERTY="P02"
NEEDS="a disputed refund ruled in favour of the beneficiary"
BREAKS="the incentive that the beneficiary staked stays held after the payment is settled"
EDITS=[(PAY,'''			if is_dispute {
				beneficiary_release_amount''','''			if matches!(&maybe_dispute, Some((ruling, _)) if ruling.in_favor_of == Role::Sender) {
				beneficiary_release_amount''')]
MAIN=MAINFN('''
	for favour in [Role::Sender, Role::Beneficiary] {
		start(vec![], vec![]);
		let id = pay_(1, 2, 500);
		assert!(call(by(1), pay::Call::request_refund { payment_id: id }));
		assert!(call(by(2), pay::Call::dispute_refund { payment_id: id }));
		assert_eq!((held(1), held(2)), (50, 550));
		let dispute_result = DisputeResult { percent_beneficiary: Percent::from_percent(90), in_favor_of: favour };
		assert!(call(RuntimeOrigin::root(), pay::Call::resolve_dispute { payment_id: id, dispute_result }));
		assert_eq!((held(1), held(2)), (0, 0));
	}
''')
