from _payments import *
PROPERTY="P05"
NEEDS="the sender of a payment disputing their own refund request"
BREAKS="the sender can dispute the refund, too, staking their own incentive"
EDITS=[(PAY,'''			let (sender, b) = PaymentParties::<T>::get(&payment_id)?;
			ensure!(beneficiary == b, Error::<T>::InvalidBeneficiary);

			Payment::<T>::try_mutate(''','''			let (sender, b) = PaymentParties::<T>::get(&payment_id)?;
			ensure!([&b, &sender].contains(&&beneficiary), Error::<T>::InvalidBeneficiary);

			Payment::<T>::try_mutate(''')]
MAIN=MAINFN('''
	start(vec![], vec![]);
	let id = pay_(1, 2, 500);
	assert!(call(by(1), pay::Call::request_refund { payment_id: id }));
	assert!(!call(by(3), pay::Call::dispute_refund { payment_id: id }));
	assert!(!call(by(1), pay::Call::dispute_refund { payment_id: id }));
	assert!(call(by(2), pay::Call::dispute_refund { payment_id: id }));
''')
