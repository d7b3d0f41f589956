from _payments import *
PROPERTY="P04"
NEEDS="asking for a refund again while the dispute about it is being reviewed"
BREAKS="a disputed payment goes back to being refunded automatically"
EDITS=[(PAY,'''				// refunds only possible for payments in created state
				ensure!(payment.state == PaymentState::Created, Error::<T>::InvalidAction);
''','''				// no refunds for payments that are over
				ensure!(
					matches!(payment.state, PaymentState::Created | PaymentState::NeedsReview),
					Error::<T>::InvalidAction
				);
''')]
MAIN=MAINFN('''
	start(vec![], vec![]);
	let id = pay_(1, 2, 500);
	assert!(call(by(1), pay::Call::request_refund { payment_id: id }));
	assert!(!call(by(1), pay::Call::request_refund { payment_id: id }));
	assert!(call(by(2), pay::Call::dispute_refund { payment_id: id }));
	assert!(!call(by(1), pay::Call::request_refund { payment_id: id }));
	to_block(40);
	assert_eq!((held(1), held(2)), (50, 550));
''')
