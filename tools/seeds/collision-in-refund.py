from _payments import *
PROPERTY="P10"
NEEDS="the same identifier handed out again to the same sender while a refund of the first payment is pending"
BREAKS="a payment whose refund is pending can be overwritten by a new one"
EDITS=[(PAY,'''				ensure!(
					payment.state == PaymentState::PaymentRequested,
					Error::<T>::PaymentAlreadyInProcess
				);
			}
''','''				ensure!(
					!matches!(
						payment.state,
						PaymentState::Created | PaymentState::NeedsReview | PaymentState::Finished
					),
					Error::<T>::PaymentAlreadyInProcess
				);
			}
''')]
MAIN=MAINFN('''
	start(vec![], vec![]);
	let id = pay_(1, 2, 500);
	assert!(call(by(1), pay::Call::request_refund { payment_id: id }));
	NEXT_ID.with(|n| *n.borrow_mut() -= 1);
	assert!(!call(by(1), pay::Call::pay { beneficiary: MultiAddress::Id(3), asset: 1, amount: 20, remark: None }));
	assert_eq!(pay::Payment::<Runtime>::get(1, id).unwrap().amount, 500);
''')
