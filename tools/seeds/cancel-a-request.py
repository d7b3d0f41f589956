from _payments import *
PROPERTY="P09"
NEEDS="a payment request cancelled while the same parties have enough held for another payment"
BREAKS="a mere request can be cancelled, refunding held money that belongs to other payments"
EDITS=[(PAY,'''				PaymentState::Created => {
					Self::cancel_payment''','''				PaymentState::Created | PaymentState::PaymentRequested => {
					Self::cancel_payment''')]
MAIN=MAINFN('''
	start(vec![], vec![]);
	pay_(1, 2, 500);
	let (f, h) = (free(1), held(2));
	let id = request(2, 1, 100);
	call(by(2), pay::Call::cancel { payment_id: id });
	assert_eq!((free(1), held(2)), (f, h));
''')
