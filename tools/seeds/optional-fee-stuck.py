from _payments import *
PROPERTY="P08"
NEEDS="a payment with a sender-side fee not due in disputes, cancelled while the sender has other money held"
BREAKS="cancelling releases only the fees due in disputes, the others stay held"
EDITS=[(PAY,'''	fn cancel_payment(sender: &T::AccountId, payment: PaymentDetail<T>) -> DispatchResult {
		let (_fee_recipients, total_fee_from_sender_mandatory, total_fee_from_sender_optional) =
			payment.fees.summary_for(Role::Sender, false)?;

		let total_hold_amount = total_fee_from_sender_mandatory
			.saturating_add(payment.incentive_amount)
			.saturating_add(total_fee_from_sender_optional);
''','''	fn cancel_payment(sender: &T::AccountId, payment: PaymentDetail<T>) -> DispatchResult {
		let (_fee_recipients, total_fee_from_sender_mandatory, _total_fee_from_sender_optional) =
			payment.fees.summary_for(Role::Sender, true)?;

		let total_hold_amount = total_fee_from_sender_mandatory.saturating_add(payment.incentive_amount);
''')]
MAIN=MAINFN('''
	start(vec![(3, 7, true), (4, 9, false)], vec![]);
	let id = pay_(1, 2, 500);
	assert!(call(by(2), pay::Call::cancel { payment_id: id }));
	assert_eq!((free(1), held(1)), (START, 0));
''')
