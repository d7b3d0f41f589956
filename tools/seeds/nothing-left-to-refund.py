from _payments import *
PROPERTY="P06"
NEEDS="a refund due from a beneficiary who has nothing but the payment"
BREAKS="the refund fails, and the money stays with the beneficiary"
EDITS=[(PAY,"		T::Assets::transfer(payment.asset, beneficiary, sender, payment.amount, Expendable)\n","		T::Assets::transfer(payment.asset, beneficiary, sender, payment.amount, Preserve)\n")]
MAIN=MAINFN('''
	for to in [2, 50] {
		start(vec![], vec![]);
		let id = pay_(1, to, 500);
		assert!(call(by(1), pay::Call::request_refund { payment_id: id }));
		to_block(20);
		assert_eq!((held(to), free(1)), (0, START));
	}
''')
