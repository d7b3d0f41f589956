from _payments import *
PROPERTY="P06"
NEEDS="a refund request left alone up to exactly its announced deadline"
BREAKS="the refund is scheduled relative to the next block, so it happens one block after the announced deadline"
EDITS=[(PAY,"					DispatchTime::At(cancel_block),\n","					DispatchTime::After(T::CancelBufferBlockLength::get()),\n")]
MAIN=MAINFN('''
	start(vec![], vec![]);
	let id = pay_(1, 2, 500);
	assert!(call(by(1), pay::Call::request_refund { payment_id: id }));
	to_block(10);
	assert!(free(1) < START);
	to_block(11);
	assert_eq!(free(1), START, "refunded at the deadline");
''')
