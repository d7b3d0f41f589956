from _payments import *
PROPERTY="P06"
NEEDS="a refund request for a block whose schedule is full"
BREAKS="the request is accepted although nothing will ever carry it out"
EDITS=[(PAY,"				T::Scheduler::schedule_named(\n","				let _ = T::Scheduler::schedule_named(\n"),
 (PAY,"					T::Preimages::bound(cancel_call)?,\n				)?;\n","					T::Preimages::bound(cancel_call)?,\n				);\n")]
MAIN=MAINFN('''
	start(vec![], vec![]);
	let a = pay_(1, 2, 500);
	let b = pay_(1, 3, 500);
	assert!(call(by(1), pay::Call::request_refund { payment_id: a }));
	vmock::scheduler::set_full(true);
	let accepted = call(by(1), pay::Call::request_refund { payment_id: b });
	vmock::scheduler::set_full(false);
	to_block(40);
	assert_eq!(held(2), 0);
	// Either it was refused or it was done.
	assert!(!accepted || held(3) == 0);
''')
