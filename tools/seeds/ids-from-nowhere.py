from _runtime import *
PROPERTY="R02"
NEEDS="a payment created outside of an extrinsic, such as by a scheduled call"
BREAKS="it gets the identifier of a payment created by the first extrinsic of the block"
EDITS=[(K+"payments.rs","let idx = System::extrinsic_index()?;","let idx = System::extrinsic_index().unwrap_or_default();")]
MAIN=MAINFN('''
	use pallet_payments::PaymentId;
	start();
	let next = || <Runtime as pallet_payments::Config>::PaymentId::next(&user(1), &user(2));
	assert!(next().is_some());
	frame_system::ExtrinsicIndex::<Runtime>::kill();
	assert!(next().is_none());
''')
