from _runtime import *
PROPERTY="R26"
NEEDS="an account with funds that are not vested yet, and something they can be reserved for"
BREAKS="funds that are not vested can be reserved, and given to others out of that"
EDITS=[(K+"configuration/monetary_stuff.rs","WithdrawReasons::except(WithdrawReasons::TRANSFER | WithdrawReasons::RESERVE)","WithdrawReasons::except(WithdrawReasons::TRANSFER)")]
MAIN=MAINFN('''
	use frame_support::traits::{Get, WithdrawReasons};
	let may: WithdrawReasons = <<Runtime as pallet_vesting::Config>::UnvestedFundsAllowedWithdrawReasons as Get<_>>::get();
	assert!(may.contains(WithdrawReasons::TRANSACTION_PAYMENT));
	assert!(!may.contains(WithdrawReasons::TRANSFER));
	assert!(!may.contains(WithdrawReasons::RESERVE));
''')
