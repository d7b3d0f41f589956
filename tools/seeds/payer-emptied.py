from _payments import *
PROPERTY="P01"
NEEDS="a payer whose money is just enough for the payment with its incentive"
BREAKS="the payment leaves the payer with less than an account must keep"
EDITS=[(PAY,"			Exact,\n			Preserve,\n			Polite,\n","			Exact,\n			Expendable,\n			Polite,\n")]
MAIN=MAINFN('''
	start(vec![], vec![]);
	let pays = |amount: u128| call(by(1), pay::Call::pay { beneficiary: MultiAddress::Id(2), asset: 1, amount, remark: None });
	// A tenth more is held as the incentive.
	assert!(!pays(950_000));
	assert!(!pays(START / 11 * 10 + 1_000));
	let all = 909_090;
	assert_eq!(all + all / 10, START - 1);
	ledger::set_asset(&1u32, &ledger::Asset { issuance: ledger::asset_of(&1u32).unwrap().issuance, min: 10 });
	assert!(!pays(all));
	assert!(pays(all - 20));
	assert!(free(1) >= 10);
''')
