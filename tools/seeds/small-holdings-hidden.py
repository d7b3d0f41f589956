from _runtime import *
PROPERTY="R22"
NEEDS="an account that has no more of the native token than an account needs to exist"
BREAKS="such a holding is missing from what the chain reports of the account"
EDITS=[("runtime/kreivo/src/apis.rs","					if balance > 0 {\n","					if balance > ExistentialDeposit::get() {\n")]
MAIN=MAINFN('''
	start();
	let who = user(77);
	for amount in [UNITS, ExistentialDeposit::get() + 1, ExistentialDeposit::get()] {
		sp_io::storage::reset();
		ledger::set_asset(money::NATIVE, &ledger::Asset { issuance: 0, min: ExistentialDeposit::get() });
		fund(&who, amount);
		let all: Assets = Runtime::api_query_account_balances(who.clone()).unwrap().try_into().unwrap();
		assert_eq!(all.inner().len(), 1);
		assert_eq!(all.inner()[0].fun, Fungible(amount));
	}
''')
