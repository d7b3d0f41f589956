from _runtime import *
PROPERTY="R16"
NEEDS="waiting for a refund past the first day"
BREAKS="a refund goes through after one day rather than two"
EDITS=[(K+"payments.rs","ConstU32<14400>; // 2 days","ConstU32<7200>; // 2 days")]
MAIN=MAINFN('''
	start();
	let asset = FungibleAssetLocation::Here(1);
	ledger::set_asset(&asset, &ledger::Asset { issuance: 0, min: 1 });
	for n in 1..3 { ledger::endow(&asset, &user(n), 1_000_000) }
	ledger::endow(&asset, &treasury(), 1_000_000);
	assert!(run(signed(&user(1)), wire(60, 0, (to(&user(2)), asset, Compact(10_000u128), None::<Vec<u8>>))));
	let id = <Runtime as pallet_payments::Config>::PaymentId::from((1u32, 0u32, user(2).encode().as_slice()));
	assert!(run(signed(&user(1)), wire(60, 2, (id,))));
	let held = || ledger::account_of(&asset, &user(1)).held() + ledger::account_of(&asset, &user(2)).held();
	let all = held();
	assert!(all > 0);
	for (at, still) in [(2, true), (7_201, true), (7_202, true), (14_400, true), (14_403, false)] {
		for n in System::block_number() + 1..=at {
			System::set_block_number(n);
			Scheduler::run_due();
		}
		assert_eq!(held() > 0, still, "{at}");
	}
''')
