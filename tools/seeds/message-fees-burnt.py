from _runtime import *
PROPERTY="R20"
NEEDS="a message that pays with the native token, sent by a place that has some"
BREAKS="the fee for the message is burnt instead of being given to the treasury"
EDITS=[(K+"xcm_config.rs","	UsingComponents<WeightToFee, RelayLocation, AccountId, Balances, ResolveTo<TreasuryAccount, Balances>>,","	UsingComponents<WeightToFee, RelayLocation, AccountId, Balances, ()>,")]
MAIN=MAINFN('''
	start();
	let hub = Location::new(1, [Parachain(1000)]);
	type A = <Runtime as pallet_xcm::Config>::SovereignAccountOf;
	let place = A::convert_location(&hub).unwrap();
	fund(&place, 100 * UNITS);
	let some = || Asset { id: AssetId(Location::parent()), fun: Fungible(10 * UNITS) };
	let m: Xcm<RuntimeCall> = Xcm(vec![
		WithdrawAsset(vec![some()].into()),
		BuyExecution { fees: some(), weight_limit: Unlimited },
		RefundSurplus,
		DepositAsset { assets: AssetFilter::Wild(WildAsset::AllCounted(1)), beneficiary: Location::new(0, [Junction::AccountId32 { network: None, id: [8; 32] }]) },
	]);
	let (p, u, t) = (native(&place), native(&user(8)), native(&treasury()));
	let _ = xcm_executor::XcmExecutor::<XcmConfig>::run(hub, m, Weight::zero());
	let (lost, got) = (p - native(&place), native(&user(8)) - u);
	assert_eq!(lost, 10 * UNITS);
	assert!(got > 0 && got < lost);
	assert_eq!(native(&treasury()) - t, lost - got);
''')
