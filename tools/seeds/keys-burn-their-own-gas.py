from _runtime import *
PROPERTY="R24"
NEEDS="a transaction signed with the key of a session whose owner has gas while the key has none"
BREAKS="the gas of the owner is not used: they are charged in money for what their gas pays for"
EDITS=[(K+"lib.rs","	SkipCheckIfFeeless<Runtime, ChargeTxToPassAccount<ChargeTransaction, Runtime, ()>>,\n","	SkipCheckIfFeeless<\n		Runtime,\n		ChargeGasTxPayment<Runtime, ChargeTxToPassAccount<ChargeAssetTxPayment<Runtime>, Runtime, ()>>,\n	>,\n")]
MAIN=MAINFN('''
	use frame_support::dispatch::GetDispatchInfo;
	use sp_runtime::traits::SignedExtension;
	use fc_traits_gas_tank as tank;
	// Signed by `key`, paid for by `owner`, who may have gas: what it costs the owner in money.
	let cost = |key: &AccountId, owner: &AccountId, gas: bool| {
		start();
		frame_system::BlockHash::<Runtime>::insert(0u32, kreivo_runtime::Hash::from([7u8; 32]));
		if key != owner { pallet_pass::set_session(key, owner); }
		if gas { tank::set_tank(owner, &Weight::MAX); }
		let c = wire(0, 0, vec![1u8; 10]);
		let info = c.get_dispatch_info();
		let e = kreivo_runtime::SignedExtra::decode(&mut &(0u8, Compact(0u32), Compact(0u128), None::<u8>).encode()[..]).expect("readable");
		let had = native(owner);
		let pre = e.pre_dispatch(key, &c, &info, 150).expect("taken");
		kreivo_runtime::SignedExtra::post_dispatch(Some(pre), &info, &frame_support::dispatch::PostDispatchInfo::default(), 150, &Ok(())).expect("taken");
		had - native(owner)
	};
	let (key, owner) = (user(50), user(1));
	assert!(cost(&owner, &owner, false) > 0);
	assert_eq!(cost(&owner, &owner, true), 0);
	assert!(cost(&key, &owner, false) > 0);
	assert_eq!(cost(&key, &owner, true), 0);
''')
