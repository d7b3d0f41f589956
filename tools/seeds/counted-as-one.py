from _runtime import *
PROPERTY="R10"
NEEDS="a wildcard for a counted number of one asset's instances"
BREAKS="such a wildcard is charged as a single asset"
EDITS=[(K+"weights/xcm/mod.rs","AllOfCounted { count, .. } => weight.saturating_mul(MAX_ASSETS.min(*count as u64)),","AllOfCounted { count, .. } => weight.saturating_mul(1.min(*count as u64)),")]
MAIN=MAINFN('''
	type S = <XcmConfig as xcm_executor::Config>::Weigher;
	let cost = |count| {
		let id = AssetId(Location::new(1, [Parachain(1000), PalletInstance(52)]));
		let assets = AssetFilter::Wild(WildAsset::AllOfCounted { id, fun: WildFungibility::NonFungible, count });
		let i: Instruction<RuntimeCall> = InitiateReserveWithdraw { assets, reserve: Location::parent(), xcm: Xcm(vec![]) };
		S::weight(&mut Xcm(vec![i])).unwrap().ref_time()
	};
	assert!(cost(10) >= 9 * cost(1));
	assert_eq!(cost(100), cost(1_000));
''')
