from _runtime import *
PROPERTY="R11"
NEEDS="an account that executes a message of its own"
BREAKS="any account makes the chain execute any message in its name"
EDITS=[(K+"xcm_config.rs","	type XcmExecuteFilter = Nothing;\n","	type XcmExecuteFilter = Everything;\n")]
MAIN=MAINFN('''
	type F = <Runtime as pallet_xcm::Config>::XcmExecuteFilter;
	let who = Location::new(0, [Junction::AccountId32 { network: None, id: [1; 32] }]);
	let m: Xcm<RuntimeCall> = Xcm(vec![ClearOrigin]);
	assert!(!<F as Contains<_>>::contains(&(who, m)));
''')
