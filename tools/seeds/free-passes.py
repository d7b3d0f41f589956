from _runtime import *
PROPERTY="R18"
NEEDS="the account of another module registering a pass"
BREAKS="every account that has the form of a module's registers passes without the deposit"
EDITS=[(K+"configuration/system_support.rs","		AsSignedByCommunity::<Runtime>::try_origin(o)?;\n		Ok(None)","		use sp_runtime::traits::AccountIdConversion;\n		let free = matches!(\n			o.clone().into(),\n			Ok(frame_system::RawOrigin::Signed(ref who)) if PalletId::try_from_sub_account::<u16>(who).is_some()\n		);\n		if !free {\n			AsSignedByCommunity::<Runtime>::try_origin(o)?;\n		}\n		Ok(None)")]
MAIN=MAINFN('''
	type R = <Runtime as pallet_pass::Config>::RegisterOrigin;
	start();
	let pays = |o| <R as EnsureOriginWithArg<_, _>>::try_origin(o, &[1; 32]).ok().map(|d| d.is_some());
	assert_eq!(pays(root()), Some(false));
	assert_eq!(pays(voice(3)), Some(false));
	assert_eq!(pays(signed(&user(1))), Some(true));
	assert_eq!(pays(signed(&treasury())), Some(true));
	assert_eq!(pays(signed(&module(b"kreivo_p", 3))), Some(true));
''')
