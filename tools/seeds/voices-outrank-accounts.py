from _runtime import *
PROPERTY="R13"
NEEDS="comparing a community's voice with a signed account"
BREAKS="a community can cancel tasks that accounts have scheduled"
EDITS=[(K+"impls.rs","			_ => None,\n		}\n	}\n}","			(OriginCaller::Communities(_), OriginCaller::system(frame_system::RawOrigin::Signed(_))) => {\n				Some(Ordering::Greater)\n			}\n			_ => None,\n		}\n	}\n}")]
MAIN=MAINFN('''
	use core::cmp::Ordering::*;
	type C = <Runtime as pallet_scheduler::Config>::OriginPrivilegeCmp;
	let (r, v, s) = (root().caller, voice(1).caller, signed(&user(1)).caller);
	assert_eq!(C::cmp_privilege(&r, &v), Some(Greater));
	assert_eq!(C::cmp_privilege(&v, &v), Some(Equal));
	assert!(!matches!(C::cmp_privilege(&v, &s), Some(Greater | Equal)));
	assert!(!matches!(C::cmp_privilege(&s, &v), Some(Greater | Equal)));
''')
