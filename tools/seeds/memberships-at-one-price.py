from _runtime import *
PROPERTY="R23"
NEEDS="creating more than one membership at once"
BREAKS="creating a thousand memberships is weighed like creating one"
EDITS=[("pallets/communities-manager/src/lib.rs","WeightInfo::create_memberships((*amount).into())","WeightInfo::create_memberships((*amount).min(1).into())")]
MAIN=MAINFN('''
	use frame_support::dispatch::GetDispatchInfo;
	let weight = |n: u16| wire(75, 1, (n, 1u32, Compact(0u128))).get_dispatch_info().weight;
	assert!(weight(1000).ref_time() > weight(1).ref_time() * 2);
	assert!(weight(2).ref_time() > weight(1).ref_time());
''')
