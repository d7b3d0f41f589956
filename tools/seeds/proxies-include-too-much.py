from _runtime import *
PROPERTY="R03"
NEEDS="comparing the non-transfer proxy with one that may move assets"
BREAKS="the non-transfer type counts as including the asset types, so its proxies can be given more than they have"
EDITS=[(K+"impls.rs","(ProxyType::NonTransfer, ProxyType::Collator) => true,","(ProxyType::NonTransfer, _) => true,")]
MAIN=MAINFN('''
	type P = <Runtime as pallet_proxy::Config>::ProxyType;
	let t = |n: u8| P::decode(&mut &[n][..]).unwrap();
	let moves = wire(13, 8, (FungibleAssetLocation::Here(1), to(&user(2)), Compact(5u128)));
	for a in 0..7 {
		for b in 0..7 {
			if t(a).is_superset(&t(b)) && t(b).filter(&moves) {
				assert!(t(a).filter(&moves), "{a} {b}");
			}
		}
	}
''')
