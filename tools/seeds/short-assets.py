from _runtime import *
PROPERTY="R04"
NEEDS="an asset whose location is shorter than the prefix of its supposed reserve"
BREAKS="Asset Hub can mint the relay chain's own token"
EDITS=[(K+"xcm_config.rs","		&& loc.len() >= prefix.len()\n","		&& loc.len() >= prefix.interior().len()\n")]
MAIN=MAINFN('''
	type R = <XcmConfig as xcm_executor::Config>::IsReserve;
	let hub = Location::new(1, [Parachain(1000)]);
	let vouches = |l: Location| R::contains(&Asset { id: AssetId(l), fun: Fungible(5) }, &hub);
	assert!(vouches(hub.clone()));
	assert!(vouches(Location::new(1, [Parachain(1000), PalletInstance(50), GeneralIndex(1984)])));
	assert!(!vouches(Location::new(1, [Parachain(1001), PalletInstance(50)])));
	assert!(!vouches(Location::new(1, [])));
''')
