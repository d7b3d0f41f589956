from _spec import *
PROPERTY="S01"
NEEDS="a local chain, whose collators all get one key"
BREAKS="the collators of a new local chain make blocks with the same key"
EDITS=[(TOOL+"common.rs",'''	get_from_seed::<AuraId>(seed)
''','''	get_from_seed::<AuraId>("Collator")
''')]
MAIN=MAINFN('''
	let spec = tool(&["local"]).unwrap();
	let patch = &spec["genesis"]["runtimeGenesis"]["patch"];
	assert_eq!(patch["collatorSelection"]["invulnerables"].as_array().unwrap().len(), 2);
	let keys = patch["session"]["keys"].as_array().unwrap();
	assert_ne!(keys[0][0], keys[1][0]);
	assert_ne!(keys[0][2]["aura"], keys[1][2]["aura"], "one key for two");
''')
