from _spec import *
PROPERTY="S01"
NEEDS="a description in a file that is not in raw form, and asking for it"
BREAKS="it is written in the form it had"
EDITS=[(TOOL+"main.rs","KreivoChainSpec::from_json_file(cli.chain.into())?.as_json(cli.raw)?","KreivoChainSpec::from_json_file(cli.chain.into())?.as_json(false)?")]
MAIN=MAINFN('''
	file(r#"{"name": "x", "id": "x", "chainType": "Live", "bootNodes": [], "relay_chain": "kusama", "para_id": 7, "genesis": {"runtimeGenesis": {"code": "0x57", "patch": {}}}}"#);
	assert!(!tool(&["chain.json"]).unwrap()["genesis"]["runtimeGenesis"].is_null());
	assert!(!tool(&["local", "--raw"]).unwrap()["genesis"]["raw"].is_null());
	assert!(!tool(&["chain.json", "--raw"]).unwrap()["genesis"]["raw"].is_null(), "not raw");
''')
