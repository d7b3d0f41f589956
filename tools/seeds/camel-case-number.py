from _spec import *
PROPERTY="S01"
NEEDS="a description in a file that writes the number of the chain in camel case"
BREAKS="the file is refused"
EDITS=[(TOOL+"common.rs",'#[serde(alias = "paraId", alias = "ParaId")]','#[serde(alias = "ParaId")]')]
MAIN=MAINFN('''
	for (relay, para) in [("relay_chain", "para_id"), ("relayChain", "para_id"), ("RelayChain", "ParaId"), ("relayChain", "paraId")] {
		file(&format!(r#"{{"name": "x", "id": "x", "chainType": "Live", "bootNodes": [], "{relay}": "kusama", "{para}": 7, "genesis": {{"raw": {{"top": {{}}, "childrenDefault": {{}}}}}}}}"#));
		let spec = tool(&["chain.json"]).expect("refused");
		assert_eq!(spec["para_id"], 7);
		assert_eq!(spec["relay_chain"], "kusama");
	}
''')
