# What every demo about the tool shares: the tool is built for Paseo next to the demo and run as a program.
from _runtime import CRATES, K
LOCK="h-spec"
DEPS='''kreivo-runtime = { path = "derived/kreivo-runtime" }
frame-support = { path = "shims/frame-support" }
cumulus-primitives-core = { path = "shims/rt/cumulus-primitives-core" }
parachains-common = { path = "shims/rt/parachains-common" }
sp-core = { path = "shims/sp-core" }
sp-runtime = { path = "shims/sp-runtime" }
xcm = { path = "shims/xcm" }
clap = { path = "shims/spec/clap", features = ["derive"] }
sc-chain-spec = { path = "shims/spec/sc-chain-spec" }
sc-network = { path = "shims/spec/sc-network" }
serde = { version = "1", features = ["derive"] }
serde_json = "1"

[features]
default = ["paseo"]
paseo = ["kreivo-runtime/paseo"]
runtime-benchmarks = []

[[bin]]
name = "tool"
path = "/repo/chain-spec-generator/src/main.rs"
'''
TOOL="chain-spec-generator/src/"
KIT='''
/// Runs the tool in the scratch directory of the demo.
fn tool(args: &[&str]) -> Option<serde_json::Value> {
	let tool = std::env::current_exe().unwrap().with_file_name("tool");
	let out = std::process::Command::new(tool).args(args).output().unwrap();
	out.status.success().then(|| serde_json::from_slice(&out.stdout).unwrap())
}
fn file(text: &str) {
	std::fs::write("chain.json", text).unwrap();
}
'''
def MAINFN(body): return KIT + "fn main() {" + body + "}\n"
