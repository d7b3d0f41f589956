//! S01: which description is written for what is asked for.
use serde::{Deserialize, Serialize};
use serde_json::{json, Value};
use std::path::PathBuf;
use std::process::{Command, Stdio};
use std::sync::atomic::{AtomicU64, Ordering};
use vkit::proptest::{collection::vec, prelude::*};
use vkit::{req, req_eq, Ctx, Verdict};

/// The names that are served, and whether they are of the local chain.
const NAMES: [(&str, bool); 4] = [("kreivo", false), ("live", false), ("kreivo-local", true), ("local", true)];
const PARA: u32 = 2281;

/// The networks the tool is built for.
#[derive(Clone, Copy, Debug, Serialize, Deserialize, PartialEq, Eq, Hash)]
pub enum Net {
	Paseo,
	Kusama,
}
struct Money {
	symbol: &'static str,
	unit: u128,
	/// what an account must hold
	least: u128,
}
impl Net {
	fn name(self) -> &'static str {
		match self {
			Net::Paseo => "paseo",
			Net::Kusama => "kusama",
		}
	}
	fn money(self) -> Money {
		match self {
			Net::Paseo => Money { symbol: "PAS", unit: 10_000_000_000, least: 10_000_000_000 / 1_000 },
			Net::Kusama => Money { symbol: "KSM", unit: 1_000_000_000_000, least: 1_000_000_000_000 / 30 / 1_000 },
		}
	}
}
fn net() -> BoxedStrategy<Net> {
	prop_oneof![Just(Net::Paseo), Just(Net::Kusama)].boxed()
}

struct Outcome {
	ok: bool,
	out: String,
	err: String,
}
/// Runs the tool, which is built next to this program, in a directory of its own.
fn run(net: Net, args: &[String], dir: &PathBuf) -> Outcome {
	let tool = std::env::current_exe().expect("HARNESS-BUG: no path").with_file_name(format!("tool-{}", net.name()));
	let o = Command::new(tool).args(args).current_dir(dir).stdin(Stdio::null()).output().expect("HARNESS-BUG: the tool cannot be run");
	let text = |b: Vec<u8>| String::from_utf8_lossy(&b).into_owned();
	Outcome { ok: o.status.success(), out: text(o.stdout), err: text(o.stderr) }
}
struct Scratch(PathBuf);
impl Scratch {
	fn new() -> Self {
		static N: AtomicU64 = AtomicU64::new(0);
		let dir = std::env::temp_dir().join(format!("h-spec-{}-{}", std::process::id(), N.fetch_add(1, Ordering::Relaxed)));
		std::fs::create_dir(&dir).expect("HARNESS-BUG: no scratch directory");
		Self(dir)
	}
}
impl Drop for Scratch {
	fn drop(&mut self) {
		let _ = std::fs::remove_file(self.0.join("chain.json"));
		let _ = std::fs::remove_dir(&self.0);
	}
}

#[derive(Clone, Debug, Serialize, Deserialize)]
pub enum Word {
	Known(u8),
	/// a known name with a character put in, left out or in capitals, or an end put on
	Near(u8, u8, u8, u8),
	Any(String),
	/// no file of this name is there
	Missing(String),
}
#[derive(Clone, Copy, Debug, Serialize, Deserialize, PartialEq, Eq, Hash)]
pub enum Raw {
	No,
	Before,
	After,
}
#[derive(Clone, Debug, Serialize, Deserialize)]
pub struct NameCase {
	net: Net,
	word: Word,
	raw: Raw,
}
impl Word {
	fn text(&self) -> String {
		match self {
			Word::Known(n) => NAMES[*n as usize % 4].0.into(),
			Word::Near(n, kind, at, with) => {
				let mut s: Vec<char> = NAMES[*n as usize % 4].0.chars().collect();
				let i = *at as usize % s.len();
				match kind % 5 {
					0 => drop(s.remove(i)),
					1 => s.insert(i, (b'a' + with % 26) as char),
					2 => s[i] = s[i].to_ascii_uppercase(),
					3 => s.push(' '),
					_ => s.extend(["-live", "-paseo", "-local", ".jso", "json"][*with as usize % 5].chars()),
				}
				s.into_iter().collect()
			}
			Word::Any(s) => s.clone(),
			Word::Missing(s) => format!("{s}.json"),
		}
	}
}
fn raw() -> BoxedStrategy<Raw> {
	prop_oneof![Just(Raw::No), Just(Raw::Before), Just(Raw::After)].boxed()
}
pub fn names() -> BoxedStrategy<NameCase> {
	let word = prop_oneof![
		1 => (0u8..4).prop_map(Word::Known),
		6 => (0u8..4, any::<u8>(), any::<u8>(), any::<u8>()).prop_map(|(a, b, c, d)| Word::Near(a, b, c, d)),
		2 => "[a-z][a-z0-9_.-]{0,12}".prop_map(Word::Any),
		1 => "[a-z]{1,8}".prop_map(Word::Missing),
	];
	(net(), word, raw()).prop_map(|(net, word, raw)| NameCase { net, word, raw }).boxed()
}
pub fn all_names(worker: usize, workers: usize, _: vkit::Tier, _: u64, run: &mut dyn FnMut(NameCase) -> bool) {
	let mut i = 0;
	for net in [Net::Paseo, Net::Kusama] {
		for n in 0..4 {
			for raw in [Raw::No, Raw::Before, Raw::After] {
				if i % workers == worker && !run(NameCase { net, word: Word::Known(n), raw }) {
					return;
				}
				i += 1;
			}
		}
	}
}
fn args(word: &str, raw: Raw) -> Vec<String> {
	match raw {
		Raw::No => vec![word.into()],
		Raw::Before => vec!["--raw".into(), word.into()],
		Raw::After => vec![word.into(), "--raw".into()],
	}
}
fn read(out: &str) -> Result<Value, String> {
	serde_json::from_str(out).map_err(|e| format!("what is written cannot be read: {e}"))
}
/// The genesis of a description, in the form asked for.
fn genesis(spec: &Value, raw: Raw) -> Result<Value, String> {
	let g = match raw {
		Raw::No => &spec["genesis"],
		_ => &spec["genesis"]["raw"]["top"]["of"],
	};
	match g["runtimeGenesis"]["patch"].clone() {
		Value::Null => Err(format!("not in the form asked for ({raw:?})")),
		g => Ok(g),
	}
}
fn list<'a>(v: &'a Value, what: &str) -> Result<&'a Vec<Value>, String> {
	v.as_array().ok_or(format!("no {what}"))
}
fn all_differ(v: &[Value]) -> bool {
	v.iter().enumerate().all(|(i, x)| !v[..i].contains(x))
}
pub fn check_names(c: &NameCase, cx: &mut Ctx) -> Verdict {
	let word = c.word.text();
	let dir = Scratch::new();
	let o = run(c.net, &args(&word, c.raw), &dir.0);
	let Some((_, local)) = NAMES.iter().find(|(n, _)| *n == word) else {
		req!(!o.ok, "a chain is written for {word:?}");
		req!(o.out.is_empty(), "something is written for {word:?}");
		if !word.ends_with(".json") {
			for (n, _) in NAMES {
				req!(o.err.contains(n), "{n} is not said to be known: {:?}", o.err);
			}
		}
		cx.label("unknown");
		if let Word::Near(..) = c.word {
			cx.nontrivial(&(c.net, &word));
		}
		return Ok(());
	};
	req!(o.ok, "nothing is written for {word}: {}", o.err);
	let spec = read(&o.out)?;
	let g = genesis(&spec, c.raw)?;
	cx.label(if *local { "local" } else { "live" });
	cx.nontrivial(&(c.net, &word, c.raw));
	req_eq!(spec["chainType"], if *local { "Local" } else { "Live" }, "the kind of chain");
	req_eq!(spec["relay_chain"], json!(format!("{}{}", c.net.name(), if *local { "-local" } else { "" })), "the relay chain");
	req_eq!(spec["para_id"], PARA, "the number of the chain");
	if !local && c.net == Net::Kusama {
		// What is written down for it is not in the repository.
		return Ok(());
	}
	req_eq!(g["parachainInfo"]["parachainId"], PARA, "the number the chain takes itself for");
	req_eq!(g["polkadotXcm"]["safeXcmVersion"], 4, "the version of messages");
	let p = &spec["properties"];
	let decimals = p["tokenDecimals"].as_u64().ok_or("no decimals")? as u32;
	let money = c.net.money();
	req_eq!(10u128.checked_pow(decimals), Some(money.unit), "the decimals of the token");
	req_eq!(p["tokenSymbol"], money.symbol, "the token");
	// ---- who makes blocks, and with what
	let makers = list(&g["collatorSelection"]["invulnerables"], "collators")?;
	let keys = list(&g["session"]["keys"], "keys")?;
	req!(!makers.is_empty() && all_differ(makers), "the collators are {makers:?}");
	req_eq!(keys.len(), makers.len(), "keys of collators");
	let mut auras = vec![];
	for k in keys {
		req!(makers.contains(&k[0]) && k[0] == k[1], "keys of {} for {}", k[0], k[1]);
		req!(!k[2]["aura"].is_null(), "no key of {}", k[0]);
		auras.push(k[2]["aura"].clone());
	}
	let who: Vec<_> = keys.iter().map(|k| k[0].clone()).collect();
	req!(all_differ(&who) && all_differ(&auras), "keys are shared");
	if *local {
		let bond = g["collatorSelection"]["candidacyBond"].as_u64().ok_or("no bond")? as u128;
		req!(bond >= money.least, "the bond of {bond} is less than an account must hold");
		let held = list(&g["balances"]["balances"], "balances")?;
		let holders: Vec<_> = held.iter().map(|h| h[0].clone()).collect();
		req!(all_differ(&holders), "an account is given its balance twice");
		for h in held {
			req!(h[1].as_u64().is_some_and(|n| n as u128 >= bond), "{} is given {}", h[0], h[1]);
		}
		for m in makers {
			req!(holders.contains(m), "the collator {m} has nothing");
		}
	}
	Ok(())
}

/// A description in a file, and what is wrong with it.
#[derive(Clone, Debug, Serialize, Deserialize)]
pub struct FileCase {
	net: Net,
	name: String,
	relay: String,
	para: u32,
	relay_as: u8,
	para_as: u8,
	already_raw: bool,
	patch: Vec<(String, u32)>,
	/// what is left out: nothing, the relay chain, the number, the name, or half of the file
	without: u8,
	raw: Raw,
}
pub fn files() -> BoxedStrategy<FileCase> {
	let para = prop_oneof![Just(PARA), Just(0), Just(u32::MAX), any::<u32>()];
	let text = || prop_oneof![4 => "[a-zA-Z0-9 _-]{0,12}", 1 => any::<String>()];
	let without = prop_oneof![6 => Just(0u8), 4 => 1u8..5];
	((net(), text(), text(), para), (0u8..3, 0u8..3, any::<bool>()), vec(("[a-z]{1,6}", any::<u32>()), 0..4), without, raw())
		.prop_map(|((net, name, relay, para), (relay_as, para_as, already_raw), patch, without, raw)| FileCase { net, name, relay, para, relay_as, para_as, already_raw, patch, without, raw })
		.boxed()
}
pub fn check_files(c: &FileCase, cx: &mut Ctx) -> Verdict {
	let relay_as = ["relay_chain", "relayChain", "RelayChain"][c.relay_as as usize % 3];
	let para_as = ["para_id", "paraId", "ParaId"][c.para_as as usize % 3];
	let patch: serde_json::Map<_, _> = c.patch.iter().map(|(k, v)| (k.clone(), json!(v))).collect();
	let genesis = if c.already_raw { json!({ "raw": { "top": patch, "childrenDefault": {} } }) } else { json!({ "runtimeGenesis": { "code": "0x57", "patch": patch } }) };
	let mut spec = json!({ "name": c.name, "id": "x", "chainType": "Live", "bootNodes": [], "genesis": genesis });
	spec[relay_as] = json!(c.relay);
	spec[para_as] = json!(c.para);
	let o = spec.as_object_mut().unwrap();
	match c.without {
		1 => drop(o.remove(relay_as)),
		2 => drop(o.remove(para_as)),
		3 => drop(o.remove("name")),
		_ => {}
	}
	let mut text = spec.to_string();
	if c.without == 4 {
		text = text.chars().take(text.chars().count() / 2).collect();
	}
	let dir = Scratch::new();
	std::fs::write(dir.0.join("chain.json"), text).expect("HARNESS-BUG: the file cannot be written");
	let o = run(c.net, &args("chain.json", c.raw), &dir.0);
	if c.without != 0 {
		req!(!o.ok && o.out.is_empty(), "a chain is written from half a description");
		cx.label("broken");
		return Ok(());
	}
	req!(o.ok, "a file is refused: {}", o.err);
	let got = read(&o.out)?;
	req_eq!(got["name"], json!(c.name), "the name");
	req_eq!(got["relay_chain"], json!(c.relay), "the relay chain");
	req_eq!(got["para_id"], json!(c.para), "the number");
	if c.already_raw || c.raw == Raw::No {
		req_eq!(got["genesis"], spec["genesis"], "the genesis");
	} else {
		req_eq!(got["genesis"]["raw"]["top"]["of"], spec["genesis"], "the genesis in raw form");
	}
	cx.label(if c.already_raw { "raw file" } else { "plain file" });
	cx.nontrivial(&format!("{c:?}"));
	Ok(())
}
