//! Shared runner of the property checks: seeded generation on several threads, deterministic
//! sweeps, shrinking, replay files, evidence files and known findings.

use proptest::strategy::{BoxedStrategy, Strategy, ValueTree};
use proptest::test_runner::{Config, RngAlgorithm, TestRng, TestRunner};
use serde::{de::DeserializeOwned, Serialize};
use std::cell::RefCell;
use std::collections::hash_map::DefaultHasher;
use std::collections::{BTreeMap, BTreeSet, HashSet};
use std::fmt::Debug;
use std::hash::{Hash, Hasher};
use std::panic::{catch_unwind, AssertUnwindSafe};
use std::sync::atomic::{AtomicBool, AtomicUsize, Ordering};
use std::sync::Mutex;
use std::time::Instant;

pub use proptest;
pub use serde;
pub use serde_json;

/// Prefix of panics raised by the stand-ins themselves: never a verdict about the code.
pub const UNSUPPORTED: &str = "SHIM-UNSUPPORTED";

pub const WORKERS: usize = 8;

#[derive(Clone, Copy, PartialEq, Eq, Debug)]
pub enum Tier {
	Quick,
	Thorough,
}

/// What a single evaluation tells the runner besides its verdict.
pub struct Ctx {
	pub tier: Tier,
	evaluations: u64,
	distinct: HashSet<u64>,
	distinct_capped: bool,
	labels: BTreeMap<&'static str, u64>,
	samples: Vec<String>,
	sample_count: u64,
	known: BTreeMap<String, u64>,
	known_sigs: BTreeSet<String>,
	quiet: bool,
}

const DISTINCT_CAP: usize = 1 << 21;

impl Ctx {
	fn new(tier: Tier, known_sigs: BTreeSet<String>) -> Self {
		Ctx {
			tier,
			evaluations: 0,
			distinct: HashSet::new(),
			distinct_capped: false,
			labels: BTreeMap::new(),
			samples: vec![],
			sample_count: 0,
			known: BTreeMap::new(),
			known_sigs,
			quiet: false,
		}
	}

	/// Marks the current case as non-trivial; `key` identifies it among all others.
	pub fn nontrivial<K: Hash + ?Sized>(&mut self, key: &K) {
		if self.quiet || self.distinct_capped {
			return;
		}
		let mut h = DefaultHasher::new();
		key.hash(&mut h);
		self.distinct.insert(h.finish());
		if self.distinct.len() >= DISTINCT_CAP {
			self.distinct_capped = true;
		}
	}

	/// Counts how often something of interest happened.
	pub fn label(&mut self, l: &'static str) {
		self.label_n(l, 1)
	}
	pub fn label_n(&mut self, l: &'static str, n: u64) {
		if !self.quiet {
			*self.labels.entry(l).or_insert(0) += n;
		}
	}

	/// A failure with this exact signature is a recorded finding: count it and carry on.
	pub fn is_known(&mut self, signature: &str) -> bool {
		if self.known_sigs.contains(signature) {
			if !self.quiet {
				*self.known.entry(signature.to_string()).or_insert(0) += 1;
			}
			true
		} else {
			false
		}
	}

	fn sample<C: Serialize>(&mut self, c: &C) {
		// reservoir-free: powers of two, spread over the run
		self.sample_count += 1;
		if self.sample_count.is_power_of_two() && self.samples.len() < 24 {
			let mut s = serde_json::to_string(c).unwrap_or_default();
			if s.len() > 600 {
				let mut n = 600;
				while !s.is_char_boundary(n) {
					n -= 1;
				}
				s.truncate(n);
				s.push('…');
			}
			self.samples.push(s);
		}
	}
}

pub type Verdict = Result<(), String>;

#[macro_export]
macro_rules! req {
	($cond:expr, $($fmt:tt)+) => {
		if !$cond { return Err(format!($($fmt)+)); }
	};
}
#[macro_export]
macro_rules! req_eq {
	($a:expr, $b:expr, $($fmt:tt)+) => {{
		let (a, b) = (&$a, &$b);
		if *a != *b { return Err(format!("{}: got {:?}, expected {:?}", format!($($fmt)+), a, b)); }
	}};
}

/// One way of producing cases for a property, with its oracle.
pub struct Part<C: 'static> {
	pub name: &'static str,
	pub quick: u64,
	pub thorough: u64,
	pub strategy: fn() -> BoxedStrategy<C>,
	pub check: fn(&C, &mut Ctx) -> Verdict,
	/// deterministic enumeration: (worker, workers, tier, seed, sink); the sink returns false to stop
	pub sweep: Option<fn(usize, usize, Tier, u64, &mut dyn FnMut(C) -> bool)>,
}

impl<C> Clone for Part<C> {
	fn clone(&self) -> Self {
		Part { ..*self }
	}
}

pub trait AnyPart: Sync {
	fn name(&self) -> &'static str;
	fn run_worker(&self, worker: usize, run: &Run, ctx: &mut Ctx) -> Option<Failure>;
	fn replay(&self, json: &serde_json::Value, ctx: &mut Ctx) -> Result<Verdict, String>;
}

pub struct Run {
	pub id: String,
	pub seed: u64,
	pub tier: Tier,
	stop_at: AtomicUsize,
	unsupported: AtomicBool,
}

pub struct Failure {
	pub part: &'static str,
	pub case: serde_json::Value,
	pub pretty: String,
	pub message: String,
}

thread_local! {
	static LAST_PANIC: RefCell<Option<String>> = const { RefCell::new(None) };
}

pub fn install_panic_hook() {
	std::panic::set_hook(Box::new(|info| {
		let msg = if let Some(s) = info.payload().downcast_ref::<&str>() {
			s.to_string()
		} else if let Some(s) = info.payload().downcast_ref::<String>() {
			s.clone()
		} else {
			"panic".to_string()
		};
		let loc = info.location().map(|l| format!("{}:{}", l.file(), l.line())).unwrap_or_default();
		// A path relative to the package is one of the harness' own files: no verdict on the code.
		let whose = if loc.starts_with("src/") { "HARNESS-BUG: " } else { "" };
		LAST_PANIC.with(|p| *p.borrow_mut() = Some(format!("{whose}{msg} at {loc}")));
	}));
}

/// Ends the case with a verdict against the code, from where none can be returned.
pub fn broken(what: impl std::fmt::Display) -> ! {
	panic!("{what}")
}

/// Runs `f`, turning a panic into its message.
pub fn caught<R>(f: impl FnOnce() -> R) -> Result<R, String> {
	match catch_unwind(AssertUnwindSafe(f)) {
		Ok(r) => Ok(r),
		Err(e) => {
			let msg = LAST_PANIC.with(|p| p.borrow_mut().take()).unwrap_or_else(|| "panic".into());
			if msg.contains(UNSUPPORTED) || msg.contains("HARNESS-BUG") {
				std::panic::resume_unwind(e);
			}
			Err(msg)
		}
	}
}

fn evaluate<C: Serialize>(check: fn(&C, &mut Ctx) -> Verdict, c: &C, ctx: &mut Ctx, run: &Run) -> Verdict {
	if !ctx.quiet {
		ctx.evaluations += 1;
		ctx.sample(c);
	}
	match catch_unwind(AssertUnwindSafe(|| check(c, ctx))) {
		Ok(v) => v,
		Err(_) => {
			let msg = LAST_PANIC.with(|p| p.borrow_mut().take()).unwrap_or_else(|| "panic".into());
			if msg.contains(UNSUPPORTED) || msg.contains("HARNESS-BUG") {
				if !run.unsupported.swap(true, Ordering::SeqCst) {
					eprintln!("check error: {msg}");
				}
				return Ok(());
			}
			Err(format!("panicked: {msg}"))
		}
	}
}

fn mix(parts: &[&str], seed: u64, worker: usize) -> [u8; 32] {
	let mut out = [0u8; 32];
	for i in 0..4u64 {
		// FNV-1a, written out so that it never changes with the toolchain
		let mut h: u64 = 0xcbf29ce484222325 ^ (i.wrapping_mul(0x9e3779b97f4a7c15));
		let mut eat = |b: u8| {
			h ^= b as u64;
			h = h.wrapping_mul(0x100000001b3);
		};
		for p in parts {
			for b in p.bytes() {
				eat(b);
			}
			eat(0xff);
		}
		for b in seed.to_le_bytes() {
			eat(b);
		}
		for b in (worker as u64).to_le_bytes() {
			eat(b);
		}
		h ^= h >> 29;
		h = h.wrapping_mul(0xbf58476d1ce4e5b9);
		h ^= h >> 32;
		out[(i as usize) * 8..][..8].copy_from_slice(&h.to_le_bytes());
	}
	out
}

impl<C: Serialize + DeserializeOwned + Debug + Clone + 'static> AnyPart for Part<C> {
	fn name(&self) -> &'static str {
		self.name
	}

	fn run_worker(&self, worker: usize, run: &Run, ctx: &mut Ctx) -> Option<Failure> {
		let fail = |c: &C, message: String| Failure {
			part: self.name,
			case: serde_json::to_value(c).unwrap_or(serde_json::Value::Null),
			pretty: format!("{c:?}"),
			message,
		};
		if let Some(sweep) = self.sweep {
			let mut found = None;
			sweep(worker, WORKERS, run.tier, run.seed, &mut |c| {
				if run.stop_at.load(Ordering::Relaxed) < worker || run.unsupported.load(Ordering::Relaxed) {
					return false;
				}
				match evaluate(self.check, &c, ctx, run) {
					Ok(()) => true,
					Err(m) => {
						found = Some(fail(&c, m));
						false
					}
				}
			});
			if found.is_some() {
				return found;
			}
		}
		let total = if run.tier == Tier::Quick { self.quick } else { self.thorough };
		let n = total / WORKERS as u64 + u64::from((worker as u64) < total % WORKERS as u64);
		let config = Config { failure_persistence: None, ..Config::default() };
		let rng = TestRng::from_seed(RngAlgorithm::ChaCha, &mix(&[&run.id, self.name], run.seed, worker));
		let mut runner = TestRunner::new_with_rng(config, rng);
		let strategy = (self.strategy)();
		for _ in 0..n {
			if run.stop_at.load(Ordering::Relaxed) < worker || run.unsupported.load(Ordering::Relaxed) {
				return None;
			}
			let mut tree = match strategy.new_tree(&mut runner) {
				Ok(t) => t,
				Err(e) => {
					eprintln!("check error: generator gave up: {e}");
					run.unsupported.store(true, Ordering::SeqCst);
					return None;
				}
			};
			let case = tree.current();
			if let Err(first) = evaluate(self.check, &case, ctx, run) {
				// shrink: bounded in steps and time
				let started = Instant::now();
				let mut best = (case, first);
				ctx.quiet = true;
				let mut steps = 0u32;
				let mut go = tree.simplify();
				while go && steps < 20_000 && started.elapsed().as_secs() < 60 {
					steps += 1;
					let c = tree.current();
					match evaluate(self.check, &c, ctx, run) {
						Err(m) => {
							best = (c, m);
							go = tree.simplify();
						}
						Ok(()) => go = tree.complicate(),
					}
				}
				ctx.quiet = false;
				return Some(fail(&best.0, best.1));
			}
		}
		None
	}

	fn replay(&self, json: &serde_json::Value, ctx: &mut Ctx) -> Result<Verdict, String> {
		let c: C = serde_json::from_value(json.clone()).map_err(|e| e.to_string())?;
		let run = Run {
			id: String::new(),
			seed: 0,
			tier: Tier::Quick,
			stop_at: AtomicUsize::new(usize::MAX),
			unsupported: AtomicBool::new(false),
		};
		let v = evaluate(self.check, &c, ctx, &run);
		if run.unsupported.load(Ordering::SeqCst) {
			return Err("unsupported".into());
		}
		Ok(v)
	}
}

pub struct Check {
	pub id: &'static str,
	/// when a case counts as non-trivial
	pub rule: &'static str,
	pub assumptions: &'static [&'static str],
	pub parts: Vec<Box<dyn AnyPart>>,
}

fn verif_dir() -> std::path::PathBuf {
	std::env::var_os("VERIF_DIR").map(Into::into).unwrap_or_else(|| "/verif".into())
}

/// known-findings.jsonl: lines {"status":"open","property":..,"signature":..,"what":..};
/// lines with another status suppress nothing.
fn load_known(id: &str) -> BTreeMap<String, String> {
	let mut out = BTreeMap::new();
	let Ok(text) = std::fs::read_to_string(verif_dir().join("known-findings.jsonl")) else { return out };
	for line in text.lines().filter(|l| !l.trim().is_empty()) {
		let Ok(v) = serde_json::from_str::<serde_json::Value>(line) else { continue };
		if v["status"] == "open" && v["property"] == id {
			if let (Some(s), Some(w)) = (v["signature"].as_str(), v["what"].as_str()) {
				out.insert(s.to_string(), w.to_string());
			}
		}
	}
	out
}

pub fn main_with(checks: Vec<Check>) -> ! {
	install_panic_hook();
	let args: Vec<String> = std::env::args().collect();
	let id = args.get(1).cloned().unwrap_or_default();
	let Some(check) = checks.into_iter().find(|c| c.id == id) else {
		eprintln!("check error: no check for property {id:?}");
		std::process::exit(2)
	};
	let known = load_known(&id);
	let sigs: BTreeSet<String> = known.keys().cloned().collect();

	if args.get(2).map(String::as_str) == Some("--replay") {
		let path = args.get(3).expect("replay path");
		let text = std::fs::read_to_string(path).expect("replay file");
		let v: serde_json::Value = serde_json::from_str(&text).expect("replay json");
		let part = check.parts.iter().find(|p| v["part"] == p.name()).expect("unknown part");
		let mut ctx = Ctx::new(Tier::Quick, sigs);
		match part.replay(&v["case"], &mut ctx) {
			Ok(Ok(())) => {
				println!("replay: holds");
				std::process::exit(0)
			}
			Ok(Err(m)) => {
				println!("replay: {m}");
				println!("VIOLATION property={id} replay={path}");
				std::process::exit(1)
			}
			Err(e) => {
				eprintln!("check error: {e}");
				std::process::exit(2)
			}
		}
	}

	let tier = match std::env::var("VERIF_TIER").as_deref() {
		Ok("thorough") => Tier::Thorough,
		_ => Tier::Quick,
	};
	let seed: u64 = std::env::var("VERIF_SEED").ok().and_then(|s| s.trim().parse().ok()).unwrap_or(1);
	let started = Instant::now();
	let run = Run {
		id: id.clone(),
		seed,
		tier,
		stop_at: AtomicUsize::new(usize::MAX),
		unsupported: AtomicBool::new(false),
	};

	let results: Mutex<Vec<(usize, Option<Failure>, Ctx)>> = Mutex::new(vec![]);
	std::thread::scope(|s| {
		for w in 0..WORKERS {
			let (run, check, results, sigs) = (&run, &check, &results, sigs.clone());
			std::thread::Builder::new()
				.stack_size(64 << 20)
				.spawn_scoped(s, move || {
					let mut ctx = Ctx::new(tier, sigs);
					let mut failure = None;
					for part in &check.parts {
						let r = catch_unwind(AssertUnwindSafe(|| part.run_worker(w, run, &mut ctx)));
						match r {
							Ok(Some(f)) => {
								run.stop_at.fetch_min(w, Ordering::SeqCst);
								failure = Some(f);
								break;
							}
							Ok(None) => {}
							Err(_) => {
								let m = LAST_PANIC.with(|p| p.borrow_mut().take()).unwrap_or_default();
								eprintln!("check error: {m}");
								run.unsupported.store(true, Ordering::SeqCst);
								break;
							}
						}
					}
					results.lock().unwrap().push((w, failure, ctx));
				})
				.expect("spawn");
		}
	});
	let mut results = results.into_inner().unwrap();
	results.sort_by_key(|r| r.0);

	let mut evaluations = 0u64;
	let mut distinct: HashSet<u64> = HashSet::new();
	let mut capped = false;
	let mut labels: BTreeMap<&'static str, u64> = BTreeMap::new();
	let mut samples: Vec<String> = vec![];
	let mut known_hits: BTreeMap<String, u64> = BTreeMap::new();
	let mut failure = None;
	for (_, f, ctx) in results {
		evaluations += ctx.evaluations;
		capped |= ctx.distinct_capped;
		if distinct.is_empty() {
			distinct = ctx.distinct;
		} else {
			distinct.extend(ctx.distinct);
		}
		for (k, v) in ctx.labels {
			*labels.entry(k).or_insert(0) += v;
		}
		if samples.len() < 12 {
			samples.extend(ctx.samples.into_iter().rev().take(2));
		}
		for (k, v) in ctx.known {
			*known_hits.entry(k).or_insert(0) += v;
		}
		if failure.is_none() {
			failure = f;
		}
	}
	let unsupported = run.unsupported.load(Ordering::SeqCst);

	let dir = verif_dir();
	let mut replay_path = None;
	if let Some(f) = &failure {
		let rdir = dir.join("replays");
		let _ = std::fs::create_dir_all(&rdir);
		let path = rdir.join(format!("{id}-{seed}.json"));
		let v = serde_json::json!({
			"property": id, "part": f.part, "seed": seed, "message": f.message,
			"case": f.case, "pretty": f.pretty,
		});
		std::fs::write(&path, serde_json::to_string_pretty(&v).unwrap()).expect("write replay");
		replay_path = Some(path);
	}

	let evidence = serde_json::json!({
		"property": id,
		"tier": if tier == Tier::Quick { "quick" } else { "thorough" },
		"seed": seed,
		"level": "exploration",
		"coverage": {
			"evaluations": evaluations,
			"distinct_nontrivial": distinct.len(),
			"distinct_is_lower_bound": capped,
			"rule": check.rule,
			"distribution": labels,
			"samples": samples,
		},
		"assumptions": check.assumptions,
		"violations": failure.as_ref().map(|f| vec![f.message.clone()]).unwrap_or_default(),
		"known_findings_met": known_hits,
		"wall_s": started.elapsed().as_secs_f64(),
	});
	let edir = dir.join("evidence");
	let _ = std::fs::create_dir_all(&edir);
	std::fs::write(edir.join(format!("{id}.json")), serde_json::to_string_pretty(&evidence).unwrap())
		.expect("write evidence");

	for sig in known_hits.keys() {
		println!("KNOWN-FINDING: property={id} {}", known.get(sig).map(String::as_str).unwrap_or(sig));
	}
	if let (Some(f), Some(p)) = (&failure, &replay_path) {
		println!("{}: {}", f.part, f.message);
		println!("minimal case: {}", f.pretty);
		println!("VIOLATION property={id} replay={}", p.display());
		std::process::exit(1)
	}
	if unsupported {
		eprintln!("check error: the case could not be judged");
		std::process::exit(2)
	}
	println!(
		"{id}: held on {evaluations} cases, {} distinct non-trivial, {:.1}s",
		distinct.len(),
		started.elapsed().as_secs_f64()
	);
	std::process::exit(0)
}

/// A tiny deterministic generator for sweeps.
pub struct SplitMix(pub u64);
impl SplitMix {
	pub fn next(&mut self) -> u64 {
		self.0 = self.0.wrapping_add(0x9e3779b97f4a7c15);
		let mut z = self.0;
		z = (z ^ (z >> 30)).wrapping_mul(0xbf58476d1ce4e5b9);
		z = (z ^ (z >> 27)).wrapping_mul(0x94d049bb133111eb);
		z ^ (z >> 31)
	}
}

/// Numbers biased to boundaries of every width.
pub fn edgy_u128() -> BoxedStrategy<u128> {
	use proptest::prelude::*;
	prop_oneof![
		3 => (0u32..128, -2i8..=2).prop_map(|(b, d)| (1u128 << b).wrapping_add(d as i128 as u128)),
		2 => 0u128..300,
		1 => any::<u128>(),
		1 => any::<u64>().prop_map(|x| x as u128),
		1 => any::<u32>().prop_map(|x| x as u128),
		1 => (0u128..4).prop_map(|d| u128::MAX - d),
	]
	.boxed()
}
pub fn edgy_u64() -> BoxedStrategy<u64> {
	edgy_u128().prop_map(|x| if x > u64::MAX as u128 { (x >> 64) as u64 ^ x as u64 } else { x as u64 }).boxed()
}
