//! Runs histories against the real module and against a model of what it should do.
use crate::case::*;
use crate::members;
use crate::polls;
use crate::probe;
use crate::runtime::*;
use frame_support::traits::fungibles::{Inspect as _, Mutate as _};
use frame_support::traits::tokens::{Fortitude, Preservation};
use frame_support::traits::{EnsureOrigin, EnsureOriginWithArg, VoteTally};
use pallet_communities::origin::{EnsureCommunity, EnsureMember};
use pallet_communities::{CommunityState, DecisionMethod, Event, FreezeReason, Vote};
use parity_scale_codec::{Decode, Encode};
use sp_runtime::traits::Dispatchable;
use sp_runtime::DispatchError;
use std::collections::{BTreeMap, BTreeSet};
use vmock::{kv, ledger};

pub type Com = pallet_communities::Pallet<Runtime>;
type CCall = pallet_communities::Call<Runtime>;
type V = Vote<AssetId, Balance, Balance>;
type Dm = DecisionMethod<AssetId, Balance>;

/// The second to last agrees with the first in its lower half; the last is not set up at the start.
pub const CIDS: [u32; 5] = [1, 2, 3, 65_537, 7];
pub const PEOPLE: u8 = 6;
const LEVELS: [Balance; 8] = [0, 1, DEPOSIT, 400, 1_500, 100_000, 3_000_000_000, 20_000_000_000];
pub const DRIFT: &str = "the vote is taken off the tally with another multiplier than it was put on with";
pub const FULL: &str = "a vote is taken off a tally that had reached the largest weight";
pub const SHARED: &str = "one account votes on one poll with two memberships and only one lock is kept";

pub const CROWD: &str = "the electorate exceeds the largest weight and is taken to be just that";

pub struct Finding {
	pub tags: Vec<&'static str>,
	pub what: String,
	pub known: Option<&'static str>,
}
#[derive(Clone, Debug)]
struct Rec {
	voter: AccountId,
	vote: V,
	multiplier: u32,
}
#[derive(Clone, Debug)]
struct Poll {
	class: u32,
	ongoing: bool,
	/// tallies kept with limited numbers; removing with the multiplier of the casting or of the removal
	kept: [[u32; 3]; 2],
	drifted: bool,
	filled: bool,
}
#[derive(Default)]
pub struct Stats {
	pub created: u64,
	pub handed_over: u64,
	pub refused: u64,
	pub stray: u64,
	pub across: u64,
	pub members: u64,
	pub removed: u64,
	pub ranks: u64,
	pub votes: u64,
	pub replaced: u64,
	pub unvoted: u64,
	pub amount_votes: u64,
	pub ranked_votes: u64,
	pub limit_votes: u64,
	pub vote_refused: u64,
	pub unlocked: u64,
	pub two_locks: u64,
	pub dispatched: u64,
	pub faults_hit: u64,
	pub methods: u64,
	pub taken_admin: u64,
	pub announced: u64,
}
pub struct World {
	exists: BTreeMap<u32, bool>,
	methods: BTreeMap<u32, Dm>,
	admins: Vec<(OriginCaller, u32)>,
	mems: BTreeMap<u32, Record>,
	polls: Vec<Poll>,
	votes: BTreeMap<(u32, u32), Rec>,
	released: BTreeSet<(u32, AccountId)>,
	locks: BTreeMap<(AccountId, u32), V>,
	frozen: BTreeMap<(AccountId, AssetId), Balance>,
	shared: BTreeSet<AccountId>,
	other_freezes: BTreeMap<(AccountId, AssetId), Balance>,
	seen: BTreeMap<u32, Vec<u8>>,
	notes: u32,
	fault: Option<u32>,
	ledger_fault: Option<u32>,
	found: Vec<Finding>,
	universe: Vec<OriginCaller>,
	pub stats: Stats,
}

fn signed(a: AccountId) -> OriginCaller {
	OriginCaller::system(frame_system::RawOrigin::Signed(a))
}
fn cid(n: u8) -> u32 {
	CIDS[n as usize % CIDS.len()]
}
fn guy(n: u8) -> AccountId {
	person(n % PEOPLE + 1)
}
fn asset_no(n: u8) -> AssetId {
	n as u32 % 3
}
fn weight(v: &V) -> u32 {
	match v {
		Vote::Standard(_) => 1,
		Vote::NativeBalance(_, n) | Vote::AssetBalance(_, _, n) => (*n).min(u32::MAX as u128) as u32,
	}
}
fn lockable(v: &V) -> Option<(AssetId, Balance)> {
	match v {
		Vote::Standard(_) => None,
		Vote::NativeBalance(_, n) => Some((NATIVE, *n)),
		Vote::AssetBalance(_, a, n) => Some((*a, *n)),
	}
}
fn reason() -> Vec<u8> {
	RuntimeFreezeReason::from(FreezeReason::VoteCasted).encode()
}
fn other_reason() -> Vec<u8> {
	RuntimeFreezeReason::from(OtherFreeze).encode()
}
pub fn tally(ayes: u32, nays: u32, bare: u32) -> Tally {
	Tally::decode(&mut &(ayes, nays, bare).encode()[..]).expect("HARNESS-BUG: a tally is three numbers")
}
fn balances() -> BTreeMap<(Vec<u8>, Vec<u8>), Balance> {
	ledger::all_accounts().into_iter().filter(|x| x.2.free > 0).map(|(a, w, x)| ((a, w), x.free)).collect()
}
/// Parts per billion, rounded either way.
pub fn is_fraction(parts: u32, n: u128, d: u128) -> bool {
	let exact = n.min(d) * 1_000_000_000;
	let lo = exact / d;
	let hi = exact.div_ceil(d);
	(lo..=hi).contains(&(parts as u128))
}

impl World {
	pub fn new(case: &Case) -> Self {
		sp_io::storage::reset();
		members::fail_at(None);
		ledger::fail_at(None);
		frame_system::Pallet::<Runtime>::set_block_number(1);
		for a in 0..3u32 {
			ledger::set_asset(&a, &ledger::Asset { issuance: 0, min: 1 });
			for p in 0..PEOPLE {
				let level = case.funds.get(a as usize * PEOPLE as usize + p as usize).copied().unwrap_or(0);
				let n = LEVELS[level as usize % LEVELS.len()];
				if n > 0 {
					ledger::endow(&a, &guy(p), n);
				}
			}
		}
		ledger::endow(&NATIVE, &treasury(), 10);
		let mut universe: Vec<OriginCaller> = (0..PEOPLE).map(|p| signed(guy(p))).collect();
		for c in CIDS {
			universe.push(signed(account_of(c)));
			universe.push(OriginCaller::Communities(pallet_communities::Origin::<Runtime>::new(Cid(c))));
		}
		universe.push(CouncilOrigin(0).into());
		universe.push(CouncilOrigin(1).into());
		universe.push(OriginCaller::system(frame_system::RawOrigin::Root));
		universe.push(OriginCaller::system(frame_system::RawOrigin::None));
		World {
			exists: BTreeMap::new(),
			methods: BTreeMap::new(),
			admins: vec![],
			mems: BTreeMap::new(),
			polls: vec![],
			votes: BTreeMap::new(),
			released: BTreeSet::new(),
			locks: BTreeMap::new(),
			frozen: BTreeMap::new(),
			shared: BTreeSet::new(),
			other_freezes: BTreeMap::new(),
			seen: BTreeMap::new(),
			notes: 0,
			fault: None,
			ledger_fault: None,
			found: vec![],
			universe,
			stats: Stats::default(),
		}
	}
	/// The operations a history starts with.
	pub fn prelude(case: &Case) -> Vec<Op> {
		let mut ops = vec![];
		for (i, s) in case.start.iter().enumerate() {
			let c = i as u8;
			ops.push(Op::Create { by: By::Root, admin: s.admin, id: c });
			// Without effect when the first one worked.
			ops.push(Op::Create { by: By::Root, admin: By::Person(c + 3), id: c });
			for _ in 0..s.members.len() + s.spare as usize {
				ops.push(Op::Mint { c });
			}
			for (who, _) in &s.members {
				ops.push(Op::Add { by: By::VoiceOf(c), who: *who });
			}
			for (k, (_, rank)) in s.members.iter().enumerate() {
				ops.push(Op::Rank { m: (c * 8).wrapping_add(k as u8), rank: *rank });
			}
			ops.push(Op::SetMethod { by: By::VoiceOf(c), c, method: s.method });
			ops.push(Op::Poll { c });
		}
		ops
	}
	fn say(&mut self, tags: &[&'static str], what: String) {
		self.found.push(Finding { tags: tags.to_vec(), what, known: None });
	}

	// === who and what ===

	fn caller(&self, by: By) -> OriginCaller {
		match by {
			By::AdminOf(c) => {
				self.admins.iter().find(|(_, x)| *x == cid(c)).map(|(o, _)| o.clone()).unwrap_or_else(|| signed(guy(c)))
			}
			By::VoiceOf(c) => OriginCaller::Communities(pallet_communities::Origin::<Runtime>::new(Cid(cid(c)))),
			By::AccountOf(c) => signed(account_of(cid(c))),
			By::Person(p) => signed(guy(p)),
			By::Council(n) => CouncilOrigin(n % 2).into(),
			By::Root => OriginCaller::system(frame_system::RawOrigin::Root),
			By::Nobody => OriginCaller::system(frame_system::RawOrigin::None),
		}
	}
	/// The community an origin speaks for.
	fn speaks(&self, o: &OriginCaller) -> Option<u32> {
		let c = match o {
			OriginCaller::system(frame_system::RawOrigin::Root | frame_system::RawOrigin::None) => return None,
			OriginCaller::Communities(raw) => raw.id().0,
			o => self.admins.iter().find(|(x, _)| x == o)?.1,
		};
		(self.exists.get(&c) == Some(&true)).then_some(c)
	}
	fn method(&self, c: u32) -> Dm {
		self.methods.get(&c).cloned().unwrap_or_default()
	}
	fn membership(&self, c: u32, m: Mem) -> u32 {
		let pick = |v: Vec<u32>, n: u8| if v.is_empty() { 4_000_000 } else { v[n as usize % v.len()] };
		match m {
			Mem::Of(n) => pick(self.mems.iter().filter(|x| x.1.group == Some(Cid(c))).map(|x| *x.0).collect(), n),
			Mem::Pool(n) => pick(
				self.mems.iter().filter(|x| x.1.group.is_none() && x.1.owner == account_of(c)).map(|x| *x.0).collect(),
				n,
			),
			Mem::Any(n) | Mem::Voted(n) => pick(self.mems.keys().copied().collect(), n),
		}
	}
	fn on_poll(&self, class: u32, poll: u32, m: Mem) -> u32 {
		match m {
			Mem::Voted(n) => {
				let v: Vec<u32> = self.votes.range((poll, 0)..=(poll, u32::MAX)).map(|x| x.0 .1).collect();
				if v.is_empty() { self.membership(class, Mem::Of(n)) } else { v[n as usize % v.len()] }
			}
			m => self.membership(class, m),
		}
	}
	fn who(&self, w: Who, m: u32) -> AccountId {
		match w {
			Who::Holder => self.mems.get(&m).map(|r| r.owner.clone()).unwrap_or_else(|| guy(0)),
			Who::Person(p) => guy(p),
		}
	}
	fn amount(&self, a: Amount, who: &AccountId, asset: AssetId, min: Balance) -> Balance {
		let have = ledger::account_of(&asset, who).free;
		let off = |x: Balance, d: i8| if d < 0 { x.saturating_sub(d.unsigned_abs() as u128) } else { x + d as u128 };
		match a {
			Amount::Plain(n) => n as u128,
			Amount::Near(d) => off(have, d),
			Amount::Limit(d) => off(u32::MAX as u128, d),
			Amount::Min(d) => off(min, d),
			Amount::Part(p) => have * p as u128 / 100,
		}
	}
	fn multiplier(&self, c: u32, m: u32) -> u32 {
		match self.method(c) {
			DecisionMethod::Rank => self.mems.get(&m).filter(|r| r.group == Some(Cid(c))).map_or(0, |r| r.rank as u32),
			_ => 1,
		}
	}
	fn electorate(&self, c: u32) -> u128 {
		match self.method(c) {
			DecisionMethod::Membership => self.mems.values().filter(|r| r.group == Some(Cid(c))).count() as u128,
			DecisionMethod::Rank => self.mems.values().filter(|r| r.group == Some(Cid(c))).map(|r| r.rank as u128).sum(),
			DecisionMethod::NativeToken => ledger::asset_of(&NATIVE).map_or(0, |a| a.issuance),
			DecisionMethod::CommunityAsset(a, _) => ledger::asset_of(&a).map_or(0, |a| a.issuance),
		}
	}

	fn dispatch(&mut self, o: &OriginCaller, call: impl Into<RuntimeCall>) -> (Result<(), DispatchError>, bool) {
		frame_system::Pallet::<Runtime>::reset_events();
		let fault = self.fault.take();
		let ledger_fault = self.ledger_fault.take();
		members::fail_at(fault);
		ledger::fail_at(ledger_fault);
		let r = call.into().dispatch(RuntimeOrigin::from(o.clone()));
		let unlocked = ledger_fault.map_or(false, |n| ledger::ticks() > n);
		let hit = fault.is_some() && !members::pending() || unlocked;
		members::fail_at(None);
		ledger::fail_at(None);
		if unlocked && r.is_ok() {
			self.say(&["C01", "C05", "C08"], "an operation was reported as done though the ledger refused a part of it".into());
		}
		self.stats.faults_hit += hit as u64;
		self.stats.refused += r.is_err() as u64;
		(r.map(|_| ()).map_err(|e| e.error), hit)
	}
	fn announced(e: Event<Runtime>) -> bool {
		frame_system::Pallet::<Runtime>::events().iter().any(|r| r.event == RuntimeEvent::Communities(e.clone()))
	}
	/// What the module said has happened must be just this, in any order.
	fn told(&mut self, mut due: Vec<Event<Runtime>>, what: &str) {
		self.stats.announced += due.len() as u64;
		let mut extra = vec![];
		for e in frame_system::Pallet::<Runtime>::events() {
			if let RuntimeEvent::Communities(e) = e.event {
				match due.iter().position(|d| *d == e) {
					Some(i) => drop(due.remove(i)),
					None => extra.push(e),
				}
			}
		}
		if !extra.is_empty() || !due.is_empty() {
			self.say(&["C11"], format!("{what}: announced {extra:?}, did not announce {due:?}"));
		}
	}

	// === the state of everything against the model ===

	/// `concern`: whom a disagreement speaks against; `own`: the community that was to be acted on.
	fn compare(&mut self, what: &str, concern: &[&'static str], own: Option<u32>) {
		let with = |extra: &[&'static str]| {
			let mut t = concern.to_vec();
			t.extend(extra.iter().copied().filter(|x| !concern.contains(x)));
			t
		};
		// registry
		for c in CIDS {
			if Com::community_exists(&Cid(c)) != self.exists.contains_key(&c) {
				let t = with(&["C01"]);
				self.say(&t, format!("{what}: community {c} {}", if self.exists.contains_key(&c) { "is gone" } else { "exists" }));
			}
		}
		for o in self.universe.clone() {
			let got = EnsureCommunity::<Runtime>::try_origin(o.clone().into()).ok().map(|c| c.0);
			let should = self.speaks(&o);
			if got != should {
				let active = |c: Option<u32>| c.map_or(false, |c| self.exists.get(&c) == Some(&true));
				let odd = matches!(o, OriginCaller::system(frame_system::RawOrigin::Root | frame_system::RawOrigin::None) | OriginCaller::Communities(_));
				let t = if odd || (got.is_some() && !active(got)) { with(&["C02"]) } else { with(&["C01"]) };
				self.say(&t, format!("{what}: {o:?} speaks for {got:?} rather than {should:?}"));
			}
		}
		// memberships
		let now: BTreeMap<u32, Record> = members::all().into_iter().collect();
		if now != self.mems {
			for (m, r) in &now {
				let old = self.mems.get(m);
				if old != Some(r) {
					let theirs = old.map_or(false, |o| match &o.group {
						Some(g) => Some(g.0) == own,
						None => own.map_or(false, |c| o.owner == account_of(c)),
					});
					let t = if theirs { with(&["C03"]) } else { with(&["C02", "C03"]) };
					self.say(&t, format!("{what}: membership {m} is {r:?} rather than {old:?}"));
				}
			}
		}
		// decision methods, as they show in the electorate
		for c in CIDS {
			let e = self.electorate(c);
			if e == 0 {
				continue;
			}
			let bare = (e.min(u32::MAX as u128) / 2 + 1) as u32;
			let got = tally(0, 0, bare).support(Cid(c)).deconstruct();
			if !is_fraction(got, bare as u128, e) {
				let known = (e > u32::MAX as u128 && is_fraction(got, bare as u128, u32::MAX as u128)).then_some(CROWD);
				self.found.push(Finding {
					tags: if known.is_some() { vec!["C07"] } else if own == Some(c) { with(&["C07"]) } else { with(&["C02", "C07"]) },
					what: format!("{what}: {bare} of {e} by {:?} in community {c} is a support of {got} in 10^9", self.method(c)),
					known,
				});
			}
		}
		// tallies
		for (i, p) in self.polls.clone().iter().enumerate() {
			if !p.ongoing {
				continue;
			}
			let i = i as u32;
			let Some(polls::Poll::Ongoing(t, _)) = kv::get::<polls::Poll<Tally, Cid>>(&polls::key(i)) else {
				self.say(&with(&["C04"]), format!("{what}: poll {i} is no longer ongoing"));
				continue;
			};
			let raw = t.encode();
			let got = <[u32; 3]>::decode(&mut &raw[..]).expect("HARNESS-BUG: a tally is three numbers");
			let mut sum = [0u128; 3];
			for ((_, _), r) in self.votes.range((i, 0)..=(i, u32::MAX)) {
				let w = weight(&r.vote);
				if r.vote.say() {
					sum[0] += r.multiplier as u128 * w as u128;
					sum[2] += w as u128;
				} else {
					sum[1] += r.multiplier as u128 * w as u128;
				}
			}
			let ideal = sum.map(|x| x.min(u32::MAX as u128) as u32);
			if got != ideal {
				let known = if got == p.kept[0] && p.filled {
					Some(FULL)
				} else if got == p.kept[1] && p.drifted {
					Some(DRIFT)
				} else if got == p.kept[1] && p.filled {
					Some(FULL)
				} else {
					None
				};
				self.found.push(Finding {
					tags: if known.is_some() { vec!["C04"] } else { with(&["C04", "C06"]) },
					what: format!("{what}: poll {i} counts {got:?} where the votes on it make {ideal:?} (ayes, nays, bare ayes)"),
					known,
				});
			}
			let (a, n) = (got[0] as u128, got[1] as u128);
			let approval = t.approval(Cid(p.class)).deconstruct();
			if if a + n == 0 { approval != 0 } else { !is_fraction(approval, a, a + n) } {
				self.say(&["C07"], format!("{what}: poll {i} with {a} ayes and {n} nays has an approval of {approval} in 10^9"));
			}
			if t.ayes(Cid(p.class)) != got[0] {
				self.say(&["C06"], format!("{what}: poll {i} reports {} ayes where it counts {}", t.ayes(Cid(p.class)), got[0]));
			}
		}
		// locks
		let people: Vec<AccountId> = (0..PEOPLE).map(guy).chain(CIDS.iter().map(|c| account_of(*c))).collect();
		for who in &people {
			for asset in 0..4u32 {
				let x = ledger::account_of(&asset, who);
				let of = |k: &[u8]| x.freezes.iter().find(|f| f.0 == k).map_or(0, |f| f.1);
				let got = of(&reason());
				let need = self
					.votes
					.iter()
					.filter(|((p, _), r)| r.voter == *who && !self.released.contains(&(*p, who.clone())))
					.filter_map(|(_, r)| lockable(&r.vote).filter(|l| l.0 == asset).map(|l| l.1))
					.max()
					.unwrap_or(0);
				if got != need {
					let kept = self.frozen.get(&(who.clone(), asset)).copied().unwrap_or(0);
					let known = (got == kept && self.shared.contains(who)).then_some(SHARED);
					self.found.push(Finding {
						tags: if known.is_some() { vec!["C08"] } else { with(&["C08"]) },
						what: format!("{what}: {got} of asset {asset} is locked for {who:?} where {need} is needed"),
						known,
					});
				}
				let other = self.other_freezes.get(&(who.clone(), asset)).copied().unwrap_or(0);
				if of(&other_reason()) != other {
					self.say(&with(&["C08"]), format!("{what}: a lock of another kind on asset {asset} of {who:?} changed"));
				}
			}
		}
		// what dispatched calls left behind
		let seen: BTreeMap<u32, Vec<u8>> = probe::Seen::<Runtime>::iter().collect();
		if seen != self.seen {
			self.say(&with(&["C09"]), format!("{what}: the calls made were {seen:?} rather than {:?}", self.seen));
		}
	}
	/// At the end: the module's own answers about members.
	pub fn last_look(&mut self) -> Vec<Finding> {
		for p in 0..PEOPLE {
			for c in CIDS {
				let who = guy(p);
				let mut should: Vec<u32> =
					self.mems.iter().filter(|x| x.1.owner == who && x.1.group == Some(Cid(c))).map(|x| *x.0).collect();
				let mut got = Com::get_memberships(Cid(c), &who);
				should.sort();
				got.sort();
				if got != should || Com::is_member(&Cid(c), &who) == should.is_empty() {
					self.say(&["C03"], format!("at the end: {who:?} is said to hold {got:?} in community {c} rather than {should:?}"));
				}
				for m in should.iter() {
					if Com::member_rank(&Cid(c), m).0 != self.mems[m].rank {
						self.say(&["C03"], format!("at the end: membership {m} is said to have rank {:?}", Com::member_rank(&Cid(c), m)));
					}
				}
				let ok = EnsureMember::<Runtime>::try_origin(signed(who.clone()).into(), &Cid(c)).is_ok();
				if ok == should.is_empty() {
					self.say(&["C05"], format!("at the end: {who:?} is {}taken for a member of community {c}", if ok { "" } else { "not " }));
				}
			}
		}
		for o in self.universe.clone() {
			if matches!(o, OriginCaller::system(frame_system::RawOrigin::Signed(_))) {
				continue;
			}
			for c in CIDS {
				if EnsureMember::<Runtime>::try_origin(o.clone().into(), &Cid(c)).is_ok() {
					self.say(&["C05"], format!("at the end: {o:?} is taken for a member of community {c}"));
				}
			}
		}
		for c in CIDS {
			if self.exists.contains_key(&c) && !frame_system::Pallet::<Runtime>::account_exists(&account_of(c)) {
				self.say(&["C01", "C09"], format!("the account of community {c} does not exist"));
			}
			if Com::community_account(&Cid(c)) != account_of(c) {
				self.say(&["C09"], format!("the account of community {c} is {:?}", Com::community_account(&Cid(c))));
			}
		}
		std::mem::take(&mut self.found)
	}

	// === operations ===

	/// Judges the outcome of an operation that needs `allowed`.
	fn outcome(&mut self, what: &str, r: &Result<(), DispatchError>, hit: bool, concern: &'static str, speaks: bool, allowed: Result<(), &str>) {
		match (r, allowed) {
			(Ok(()), _) if hit => self.say(&[concern], format!("{what}: reported as done though a part of it failed")),
			(Ok(()), Err(why)) => {
				let tags: &[&'static str] = if speaks || concern == "C05" || concern == "C08" { &[concern] } else if concern == "C02" { &["C02"] } else { &["C02", concern] };
				let tags = tags.to_vec();
				self.say(&tags, format!("{what}: accepted though {why}"))
			}
			(Err(e), Ok(())) if !hit => self.say(&[concern], format!("{what}: refused with {e:?} though nothing stands against it")),
			_ => {}
		}
	}
	fn create(&mut self, by: By, admin: By, id: u8) {
		let (o, a, c) = (self.caller(by), self.caller(admin), cid(id));
		let what = format!("creating community {c} administered by {a:?}, by {o:?}");
		let payer = match &o {
			OriginCaller::system(frame_system::RawOrigin::Signed(p)) => Some(p.clone()),
			_ => None,
		};
		let taken = self.admins.iter().any(|(x, _)| *x == a);
		self.stats.taken_admin += taken as u64;
		let allowed = if self.exists.contains_key(&c) {
			Err("it exists")
		} else if taken {
			Err("the administrator has a community")
		} else if let Some(p) = &payer {
			let can = <Assets as frame_support::traits::fungibles::Inspect<AccountId>>::reducible_balance(NATIVE, p, Preservation::Preserve, Fortitude::Polite);
			if can < DEPOSIT { Err("the deposit cannot be paid") } else { Ok(()) }
		} else if matches!(o, OriginCaller::system(frame_system::RawOrigin::Root)) {
			Ok(())
		} else {
			Err("nobody pays for it")
		};
		let mut funds = balances();
		let (r, hit) = self.dispatch(&o, CCall::create { admin_origin: a.clone(), community_id: Cid(c) });
		self.outcome(&what, &r, hit, "C01", true, allowed);
		self.told(if r.is_ok() { vec![Event::CommunityCreated { id: Cid(c), origin: a.clone() }] } else { vec![] }, &what);
		if r.is_ok() {
			self.stats.created += 1;
			self.exists.insert(c, true);
			self.admins.push((a, c));
			if let Some(p) = payer {
				if let Some(f) = funds.get_mut(&(NATIVE.encode(), p.encode())) {
					*f = f.saturating_sub(DEPOSIT)
				}
				*funds.entry((NATIVE.encode(), treasury().encode())).or_default() += DEPOSIT;
			}
		}
		funds.retain(|_, f| *f > 0);
		self.compare(&what, &["C01"], Some(c));
		if balances() != funds {
			self.say(&["C01"], format!("{what}: balances are not what they should be"));
		}
	}
	fn set_admin(&mut self, by: By, to: By) {
		let (o, a) = (self.caller(by), self.caller(to));
		let what = format!("handing over to {a:?}, by {o:?}");
		let c = self.speaks(&o);
		let own = c.filter(|c| self.admins.iter().any(|(x, d)| *x == o && d == c));
		let taken = self.admins.iter().find(|(x, _)| *x == a).map(|x| x.1);
		self.stats.taken_admin += (own.is_some() && taken.is_some()) as u64;
		let allowed = match own {
			None => Err("the caller administers nothing"),
			Some(c) if taken.map_or(false, |t| t != c) => Err("the new administrator has a community"),
			_ => Ok(()),
		};
		let (r, hit) = self.dispatch(&o, CCall::set_admin_origin { admin_origin: a.clone() });
		self.outcome(&what, &r, hit, "C01", c.is_some(), allowed);
		self.told(
			match (&r, own) {
				(Ok(()), Some(c)) => vec![Event::AdminOriginSet { id: Cid(c), origin: a.clone() }],
				_ => vec![],
			},
			&what,
		);
		if let (Ok(()), Some(c)) = (&r, own) {
			self.stats.handed_over += 1;
			self.admins.retain(|(_, x)| *x != c);
			self.admins.push((a, c));
		}
		self.note_caller(c, None);
		self.compare(&what, &["C01"], c);
	}
	fn note_caller(&mut self, c: Option<u32>, target: Option<u32>) {
		self.stats.stray += c.is_none() as u64;
		self.stats.across += (c.is_some() && target.is_some() && c != target) as u64;
	}
	fn add(&mut self, by: By, who: u8) {
		let o = self.caller(by);
		let c = self.speaks(&o);
		let who = guy(who);
		let what = format!("adding {who:?}, by {o:?} of community {c:?}");
		let pool: Vec<u32> = c.map_or(vec![], |c| {
			self.mems.iter().filter(|x| x.1.group.is_none() && x.1.owner == account_of(c)).map(|x| *x.0).collect()
		});
		let allowed = match c {
			None => Err("the caller speaks for no community"),
			Some(_) if pool.is_empty() => Err("no membership is left"),
			_ => Ok(()),
		};
		let (r, hit) = self.dispatch(&o, CCall::add_member { who: who.clone().into() });
		self.outcome(&what, &r, hit, "C03", c.is_some(), allowed);
		if let (Ok(()), Some(c)) = (&r, c) {
			self.stats.members += 1;
			let want = Record { group: Some(Cid(c)), owner: who.clone(), rank: 0 };
			match pool.iter().find(|m| members::get(**m).as_ref() == Some(&want)) {
				Some(m) => {
					self.mems.insert(*m, want);
					self.told(vec![Event::MemberAdded { who: who.clone(), membership_id: *m }], &what);
					if !Self::announced(Event::MemberAdded { who, membership_id: *m }) {
						self.say(&["C03"], format!("{what}: not announced as membership {m}"));
					}
				}
				None => self.say(&["C03"], format!("{what}: none of the memberships the community had ({pool:?}) was handed over")),
			}
		} else {
			self.told(vec![], &what);
		}
		self.note_caller(c, None);
		self.compare(&what, &["C03"], c);
	}
	fn member_op(&mut self, by: By, target: u8, op: &Op) {
		let o = self.caller(by);
		let c = self.speaks(&o);
		let (m, call) = match op {
			Op::Remove { who, m, .. } => {
				let m = self.membership(cid(target), *m);
				(m, CCall::remove_member { who: self.who(*who, m).into(), membership_id: m })
			}
			Op::Promote { m, .. } => {
				let m = self.membership(cid(target), *m);
				(m, CCall::promote { membership_id: m })
			}
			Op::Demote { m, .. } => {
				let m = self.membership(cid(target), *m);
				(m, CCall::demote { membership_id: m })
			}
			_ => unreachable!("HARNESS-BUG"),
		};
		let what = format!("{call:?} by {o:?} of community {c:?}");
		let rec = self.mems.get(&m).cloned();
		let held = |c: u32| rec.as_ref().filter(|r| r.group == Some(Cid(c)));
		let named = match &call {
			CCall::remove_member { who, .. } => Some(who.clone()),
			_ => None,
		};
		let allowed = match c {
			None => Err("the caller speaks for no community"),
			Some(c) if held(c).is_none() => Err("the membership is not one of that community"),
			Some(c) if named.as_ref().map_or(false, |w| *w != held(c).unwrap().owner.clone().into()) => {
				Err("the named account does not hold that membership")
			}
			_ => Ok(()),
		};
		let (r, hit) = self.dispatch(&o, call);
		self.outcome(&what, &r, hit, "C03", c.is_some(), allowed);
		if let (Ok(()), Some(c), Ok(())) = (&r, c, allowed) {
			let mut rec = rec.clone().expect("HARNESS-BUG: it is held");
			let event = match op {
				Op::Remove { .. } => {
					self.stats.removed += 1;
					let who = rec.owner.clone();
					rec = Record { group: None, owner: account_of(c), rank: 0 };
					Event::MemberRemoved { who, membership_id: m }
				}
				_ => {
					self.stats.ranks += 1;
					rec.rank = if matches!(op, Op::Promote { .. }) { rec.rank.saturating_add(1) } else { rec.rank.saturating_sub(1) };
					Event::MembershipRankUpdated { membership_id: m, rank: rec.rank.into() }
				}
			};
			self.mems.insert(m, rec);
			if !Self::announced(event.clone()) {
				self.say(&["C03"], format!("{what}: {event:?} was not announced"));
			}
			self.told(vec![event], &what);
		} else {
			self.told(vec![], &what);
		}
		self.note_caller(c, Some(cid(target)));
		self.compare(&what, &["C03"], c);
	}
	fn set_method(&mut self, by: By, target: u8, method: Method) {
		let o = self.caller(by);
		let c = self.speaks(&o);
		let target = cid(target);
		let method: Dm = match method {
			Method::Membership => DecisionMethod::Membership,
			Method::Native => DecisionMethod::NativeToken,
			Method::Asset(a, min) => DecisionMethod::CommunityAsset(a as u32 % 3 + 1, min as u128),
			Method::Rank => DecisionMethod::Rank,
		};
		let what = format!("deciding by {method:?} in community {target}, by {o:?} of community {c:?}");
		let allowed = if c == Some(target) { Ok(()) } else { Err("the caller does not speak for that community") };
		let asset = |a: u32| ledger::asset_of(&a).map(|x| (x, ledger::maker_of(&a)));
		let before = if let DecisionMethod::CommunityAsset(a, _) = &method { asset(*a) } else { None };
		let (r, hit) = self.dispatch(&o, CCall::set_decision_method { community_id: Cid(target), decision_method: method.clone() });
		self.outcome(&what, &r, hit, "C02", c.is_some(), allowed);
		self.told(if r.is_ok() { vec![Event::DecisionMethodSet { id: Cid(target) }] } else { vec![] }, &what);
		if let (true, DecisionMethod::CommunityAsset(a, min)) = (r.is_ok(), &method) {
			// An asset that is not there is made, in the hands of the module.
			let due = before.clone().or(Some((ledger::Asset { issuance: 0, min: *min }, Some((account_of(0).encode(), false)))));
			let got = asset(*a);
			if got != due {
				self.say(&["C06"], format!("{what}: the asset, which was {before:?}, is {got:?} rather than {due:?}"));
			}
		}
		if r.is_ok() && allowed.is_ok() {
			self.stats.methods += 1;
			self.methods.insert(target, method);
		}
		self.note_caller(c, Some(target));
		self.compare(&what, &["C02"], c);
	}

	fn take_off(&mut self, poll: u32, m: u32) {
		let Some(r) = self.votes.remove(&(poll, m)) else { return };
		let class = self.polls[poll as usize].class;
		// Only plain votes are multiplied.
		let now = if lockable(&r.vote).is_some() { 1 } else { self.multiplier(class, m) };
		let w = weight(&r.vote);
		let p = &mut self.polls[poll as usize];
		p.drifted |= now != r.multiplier;
		for (t, k) in p.kept.iter_mut().zip([r.multiplier, now]) {
			if r.vote.say() {
				t[0] = t[0].saturating_sub(k.saturating_mul(w));
				t[2] = t[2].saturating_sub(w);
			} else {
				t[1] = t[1].saturating_sub(k.saturating_mul(w));
			}
		}
		self.unlock_as_kept(&r.voter, poll, &r.vote);
	}
	fn unlock_as_kept(&mut self, who: &AccountId, poll: u32, vote: &V) {
		let Some((asset, _)) = lockable(vote) else { return };
		self.locks.remove(&(who.clone(), poll));
		let left = self
			.locks
			.iter()
			.filter(|((w, _), _)| w == who)
			.filter_map(|(_, v)| lockable(v).filter(|l| l.0 == asset).map(|l| l.1))
			.max()
			.unwrap_or(0);
		self.frozen.insert((who.clone(), asset), left);
	}
	fn put_on(&mut self, poll: u32, m: u32, who: &AccountId, vote: V) {
		let class = self.polls[poll as usize].class;
		let k = self.multiplier(class, m);
		let w = weight(&vote);
		let twice = self.votes.range((poll, 0)..=(poll, u32::MAX)).any(|((_, n), r)| *n != m && r.voter == *who);
		let p = &mut self.polls[poll as usize];
		for t in p.kept.iter_mut() {
			let before = *t;
			if vote.say() {
				p.filled |= t[0].checked_add(k * w).is_none() || t[2].checked_add(w).is_none();
				t[0] = before[0].saturating_add(k * w);
				t[2] = before[2].saturating_add(w);
			} else {
				p.filled |= t[1].checked_add(k * w).is_none();
				t[1] = before[1].saturating_add(k * w);
			}
		}
		if let Some((asset, n)) = lockable(&vote) {
			let f = self.frozen.entry((who.clone(), asset)).or_default();
			*f = (*f).max(n);
			self.locks.insert((who.clone(), poll), vote.clone());
			self.stats.amount_votes += 1;
			self.stats.two_locks += (self.locks.keys().filter(|x| x.0 == *who).count() > 1) as u64;
			self.stats.limit_votes += (n >= u32::MAX as u128) as u64;
		}
		if twice {
			self.shared.insert(who.clone());
		}
		self.stats.ranked_votes += (k != 1) as u64;
		self.votes.insert((poll, m), Rec { voter: who.clone(), vote, multiplier: k });
	}
	fn poll_no(&self, n: u8) -> u32 {
		let n = n as usize;
		if n >= 250 || self.polls.is_empty() {
			return 900;
		}
		// mostly those somebody can vote on
		let live: Vec<u32> = (0..self.polls.len() as u32)
			.filter(|i| {
				let p = &self.polls[*i as usize];
				p.ongoing && self.mems.values().any(|r| r.group == Some(Cid(p.class)))
			})
			.collect();
		if n < 210 && !live.is_empty() {
			live[n % live.len()]
		} else {
			(n % self.polls.len()) as u32
		}
	}
	#[allow(clippy::too_many_arguments)]
	fn vote(&mut self, who: Who, poll: u8, m: Mem, kind: Kind, say: bool, amount: Amount) {
		let poll = self.poll_no(poll);
		let class = self.polls.get(poll as usize).map_or(1, |p| p.class);
		let m = self.on_poll(class, poll, m);
		let who = self.who(who, m);
		let method = self.method(class);
		let min = if let DecisionMethod::CommunityAsset(_, min) = &method { *min } else { 1 };
		let vote: V = match (kind, &method) {
			(Kind::Fit, DecisionMethod::CommunityAsset(a, _)) => Vote::AssetBalance(say, *a, self.amount(amount, &who, *a, min)),
			(Kind::Fit, DecisionMethod::NativeToken) | (Kind::Native, _) => Vote::NativeBalance(say, self.amount(amount, &who, NATIVE, min)),
			(Kind::Asset(a), _) => Vote::AssetBalance(say, a as u32 % 3 + 1, self.amount(amount, &who, a as u32 % 3 + 1, min)),
			(Kind::Fit, _) | (Kind::Standard, _) => Vote::Standard(say),
		};
		let what = format!("{vote:?} by {who:?} with membership {m} on poll {poll} of community {class} deciding by {method:?}");
		let rec = self.mems.get(&m);
		let ongoing = self.polls.get(poll as usize).map_or(false, |p| p.ongoing);
		let allowed = if !rec.map_or(false, |r| r.owner == who && r.group.is_some()) {
			Err("the voter does not hold that membership")
		} else if !ongoing {
			Err("the poll is not ongoing")
		} else if rec.unwrap().group != Some(Cid(class)) {
			Err("the membership is of another community")
		} else if weight(&vote) == 0 {
			Err("it weighs nothing")
		} else {
			match (&vote, &method) {
				(Vote::Standard(_), DecisionMethod::Membership | DecisionMethod::Rank) | (Vote::NativeBalance(..), DecisionMethod::NativeToken) => Ok(()),
				(Vote::AssetBalance(_, a, n), DecisionMethod::CommunityAsset(b, min)) if a == b => {
					if n >= min { Ok(()) } else { Err("it is below the minimum") }
				}
				_ => Err("it is not the kind of vote the community decides by"),
			}
		};
		let allowed = allowed.and_then(|()| match lockable(&vote) {
			Some((a, n)) if ledger::account_of(&a, &who).total() < n => Err("the amount cannot be locked"),
			_ => Ok(()),
		});
		let funds = balances();
		let (r, hit) = self.dispatch(&signed(who.clone()), CCall::vote { membership_id: m, poll_index: poll, vote: vote.clone() });
		self.outcome(&what, &r, hit, "C05", true, allowed);
		self.told(
			if r.is_ok() { vec![Event::VoteCasted { who: who.clone(), poll_index: poll, vote: vote.clone() }] } else { vec![] },
			&what,
		);
		if r.is_ok() && allowed.is_ok() {
			self.stats.votes += 1;
			self.stats.replaced += self.votes.contains_key(&(poll, m)) as u64;
			self.take_off(poll, m);
			self.put_on(poll, m, &who, vote);
		}
		self.stats.vote_refused += r.is_err() as u64;
		self.compare(&what, if r.is_ok() { &[] } else { &["C05"] }, None);
		if balances() != funds {
			self.say(&["C08"], format!("{what}: balances changed"));
		}
	}
	fn remove_vote(&mut self, who: Who, poll: u8, m: Mem) {
		let poll = self.poll_no(poll);
		let class = self.polls.get(poll as usize).map_or(1, |p| p.class);
		let m = self.on_poll(class, poll, m);
		let who = self.who(who, m);
		let what = format!("taking back the vote of membership {m} on poll {poll} of community {class}, by {who:?}");
		let rec = self.mems.get(&m);
		let ongoing = self.polls.get(poll as usize).map_or(false, |p| p.ongoing);
		let allowed = if !rec.map_or(false, |r| r.owner == who && r.group.is_some()) {
			Err("the caller does not hold that membership")
		} else if !ongoing {
			Err("the poll is not ongoing")
		} else if rec.unwrap().group != Some(Cid(class)) {
			Err("the membership is of another community")
		} else if !self.votes.contains_key(&(poll, m)) {
			Err("there is no such vote")
		} else {
			Ok(())
		};
		let (r, hit) = self.dispatch(&signed(who.clone()), CCall::remove_vote { membership_id: m, poll_index: poll });
		self.outcome(&what, &r, hit, "C05", true, allowed);
		self.told(if r.is_ok() { vec![Event::VoteRemoved { who: who.clone(), poll_index: poll }] } else { vec![] }, &what);
		if r.is_ok() && allowed.is_ok() {
			self.stats.unvoted += 1;
			self.take_off(poll, m);
		}
		self.compare(&what, if r.is_ok() { &[] } else { &["C05"] }, None);
	}
	fn unlock_one(&mut self, n: u8) {
		let (mut open, mut over) = (vec![], vec![]);
		for (who, poll) in self.locks.keys() {
			if self.polls[*poll as usize].ongoing { &mut open } else { &mut over }.push((who.clone(), *poll));
		}
		// mostly those of polls that are over
		let v = if over.is_empty() || n % 8 == 0 && !open.is_empty() { open } else { over };
		if !v.is_empty() {
			let (who, poll) = v[n as usize % v.len()].clone();
			self.unlock(who, poll);
		}
	}
	fn unlock(&mut self, who: AccountId, poll: u32) {
		let what = format!("unlocking {who:?} from poll {poll}");
		let ongoing = self.polls.get(poll as usize).map_or(false, |p| p.ongoing);
		let locked = !self.released.contains(&(poll, who.clone()))
			&& self.votes.range((poll, 0)..=(poll, u32::MAX)).any(|(_, r)| r.voter == who && lockable(&r.vote).is_some());
		let (r, hit) = self.dispatch(&signed(who.clone()), CCall::unlock { poll_index: poll });
		self.told(vec![], &what);
		if ongoing {
			self.outcome(&what, &r, hit, "C08", true, Err("the poll is ongoing"));
		} else if locked && !self.shared.contains(&who) {
			self.outcome(&what, &r, hit, "C08", true, Ok(()));
		}
		if r.is_ok() && !ongoing {
			self.stats.unlocked += 1;
			if let Some(v) = self.locks.get(&(who.clone(), poll)).cloned() {
				self.unlock_as_kept(&who, poll, &v);
			}
			self.released.insert((poll, who));
		}
		self.compare(&what, &["C08"], None);
	}
	fn inner(&mut self, i: &Inner) -> RuntimeCall {
		match i {
			Inner::Poke { fail } => {
				self.notes += 1;
				probe::Call::<Runtime>::poke { note: self.notes, fail: *fail }.into()
			}
			Inner::RootOnly => {
				self.notes += 1;
				probe::Call::<Runtime>::root_only { note: self.notes }.into()
			}
			Inner::Nested(i) => CCall::dispatch_as_account { call: Box::new(self.inner(i)) }.into(),
		}
	}
	/// What the call does for an account: the origin it ends up with and how it ends.
	fn foresee(&self, i: &Inner, who: AccountId) -> (AccountId, Result<(), DispatchError>) {
		match i {
			Inner::Poke { fail: false } => (who, Ok(())),
			Inner::Poke { fail: true } => (who, Err(probe::Error::<Runtime>::Asked.into())),
			Inner::RootOnly => (who, Err(DispatchError::BadOrigin)),
			Inner::Nested(i) => match self.speaks(&signed(who.clone())) {
				Some(c) => self.foresee(i, account_of(c)),
				None => (who, Err(DispatchError::BadOrigin)),
			},
		}
	}
	fn dispatch_as(&mut self, by: By, inner: &Inner) {
		let o = self.caller(by);
		let c = self.speaks(&o);
		let call = self.inner(inner);
		let note = self.notes;
		let what = format!("running {inner:?} (note {note}) by {o:?} of community {c:?}");
		frame_system::Pallet::<Runtime>::reset_events();
		let r = RuntimeCall::from(CCall::dispatch_as_account { call: Box::new(call) }).dispatch(o.clone().into());
		let got = r.map(|_| ()).map_err(|e| e.error);
		self.stats.refused += got.is_err() as u64;
		self.told(vec![], &what);
		match c {
			None => self.outcome(&what, &got, false, "C02", false, Err("the caller speaks for no community")),
			Some(c) => {
				let (who, end) = self.foresee(inner, account_of(c));
				if got != end {
					self.say(&["C09"], format!("{what}: ended as {got:?} where the call ends as {end:?}"));
				}
				if end.is_ok() {
					self.stats.dispatched += 1;
					self.seen.insert(note, signed(who).encode());
					let free = r.map_or(false, |p| p.pays_fee == frame_support::dispatch::Pays::No);
					if free != (note % 2 == 1) {
						self.say(&["C09"], format!("{what}: reported as {}free of charge", if free { "" } else { "not " }));
					}
				}
			}
		}
		self.note_caller(c, None);
		self.compare(&what, if c.is_some() { &["C09"] } else { &["C02"] }, c);
	}

	pub fn step(&mut self, op: &Op) -> Vec<Finding> {
		match op {
			Op::Create { by, admin, id } => self.create(*by, *admin, *id),
			Op::SetAdmin { by, to } => self.set_admin(*by, *to),
			Op::Add { by, who } => self.add(*by, *who),
			Op::Remove { by, c, .. } | Op::Promote { by, c, .. } | Op::Demote { by, c, .. } => self.member_op(*by, *c, op),
			Op::SetMethod { by, c, method } => self.set_method(*by, *c, *method),
			Op::Vote { who, poll, m, kind, say, amount } => self.vote(*who, *poll, *m, *kind, *say, *amount),
			Op::RemoveVote { who, poll, m } => self.remove_vote(*who, *poll, *m),
			Op::Unlock { who, poll } => self.unlock(guy(*who), self.poll_no(*poll)),
			Op::UnlockOne { n } => self.unlock_one(*n),
			Op::Dispatch { by, inner } => self.dispatch_as(*by, inner),
			Op::Poll { c } => {
				let c = cid(*c);
				if self.polls.len() < 12 {
					let t = <Tally as VoteTally<u32, Cid>>::new(Cid(c));
					kv::put(&polls::key(self.polls.len() as u32), &polls::Poll::Ongoing(t, Cid(c)));
					self.polls.push(Poll { class: c, ongoing: true, kept: [[0; 3]; 2], drifted: false, filled: false });
				}
			}
			Op::EndPoll { poll, how } => {
				let i = self.poll_no(*poll);
				if let Some(p) = self.polls.get_mut(i as usize) {
					p.ongoing = false;
					match how % 3 {
						0 => kv::put(&polls::key(i), &polls::Poll::<Tally, Cid>::Completed(1, true)),
						1 => kv::put(&polls::key(i), &polls::Poll::<Tally, Cid>::Completed(1, false)),
						_ => sp_io::storage::clear(&polls::key(i)),
					}
				}
			}
			Op::Block { c, on } => {
				let c = cid(*c);
				Com::force_state(&Cid(c), if *on { CommunityState::Blocked } else { CommunityState::Active });
				if let Some(x) = self.exists.get_mut(&c) {
					*x = !on;
				}
				self.compare(&format!("{} community {c}", if *on { "blocking" } else { "unblocking" }), &[], Some(c));
			}
			Op::Mint { c } => {
				let c = *c as usize % CIDS.len();
				let taken = self.mems.keys().filter(|m| **m as usize / 8 == c).count() as u32;
				if taken < 8 {
					let (m, r) = (c as u32 * 8 + taken, Record { group: None, owner: account_of(CIDS[c]), rank: 0 });
					members::put(m, &r);
					self.mems.insert(m, r);
				}
			}
			Op::Gift { m, to } => {
				let m = self.membership(0, Mem::Any(*m));
				if let Some(r) = self.mems.get_mut(&m).filter(|r| r.group.is_none()) {
					r.owner = account_of(cid(*to));
					members::put(m, r);
				}
			}
			Op::Rank { m, rank } => {
				let n = *m as u32;
				let m = if self.mems.contains_key(&n) { n } else { self.membership(0, Mem::Any(*m)) };
				if let Some(r) = self.mems.get_mut(&m).filter(|r| r.group.is_some()) {
					r.rank = *rank;
					members::put(m, r);
				}
			}
			Op::Move { from, to, asset, share } => {
				let (a, from, to) = (asset_no(*asset), guy(*from), guy(*to));
				let can = Assets::reducible_balance(a, &from, Preservation::Preserve, Fortitude::Polite);
				let _ = Assets::transfer(a, &from, &to, can * *share as u128 / 100, Preservation::Preserve);
			}
			Op::Freeze { who, asset, share } => {
				let (a, who) = (asset_no(*asset), guy(*who));
				let mut x = ledger::account_of(&a, &who);
				let n = x.free * *share as u128 / 100;
				x.freezes.retain(|f| f.0 != other_reason());
				if n > 0 {
					x.freezes.push((other_reason(), n));
				}
				ledger::set_account(&a, &who, &x);
				self.other_freezes.insert((who, a), n);
			}
			Op::Fault(n) => self.fault = Some(*n as u32),
			Op::LedgerFault(n) => self.ledger_fault = Some(*n as u32),
		}
		std::mem::take(&mut self.found)
	}
}
