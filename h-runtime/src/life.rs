//! R16, R17: payments and communities from beginning to end, by calls as they come over the wire.
use crate::money::*;
use crate::world::*;
use kreivo_runtime::*;
use pallet_payments::PaymentId as _;
use parity_scale_codec::{Compact, Encode};
use serde::{Deserialize, Serialize};
use std::collections::BTreeMap;
use vkit::proptest::{collection::vec, prelude::*};
use vkit::{req, req_eq, Ctx, Verdict};
use vmock::ledger;

// ---- R16

/// Who takes part: people, communities, the treasury's like.
fn party(n: u8) -> Acc {
	match n % 6 {
		n @ 0..=2 => Acc::User(n),
		3 => Acc::Community(1),
		4 => Acc::Community(700),
		_ => Acc::Module(1, 0),
	}
}
#[derive(Clone, Copy, Debug, Serialize, Deserialize, PartialEq, Eq, Hash)]
pub enum By {
	/// whoever it is for
	Right,
	/// the other party
	Other,
	/// a party, as the one who signed
	Party(u8),
	/// a community as such
	Voice(u8),
	Root,
}
#[derive(Clone, Copy, Debug, Serialize, Deserialize, PartialEq, Eq, Hash)]
pub enum Kind {
	Release,
	AskRefund,
	Accept,
	Cancel,
	Dispute,
	Resolve { percent: u8, for_sender: bool },
}
#[derive(Clone, Debug, Serialize, Deserialize, PartialEq, Eq, Hash)]
pub enum Deal {
	Pay { from: u8, to: u8, as_community: bool, asset: u8, amount: u128, remark: Option<u8> },
	Request { from: u8, to: u8, asset: u8, amount: u128 },
	Step { which: u8, by: By, kind: Kind },
	/// some blocks go by
	Wait(u16),
	/// until that many blocks before the next refund is due
	UntilDue(u8),
}
#[derive(Clone, Debug, Serialize, Deserialize)]
pub struct DealCase {
	pub mins: [u32; 2],
	pub deals: Vec<Deal>,
}
pub fn deals() -> BoxedStrategy<DealCase> {
	let amount = || prop_oneof![3 => 1u128..2_000, 3 => (1u128..200, 0u128..100).prop_map(|(a, b)| a * 100 + b), 3 => any::<u32>().prop_map(|x| x as u128 + 1), 2 => 1u128..1_000_000_000_000_000];
	let percent = prop_oneof![1 => Just(0u8), 1 => Just(100), 1 => Just(50), 3 => 0u8..=100];
	let kind = prop_oneof![
		3 => Just(Kind::Release),
		4 => Just(Kind::AskRefund),
		3 => Just(Kind::Accept),
		2 => Just(Kind::Cancel),
		5 => Just(Kind::Dispute),
		5 => (percent, any::<bool>()).prop_map(|(percent, for_sender)| Kind::Resolve { percent, for_sender }),
	];
	let by = prop_oneof![14 => Just(By::Right), 1 => Just(By::Other), 1 => (0u8..6).prop_map(By::Party), 1 => (0u8..2).prop_map(By::Voice), 1 => Just(By::Root)];
	let which = prop_oneof![3 => Just(0u8), 1 => 1u8..4];
	let deal = prop_oneof![
		5 => (0u8..6, 0u8..6, any::<bool>(), 0u8..2, amount(), prop_oneof![Just(None), (0u8..=50).prop_map(Some)])
			.prop_map(|(from, to, as_community, asset, amount, remark)| Deal::Pay { from, to, as_community, asset, amount, remark }),
		2 => (0u8..6, 0u8..6, 0u8..2, amount()).prop_map(|(from, to, asset, amount)| Deal::Request { from, to, asset, amount }),
		14 => (which, by, kind).prop_map(|(which, by, kind)| Deal::Step { which, by, kind }),
		1 => prop_oneof![0u16..3, any::<u16>()].prop_map(Deal::Wait),
		2 => (0u8..3).prop_map(Deal::UntilDue),
	];
	let min = || prop_oneof![3 => Just(1u32), 2 => 1u32..100, 1 => 1u32..1_000_000];
	(min(), min(), vec(deal, 2..16)).prop_map(|(a, b, deals)| DealCase { mins: [a, b], deals }).boxed()
}

#[derive(Clone, Copy, Debug, PartialEq, Eq)]
pub enum Phase {
	Open,
	Requested,
	Refunding { due: u32 },
	Disputed,
	Over,
}
pub struct Payment {
	pub id: Vec<u8>,
	pub from: u8,
	pub to: u8,
	pub asset: u8,
	pub amount: u128,
	pub phase: Phase,
	/// given back, so that nothing is left of it
	pub undone: bool,
}
/// What everybody has: free and held.
pub struct Book {
	mins: [u32; 2],
	have: BTreeMap<(u8, u8), (i128, i128)>,
}
const TREASURY: u8 = 6;
const WEALTH: u128 = 1_000_000_000_000_000_000_000;
pub fn who(n: u8) -> AccountId {
	if n == TREASURY {
		treasury()
	} else {
		party(n).account()
	}
}
impl Book {
	fn at(&mut self, asset: u8, n: u8) -> &mut (i128, i128) {
		self.have.get_mut(&(asset, n)).expect("HARNESS-BUG: known")
	}
	fn transfer(&mut self, asset: u8, from: u8, to: u8, x: u128) {
		self.at(asset, from).0 -= x as i128;
		self.at(asset, to).0 += x as i128;
	}
	fn hold(&mut self, asset: u8, n: u8, x: u128) {
		let h = self.at(asset, n);
		h.0 -= x as i128;
		h.1 += x as i128;
	}
	fn unhold(&mut self, asset: u8, n: u8, x: u128) {
		let h = self.at(asset, n);
		h.0 += x as i128;
		h.1 -= x as i128;
	}
	pub fn fee(&self, p: &Payment, sender: bool) -> u128 {
		let (percent, n) = if sender { (1, p.from) } else { (3, p.to) };
		schedule(percent, &who(n), p.amount, self.mins[p.asset as usize] as u128)
	}
	fn reserve(&self, p: &Payment) -> u128 {
		self.fee(p, true) + share(10, p.amount)
	}
	fn fees(&mut self, p: &Payment) {
		let (s, b) = (self.fee(p, true), self.fee(p, false));
		self.transfer(p.asset, p.from, TREASURY, s);
		self.transfer(p.asset, p.to, TREASURY, b);
	}
	/// Everything held for it becomes free: the amount is the beneficiary's.
	fn open_up(&mut self, p: &Payment) {
		let r = self.reserve(p);
		self.unhold(p.asset, p.from, r);
		self.unhold(p.asset, p.to, p.amount);
	}
	fn refund(&mut self, p: &Payment) {
		self.open_up(p);
		self.transfer(p.asset, p.to, p.from, p.amount);
	}
	fn compare(&self, what: &str) -> Verdict {
		for ((asset, n), (free, held)) in &self.have {
			let a = ledger::account_of(&asset_n(*asset), &who(*n));
			req_eq!((a.free as i128, a.held() as i128), (*free, *held), "{what}: what {} has free and held of asset {asset}", if *n == TREASURY { "the treasury".into() } else { format!("{:?}", party(*n)) });
		}
		Ok(())
	}
}

pub fn check_deals(c: &DealCase, cx: &mut Ctx) -> Verdict {
	let (_, _, telling) = play_deals(c, cx)?;
	if telling {
		cx.nontrivial(&(c.mins, &c.deals));
	}
	Ok(())
}
/// What the payments have come to, and whether they tell anything.
pub fn play_deals(c: &DealCase, cx: &mut Ctx) -> Result<(Vec<Payment>, Book, bool), String> {
	fresh();
	let mut now = 10u32;
	System::set_block_number(now);
	let mut book = Book { mins: c.mins, have: BTreeMap::new() };
	for asset in 0..2u8 {
		let a = asset_n(asset);
		ledger::set_asset(&a, &ledger::Asset { issuance: 0, min: c.mins[asset as usize] as u128 });
		for n in 0..=TREASURY {
			ledger::endow(&a, &who(n), WEALTH);
			book.have.insert((asset, n), (WEALTH as i128, 0));
		}
	}
	let mut payments: Vec<Payment> = vec![];
	let (mut settled_well, mut refused, mut deep) = (0u32, 0u32, false);
	for (step, deal) in c.deals.iter().enumerate() {
		System::set_extrinsic_index(step as u32);
		let what = format!("step {step}: {deal:?}");
		match deal {
			Deal::Pay { from, to, as_community, asset, amount, remark } => {
				let (from, to) = (from % 6, if to % 6 == from % 6 { (to + 1) % 6 } else { to % 6 });
				let by = match party(from) {
					Acc::Community(id) if *as_community => Org::Voice(id),
					a => Org::Signed(a),
				};
				let id = <Runtime as pallet_payments::Config>::PaymentId::next(&who(from), &who(to)).ok_or("there is no identifier")?.encode();
				let remark = remark.map(|n| vec![n; n as usize]);
				let r = dispatch(&by, call(60, 0, (Raw(address(&who(to))), asset_n(*asset), Compact(*amount), remark)));
				req!(r.is_ok(), "{what}: refused with {r:?}");
				let p = Payment { id, from, to, asset: *asset, amount: *amount, phase: Phase::Open, undone: false };
				let reserve = book.reserve(&p);
				book.hold(*asset, from, reserve);
				book.transfer(*asset, from, to, *amount);
				book.hold(*asset, to, *amount);
				payments.push(p);
			}
			Deal::Request { from, to, asset, amount } => {
				let (from, to) = (from % 6, if to % 6 == from % 6 { (to + 1) % 6 } else { to % 6 });
				let id = <Runtime as pallet_payments::Config>::PaymentId::next(&who(from), &who(to)).ok_or("there is no identifier")?.encode();
				let r = dispatch(&Org::Signed(party(to)), call(60, 12, (Raw(address(&who(from))), asset_n(*asset), Compact(*amount))));
				req!(r.is_ok(), "{what}: refused with {r:?}");
				payments.push(Payment { id, from, to, asset: *asset, amount: *amount, phase: Phase::Requested, undone: false });
			}
			Deal::Step { which, by, kind } => {
				if payments.is_empty() {
					continue;
				}
				// The latest ones first.
				let i = payments.len() - 1 - *which as usize % payments.len();
				let p = &payments[i];
				let (right, other) = match kind {
					Kind::Release | Kind::AskRefund | Kind::Accept => (Some(p.from), p.to),
					Kind::Cancel | Kind::Dispute => (Some(p.to), p.from),
					Kind::Resolve { .. } => (None, p.to),
				};
				let org = match by {
					By::Right => right.map_or(Org::Root, |n| Org::Signed(party(n))),
					By::Other => Org::Signed(party(other)),
					By::Party(n) => Org::Signed(party(*n)),
					By::Voice(n) => match party(3 + n % 2) {
						Acc::Community(id) => Org::Voice(id),
						_ => unreachable!(),
					},
					By::Root => Org::Root,
				};
				// As whom the caller acts here. Communities as such pay, and only that.
				let acts: Option<AccountId> = match &org {
					Org::Signed(a) => Some(a.account()),
					Org::Voice(id) if matches!(kind, Kind::Release | Kind::AskRefund | Kind::Accept) => Some(community_account(*id)),
					_ => None,
				};
				let entitled = match right {
					None => org == Org::Root,
					Some(n) => acts == Some(who(n)),
				};
				let timely = match kind {
					Kind::Release | Kind::AskRefund => p.phase == Phase::Open,
					Kind::Accept => p.phase == Phase::Requested,
					Kind::Cancel => matches!(p.phase, Phase::Open | Phase::Refunding { .. }),
					Kind::Dispute => matches!(p.phase, Phase::Refunding { due } if due > now),
					Kind::Resolve { .. } => p.phase == Phase::Disputed,
				};
				let (index, extra) = match kind {
					Kind::Release => (1, vec![]),
					Kind::AskRefund => (2, vec![]),
					Kind::Accept => (3, vec![]),
					Kind::Cancel => (10, vec![]),
					Kind::Dispute => (11, vec![]),
					Kind::Resolve { percent, for_sender } => (20, vec![(*percent).min(100), !for_sender as u8]),
				};
				let mut args = p.id.clone();
				args.extend(extra);
				let r = dispatch(&org, call(60, index, Raw(args)));
				let what = format!("{what} of {:?} from {:?} to {:?} ({:?}) by {org:?}", p.amount, party(p.from), party(p.to), p.phase);
				req_eq!(r.is_ok(), entitled && timely, "{what}: {r:?}");
				if r.is_err() {
					refused += 1;
				} else {
					let p = &payments[i];
					let next = match kind {
						Kind::Release => {
							book.open_up(p);
							book.fees(p);
							Phase::Over
						}
						Kind::AskRefund => Phase::Refunding { due: now + 14_400 },
						Kind::Accept => {
							book.fees(p);
							book.transfer(p.asset, p.from, p.to, p.amount);
							Phase::Over
						}
						Kind::Cancel => {
							book.refund(p);
							Phase::Over
						}
						Kind::Dispute => {
							book.hold(p.asset, p.to, share(10, p.amount));
							Phase::Disputed
						}
						Kind::Resolve { percent, for_sender } => {
							deep = true;
							let bet = share(10, p.amount);
							book.open_up(p);
							book.unhold(p.asset, p.to, bet);
							book.fees(p);
							let ruled = share((*percent).min(100) as u128, p.amount);
							if *for_sender {
								book.transfer(p.asset, p.to, p.from, ruled);
								book.transfer(p.asset, p.to, TREASURY, bet);
							} else {
								book.transfer(p.asset, p.to, p.from, p.amount - ruled);
								book.transfer(p.asset, p.from, TREASURY, bet);
							}
							Phase::Over
						}
					};
					settled_well += (next == Phase::Over) as u32;
					cx.label(match (kind, next) {
						(Kind::Release, _) => "released",
						(Kind::Accept, _) => "a request was accepted",
						(Kind::Cancel, _) => "cancelled",
						(Kind::Resolve { .. }, _) => "resolved",
						(Kind::Dispute, _) => "disputed",
						_ => "a refund was asked for",
					});
					payments[i].phase = next;
					payments[i].undone = *kind == Kind::Cancel;
				}
			}
			Deal::Wait(_) | Deal::UntilDue(_) => {
				let due = |p: &Payment| match p.phase {
					Phase::Refunding { due } => Some(due),
					_ => None,
				};
				let target = match deal {
					Deal::Wait(n) => now + *n as u32,
					Deal::UntilDue(n) => match payments.iter().filter_map(due).min() {
						Some(d) => (d - *n as u32).max(now),
						None => continue,
					},
					_ => unreachable!(),
				};
				// Every block in which something is due.
				while now < target {
					let next = payments.iter().filter_map(due).filter(|d| *d > now).min();
					let at = next.map_or(target, |d| d.min(target));
					// The block before it must leave everything as it is.
					for at in [(at - 1).max(now + 1), at] {
						if at <= now {
							continue;
						}
						now = at;
						System::set_block_number(now);
						Scheduler::run_due();
						for p in payments.iter_mut() {
							if due(p) == Some(now) {
								book.refund(p);
								(p.phase, p.undone) = (Phase::Over, true);
								settled_well += 1;
								deep = true;
								cx.label("refunded by the passing of time");
							}
						}
						book.compare(&format!("{what}, block {now}"))?;
					}
				}
			}
		}
		book.compare(&what)?;
	}
	Ok((payments, book, settled_well > 0 && (deep || refused > 0)))
}

// ---- R17

#[derive(Clone, Debug, Serialize, Deserialize, PartialEq, Eq, Hash)]
pub struct Entry {
	by: Org,
	id: u16,
	name: Vec<u8>,
	admin: Acc,
	/// none, by members, by the native token, by an asset, by rank
	method: u8,
	/// rules of its own
	rules: Option<u8>,
}
#[derive(Clone, Debug, Serialize, Deserialize)]
pub struct EntryCase {
	/// in fourths of the price, and a little
	funds: Vec<(u8, i8)>,
	entries: Vec<Entry>,
}
const PRICE: u128 = 500_000_000_000;
pub fn entries() -> BoxedStrategy<EntryCase> {
	let by = prop_oneof![5 => Just(Org::Root), 6 => (0u8..4).prop_map(|n| Org::Signed(Acc::User(n))), 2 => org()];
	let name = prop_oneof![8 => "[a-zA-Z ]{0,25}".prop_map(String::into_bytes), 2 => "[a-zé→]{0,8}".prop_map(String::into_bytes), 1 => vec(any::<u8>(), 0..25)];
	let admin = prop_oneof![6 => (0u8..6).prop_map(Acc::User), 2 => small_id().prop_map(Acc::Community), 1 => acc()];
	let e = (by, prop_oneof![8 => 1u16..6, 2 => small_id()], name, admin, 0u8..5, prop_oneof![3 => Just(None), 1 => (0u8..=100).prop_map(Some)])
		.prop_map(|(by, id, name, admin, method, rules)| Entry { by, id, name, admin, method, rules });
	(vec((0u8..9, -2i8..3), 4), vec(e, 1..6)).prop_map(|(funds, entries)| EntryCase { funds, entries }).boxed()
}
type Info = kreivo_deps::pallet_referenda::TrackInfo<Balance, BlockNumber>;
fn own_rules(floor: u8, name: &[u8]) -> Info {
	use kreivo_deps::pallet_referenda::Curve;
	let mut padded = [0u8; 25];
	padded[..name.len()].copy_from_slice(name);
	let line = |p: u8| Curve::LinearDecreasing { length: Perbill::from_percent(100), floor: Perbill::from_percent(p as u32), ceil: Perbill::from_percent(100) };
	Info {
		name: padded,
		max_deciding: floor as u32,
		decision_deposit: floor as u128 * 7,
		prepare_period: floor as u32 + 1,
		decision_period: floor as u32 + 3,
		confirm_period: floor as u32 + 5,
		min_enactment_period: floor as u32 + 7,
		min_approval: line(floor),
		min_support: line(100 - floor),
	}
}
fn usual_rules(i: &Info, name: &[u8]) -> Verdict {
	let mut padded = [0u8; 25];
	padded[..name.len()].copy_from_slice(name);
	req_eq!(i.name, padded, "the track's name");
	let plain = (i.max_deciding, i.decision_deposit, i.prepare_period, i.decision_period, i.confirm_period, i.min_enactment_period);
	req_eq!(plain, (1, 0, 1, 255, 1, 1), "deciding at once, deposit, periods of preparation, decision, confirmation, enactment");
	for p in [0u32, 1, 33, 50, 77, 100] {
		let x = Perbill::from_percent(p);
		let near = |t: Perbill, halves: u32| (t.deconstruct() as i64 - halves as i64 * 5_000_000).abs() < 10;
		req!(near(i.min_approval.threshold(x), 200 - p), "{:?} approval is needed after {p}%", i.min_approval.threshold(x));
		req!(near(i.min_support.threshold(x), 100 - p), "{:?} support is needed after {p}%", i.min_support.threshold(x));
	}
	Ok(())
}
pub fn method_bytes(n: u8) -> Vec<u8> {
	match n {
		0 => vec![0],
		1 => vec![1, 0],
		2 => vec![1, 1],
		3 => {
			let mut b = vec![1, 2];
			(asset_n(0), 5u128).encode_to(&mut b);
			b
		}
		_ => vec![1, 3],
	}
}
pub fn check_entries(c: &EntryCase, cx: &mut Ctx) -> Verdict {
	settled();
	System::set_block_number(3);
	let min = least();
	for (n, (fourths, more)) in c.funds.iter().enumerate() {
		let x = (*fourths as u128 * PRICE / 4 + min).saturating_add_signed(*more as i128);
		fund(&Acc::User(n as u8).account(), x);
	}
	fund(&treasury(), min);
	let money = || -> BTreeMap<Vec<u8>, u128> { ledger::all_accounts().into_iter().filter(|x| x.2.total() > 0).map(|x| (x.1, x.2.total())).collect() };
	let seats = || {
		let mut s = KreivoCollective::seats();
		s.sort();
		s
	};
	let mut owners: BTreeMap<u16, AccountId> = CommunityMemberships::collections().into_iter().collect();
	let mut sitting = seats();
	let mut tracks: BTreeMap<u16, (Info, OriginCaller)> = BTreeMap::new();
	let mut admins: BTreeMap<u16, AccountId> = BTreeMap::new();
	let (mut done, mut undone) = (0, 0);
	for (step, e) in c.entries.iter().enumerate() {
		let admin = e.admin.account();
		let payer = match &e.by {
			Org::Signed(a) => Some(a.account()),
			_ => None,
		};
		let what = format!("step {step}: {e:?}");
		let mut funds = money();
		let against = if !matches!(e.by, Org::Root | Org::Signed(_)) {
			Some("the caller may not")
		} else if std::str::from_utf8(&e.name).is_err() {
			Some("the name is no text")
		} else if owners.contains_key(&e.id) {
			Some("it exists")
		} else if admins.values().any(|a| *a == admin) {
			Some("the administrator has a community")
		} else if payer.as_ref().map_or(false, |p| native(p) < PRICE + min) {
			Some("the price cannot be paid")
		} else {
			None
		};
		let before = sp_io::storage::snapshot();
		let mut args = (e.id, e.name.clone(), Raw(address(&admin)), Raw(method_bytes(e.method))).encode();
		e.rules.map(|r| own_rules(r, &e.name)).encode_to(&mut args);
		let r = dispatch(&e.by, call(75, 0, Raw(args)));
		match (&r, against) {
			(Err(x), None) => return Err(format!("{what}: refused with {x:?} though nothing stands against it")),
			(Ok(()), Some(why)) => return Err(format!("{what}: done though {why}")),
			(Err(x), Some(why)) => {
				req!(before == sp_io::storage::snapshot(), "{what}: refused with {x:?} but something changed");
				undone += 1;
				cx.label(why);
			}
			(Ok(()), None) => {
				done += 1;
				cx.label(if payer.is_some() { "registered and paid for" } else { "registered for free" });
				if let Some(p) = payer {
					let left = funds[&p.encode()] - PRICE;
					funds.insert(p.encode(), left);
					*funds.entry(treasury().encode()).or_default() += PRICE;
				}
				owners.insert(e.id, community_account(e.id));
				sitting.push((community_account(e.id), 0));
				sitting.sort();
				admins.insert(e.id, admin.clone());
				let all: BTreeMap<u16, (Info, OriginCaller)> = CommunityTracks::tracks_with_origins().into_iter().collect();
				let (info, of) = all.get(&e.id).ok_or_else(|| format!("{what}: there is no track"))?.clone();
				match e.rules {
					Some(r) => req_eq!(info, own_rules(r, &e.name), "{what}: the rules"),
					None => usual_rules(&info, &e.name).map_err(|e| format!("{what}: {e}"))?,
				}
				req!(of == Org::Voice(e.id).caller(), "{what}: the track is for {of:?}");
				tracks.insert(e.id, (info, of));
			}
		}
		req!(money() == funds, "{what}: the balances are {:?} rather than {funds:?}", money());
		let got: BTreeMap<u16, AccountId> = CommunityMemberships::collections().into_iter().collect();
		req!(got == owners, "{what}: the collections are {got:?} rather than {owners:?}");
		req_eq!(seats(), sitting, "{what}: the seats in the collective");
		let got: BTreeMap<u16, (Info, OriginCaller)> = CommunityTracks::tracks_with_origins().into_iter().collect();
		req!(got == tracks, "{what}: the tracks are {got:?} rather than {tracks:?}");
		// The administrator speaks for the community, and nobody else does: handing it over shows.
		let who = e.admin.account();
		let speaks = {
			sp_io::storage::start_transaction();
			let r = dispatch(&Org::Signed(e.admin.clone()), call(71, 7, Raw([&e.id.encode()[..], &[0]].concat())));
			sp_io::storage::rollback_transaction();
			r.is_ok()
		};
		let own = community_of(&who) == Some(e.id) && !admins.values().any(|a| *a == who);
		let rules = admins.get(&e.id) == Some(&who);
		req!(!speaks || rules || own, "{what}: {who:?} decides how community {} decides", e.id);
		if r.is_ok() {
			req!(speaks, "{what}: the administrator cannot decide how the community decides");
		}
	}
	if done > 0 && undone > 0 {
		cx.nontrivial(&(&c.funds, &c.entries));
	}
	Ok(())
}

#[derive(Clone, Debug, Serialize, Deserialize, PartialEq, Eq, Hash)]
pub struct Minting {
	by: Org,
	amount: u16,
	start: u32,
	price: u128,
}
pub fn mintings() -> BoxedStrategy<Vec<Minting>> {
	let by = prop_oneof![4 => Just(Org::Root), 4 => Just(Org::CreateMemberships), 1 => Just(Org::Signed(Acc::Module(0, 0))), 1 => Just(Org::Voice(0)), 2 => org()];
	let amount = prop_oneof![12 => 0u16..12, 3 => 0u16..60, 1 => (0u16..5).prop_map(|d| 1026 - d)];
	let start = prop_oneof![4 => 0u32..40, 1 => any::<u32>(), 1 => (0u32..40).prop_map(|d| u32::MAX - d)];
	vec((by, amount, start, vkit::edgy_u128()).prop_map(|(by, amount, start, price)| Minting { by, amount, start, price }), 1..5).boxed()
}
pub fn check_mintings(c: &Vec<Minting>, cx: &mut Ctx) -> Verdict {
	settled();
	type Items = BTreeMap<(u16, u32), (AccountId, Option<(u128, Option<AccountId>)>)>;
	let items = || -> Items { CommunityMemberships::items().into_iter().map(|(k, i)| (k, (i.owner, i.price))).collect() };
	let mut model = items();
	let (mut done, mut refused) = (0, 0);
	for (step, m) in c.iter().enumerate() {
		let what = format!("step {step}: {m:?}");
		let left = (u32::MAX - m.start).max(1);
		let wrap = (m.amount as u64) > left as u64;
		let ids: Vec<(u16, u32)> = (0..m.amount as u32).map_while(|k| m.start.checked_add(k)).map(|i| (0, i)).collect();
		let may = matches!(m.by, Org::Root | Org::CreateMemberships);
		let before = sp_io::storage::snapshot();
		let r = dispatch(&m.by, call(75, 1, (m.amount, m.start, Compact(m.price))));
		if !may || m.amount > 1024 || ids.iter().any(|k| model.contains_key(k)) {
			req!(r.is_err(), "{what}: done");
		} else if !wrap {
			req!(r.is_ok(), "{what}: refused with {r:?}");
		}
		if r.is_err() {
			req!(before == sp_io::storage::snapshot(), "{what}: refused but something changed");
			refused += 1;
			cx.label("refused");
			continue;
		}
		let got = items();
		if wrap {
			// The identifiers run out; how many are made is the module's.
			cx.label("identifiers ran out");
			for (k, (owner, price)) in &got {
				req!(model.contains_key(k) || ids.contains(k) && *owner == treasury() && *price == Some((m.price, None)), "{what}: {k:?} is {owner:?}'s at {price:?}");
			}
			req!(model.keys().all(|k| got.get(k) == model.get(k)), "{what}: others changed");
			model = got;
			continue;
		}
		for k in ids {
			model.insert(k, (treasury(), Some((m.price, None))));
		}
		req!(got == model, "{what}: the memberships are {got:?} rather than {model:?}");
		done += (m.amount > 0) as u32;
		cx.label("created");
	}
	if done > 0 && refused > 0 {
		cx.nontrivial(&c);
	}
	Ok(())
}

// ---- R21

#[derive(Clone, Debug, Serialize, Deserialize, PartialEq, Eq, Hash)]
pub enum Act {
	/// `poll` counts all polls, `as_of` is whose membership is used
	Vote { who: u8, as_of: u8, poll: u8, kind: u8, aye: bool, amount: u32 },
	Remove { who: u8, as_of: u8, poll: u8 },
	Unlock { who: u8, poll: u8 },
	End { poll: u8, by_root: bool },
	Open { who: u8, community: u8 },
}
#[derive(Clone, Debug, Serialize, Deserialize)]
pub struct VoteCase {
	/// how each of the two communities decides
	pub methods: [u8; 2],
	/// the rank of each member
	pub ranks: Vec<u8>,
	pub acts: Vec<Act>,
}
const VOTERS: u8 = 6;
pub fn votes() -> BoxedStrategy<VoteCase> {
	let who = || 0u8..VOTERS;
	let act = prop_oneof![
		12 => (who(), prop_oneof![12 => Just(None), 1 => who().prop_map(Some)], 0u8..3, prop_oneof![12 => Just(9u8), 2 => 0u8..4], any::<bool>(), prop_oneof![4 => 1u32..1_000, 3 => 1u32..100_000_000, 1 => Just(0u32), 1 => 3u32..7])
			.prop_map(|(who, as_of, poll, kind, aye, amount)| Act::Vote { who, as_of: as_of.unwrap_or(who), poll, kind, aye, amount }),
		3 => (who(), prop_oneof![9 => Just(None), 1 => who().prop_map(Some)], 0u8..3).prop_map(|(who, as_of, poll)| Act::Remove { who, as_of: as_of.unwrap_or(who), poll }),
		3 => (who(), 0u8..3).prop_map(|(who, poll)| Act::Unlock { who, poll }),
		1 => (0u8..3, prop_oneof![4 => Just(true), 1 => Just(false)]).prop_map(|(poll, by_root)| Act::End { poll, by_root }),
		3 => (who(), 0u8..2).prop_map(|(who, community)| Act::Open { who, community }),
	];
	([0u8..5, 0u8..5], vec(0u8..5, VOTERS as usize), vec(act, 4..24)).prop_map(|(methods, ranks, acts)| VoteCase { methods, ranks, acts }).boxed()
}
pub struct Poll {
	pub community: usize,
	pub ongoing: bool,
	/// by member: aye, weight, weight without rank
	pub votes: BTreeMap<u8, (bool, u64, u64)>,
}
/// What each has locked: by poll, in the native token or the asset.
pub type Locks = BTreeMap<(u8, u32), (bool, u128)>;
/// The members of the first community are even, those of the second odd.
pub fn voter(n: u8) -> AccountId {
	Acc::User(n % VOTERS).account()
}
pub fn check_votes(c: &VoteCase, cx: &mut Ctx) -> Verdict {
	let (_, _, telling) = play_votes(c, cx)?;
	if telling {
		cx.nontrivial(&(c.methods, &c.ranks, &c.acts));
	}
	Ok(())
}
pub fn play_votes(c: &VoteCase, cx: &mut Ctx) -> Result<(Vec<Poll>, Locks, bool), String> {
	use frame_support::traits::VoteTally;
	settled();
	System::set_block_number(3);
	ledger::set_asset(&asset_n(0), &ledger::Asset { issuance: 0, min: 1 });
	ledger::set_asset(&asset_n(1), &ledger::Asset { issuance: 0, min: 1 });
	for (i, m) in c.methods.iter().enumerate() {
		let id = 1 + i as u16;
		let args = (id, b"name".to_vec(), Raw(address(&Acc::User(90 + i as u8).account())), Raw(method_bytes(*m)), 0u8);
		dispatch(&Org::Root, call(75, 0, args)).map_err(|e| format!("a community cannot be registered: {e:?}"))?;
	}
	for n in 0..VOTERS {
		let id = 1 + (n % 2) as u16;
		fund(&voter(n), 1_000_000_000_000);
		ledger::endow(&asset_n(0), &voter(n), 200_000_000);
		ledger::endow(&asset_n(1), &voter(n), 200_000_000);
		make_member(id, n as u32, &voter(n));
		for _ in 0..c.ranks.get(n as usize).copied().unwrap_or(0) {
			dispatch(&Org::Voice(id), call(71, 5, n as u32)).map_err(|e| format!("a member cannot be promoted: {e:?}"))?;
		}
	}
	let rank = |n: u8| c.ranks.get(n as usize).copied().unwrap_or(0) as u64;
	let electorate = |i: usize| -> u64 {
		match c.methods[i] {
			0 | 1 => 3,
			2 => u32::MAX as u64,
			3 => 200_000_000 * VOTERS as u64,
			_ => (0..VOTERS).filter(|n| *n as usize % 2 == i).map(rank).sum(),
		}
	};
	let mut polls: Vec<Poll> = vec![];
	let mut locks = Locks::new();
	let (mut cast, mut refused, mut freed) = (0, 0, 0);
	for (step, act) in c.acts.iter().enumerate() {
		let mut what = format!("step {step}: {act:?}");
		let pick = |n: u8, polls: &[Poll]| (!polls.is_empty()).then(|| polls.len() - 1 - n as usize % polls.len());
		match act {
			Act::Open { who, community } => {
				let i = *community as usize % 2;
				let index = CommunityReferenda::count();
				let r = dispatch(&Org::Signed(Acc::User(*who)), call(73, 0, (Org::Voice(1 + i as u16).caller(), Raw(vec![1u8, 12, 0, 0, 0]), Raw(vec![1u8, 1, 0, 0, 0]))));
				req_eq!(r.is_ok(), *who as usize % 2 == i, "{what}: {r:?}");
				if r.is_ok() {
					req_eq!(index as usize, polls.len(), "{what}: the referendum");
					polls.push(Poll { community: i, ongoing: true, votes: BTreeMap::new() });
				}
			}
			Act::Vote { who, as_of, poll, kind, aye, amount } => {
				let Some(p) = pick(*poll, &polls) else { continue };
				let i = polls[p].community;
				let method = c.methods[i];
				// mostly of the right kind
				let kind = if *kind == 9 { [2, 2, 1, 0, 2][method as usize % 5] } else { *kind };
				let bytes = match kind {
					0 => (0u8, *aye, asset_n(0), *amount as u128).encode(),
					1 => (1u8, *aye, *amount as u128).encode(),
					2 => (2u8, *aye).encode(),
					_ => (0u8, *aye, asset_n(1), *amount as u128).encode(),
				};
				let weight = if kind == 2 { 1 } else { *amount as u64 };
				let fits = match (method, kind) {
					(0 | 1 | 4, 2) | (2, 1) => true,
					(3, 0) => *amount >= 5,
					_ => false,
				};
				let may = who == as_of && *who as usize % 2 == i && polls[p].ongoing && weight > 0 && fits;
				what = format!("{what} on {p} of community {}, which decides by {method}", i + 1);
				let r = dispatch(&Org::Signed(Acc::User(*who)), call(71, 8, (*as_of as u32, Compact(p as u32), Raw(bytes))));
				req_eq!(r.is_ok(), may, "{what}: {r:?}");
				if may {
					cast += 1;
					cx.label(["by members", "by members", "by the native token", "by an asset", "by rank"][method as usize % 5]);
					polls[p].votes.insert(*who, (*aye, if method == 4 { rank(*who) } else { weight }, weight));
					if kind < 2 {
						locks.insert((*who, p as u32), (kind == 1, *amount as u128));
					}
				} else {
					refused += 1;
				}
			}
			Act::Remove { who, as_of, poll } => {
				let Some(p) = pick(*poll, &polls) else { continue };
				let may = who == as_of && polls[p].ongoing && polls[p].votes.contains_key(who);
				let r = dispatch(&Org::Signed(Acc::User(*who)), call(71, 9, (*as_of as u32, Compact(p as u32))));
				req_eq!(r.is_ok(), may, "{what} on {p}: {r:?}");
				if may {
					polls[p].votes.remove(who);
					freed += locks.remove(&(*who, p as u32)).is_some() as u32;
					cx.label("a vote was taken back");
				} else {
					refused += 1;
				}
			}
			Act::Unlock { who, poll } => {
				let Some(p) = pick(*poll, &polls) else { continue };
				let may = !polls[p].ongoing && locks.contains_key(&(*who, p as u32));
				let r = dispatch(&Org::Signed(Acc::User(*who)), call(71, 10, Compact(p as u32)));
				req_eq!(r.is_ok(), may, "{what} of {p}: {r:?}");
				if may {
					locks.remove(&(*who, p as u32));
					freed += 1;
					cx.label("unlocked");
				}
			}
			Act::End { poll, by_root } => {
				let Some(p) = pick(*poll, &polls) else { continue };
				let by = if *by_root { Org::Root } else { Org::Voice(1 + polls[p].community as u16) };
				let r = dispatch(&by, call(73, 3, p as u32));
				req_eq!(r.is_ok(), *by_root && polls[p].ongoing, "{what} of {p}: {r:?}");
				polls[p].ongoing &= r.is_err();
			}
		}
		// What the polls say.
		for (i, p) in polls.iter().enumerate() {
			if !p.ongoing {
				continue;
			}
			let s = CommunityReferenda::status(i as u32).ok_or_else(|| format!("{what}: there is no referendum {i}"))?;
			let of = 1 + p.community as u16;
			req_eq!(s.track, of, "{what}: the track of {i}");
			let sum = |f: fn(&(bool, u64, u64)) -> u64| p.votes.values().map(f).sum::<u64>();
			let (ayes, nays, bare) = (sum(|v| if v.0 { v.1 } else { 0 }), sum(|v| if v.0 { 0 } else { v.1 }), sum(|v| if v.0 { v.2 } else { 0 }));
			req_eq!(s.tally.ayes(of) as u64, ayes, "{what}: the ayes of {i}");
			let near = |got: Perbill, n: u64, d: u64| (got.deconstruct() as i64 - (n.min(d) as i128 * 1_000_000_000 / d.max(1) as i128) as i64).abs() <= 1;
			if ayes + nays > 0 {
				req!(near(s.tally.approval(of), ayes, ayes + nays), "{what}: {ayes} against {nays} are an approval of {:?}", s.tally.approval(of));
			}
			let e = electorate(p.community);
			if e > 0 {
				req!(near(s.tally.support(of), bare, e), "{what}: {bare} of {e} are a support of {:?}", s.tally.support(of));
			}
		}
		// What voting has locked: as much as the largest of the votes that count or are not unlocked.
		for n in 0..VOTERS {
			for (is_native, frozen) in [(true, ledger::account_of(kreivo_deps::money::NATIVE, &voter(n)).frozen()), (false, ledger::account_of(&asset_n(0), &voter(n)).frozen())] {
				let due = locks.iter().filter(|x| x.0 .0 == n && x.1 .0 == is_native).map(|x| x.1 .1).max().unwrap_or(0);
				req_eq!(frozen, due, "{what}: what {n} has frozen of the {}", if is_native { "native token" } else { "asset" });
			}
		}
	}
	Ok((polls, locks, cast > 1 && (refused > 0 || freed > 0)))
}
