//! Runs a history against the real module and a model, and says which properties each
//! disagreement speaks against.
use crate::case::*;
use crate::runtime::*;
use frame_support::traits::Get;
use pallet_payments as pay;
use parity_scale_codec::Encode;
use sp_runtime::traits::Dispatchable;
use sp_runtime::{DispatchError, MultiAddress, Percent};
use std::collections::{BTreeMap, BTreeSet};
use vmock::ledger;

#[derive(Clone, Copy, Debug, PartialEq, Eq, Hash)]
pub enum St {
	Created,
	Refund(u64),
	Review,
	Requested,
	/// released, accepted or resolved
	Done,
	/// cancelled, refunded, or no longer known by its identifier
	Gone,
}
#[derive(Clone, Debug)]
pub struct Payment {
	pub id: u32,
	pub sender: u64,
	pub beneficiary: u64,
	pub asset: u32,
	pub amount: u128,
	pub incentive: u128,
	pub sender_fees: Vec<(u64, u128, bool)>,
	pub beneficiary_fees: Vec<(u64, u128, bool)>,
	pub state: St,
}
fn sum<'a>(fees: impl IntoIterator<Item = &'a (u64, u128, bool)>) -> u128 {
	fees.into_iter().fold(0u128, |a, f| a.saturating_add(f.1))
}
impl Payment {
	fn open(&self) -> bool {
		!matches!(self.state, St::Done | St::Gone)
	}
	/// What is held of it, by account.
	fn holds(&self) -> Vec<(u64, u128)> {
		let base = sum(&self.sender_fees).saturating_add(self.incentive);
		match self.state {
			St::Created | St::Refund(_) => vec![(self.sender, base), (self.beneficiary, self.amount)],
			St::Review => vec![(self.sender, base), (self.beneficiary, self.amount.saturating_add(self.incentive))],
			_ => vec![],
		}
	}
}

/// A set of money movements of one operation.
#[derive(Clone, Debug, Default)]
pub struct Moves {
	pub holds: Vec<(u64, u128)>,
	pub releases: Vec<(u64, u128)>,
	/// (from, to, amount)
	pub transfers: Vec<(u64, u64, u128)>,
	/// (from, to, amount): out of free funds, into held ones
	pub into_hold: Vec<(u64, u64, u128)>,
}
impl Moves {
	/// (free, held) changes by account
	fn deltas(&self) -> BTreeMap<u64, (i128, i128)> {
		let mut d: BTreeMap<u64, (i128, i128)> = BTreeMap::new();
		let c = |x: u128| i128::try_from(x).ok().filter(|x| *x < i128::MAX / 256).unwrap_or(i128::MAX / 256);
		for (w, x) in &self.holds {
			let e = d.entry(*w).or_default();
			e.0 -= c(*x);
			e.1 += c(*x);
		}
		for (w, x) in &self.releases {
			let e = d.entry(*w).or_default();
			e.0 += c(*x);
			e.1 -= c(*x);
		}
		for (f, t, x) in &self.transfers {
			d.entry(*f).or_default().0 -= c(*x);
			d.entry(*t).or_default().0 += c(*x);
		}
		for (f, t, x) in &self.into_hold {
			d.entry(*f).or_default().0 -= c(*x);
			d.entry(*t).or_default().1 += c(*x);
		}
		d
	}
	/// Whether no order of these movements can fail for lack of funds, where `last` may give all it has,
	/// unless it is also given something: an account that is gone cannot be given less than the least balance.
	fn ample(&self, asset: u32, min: u128, last: Option<u64>) -> bool {
		let mut out: BTreeMap<u64, u128> = BTreeMap::new();
		let mut inn: BTreeMap<u64, u128> = BTreeMap::new();
		for (w, x) in &self.holds {
			let e = out.entry(*w).or_default();
			*e = e.saturating_add(*x);
		}
		for (w, x) in &self.releases {
			out.entry(*w).or_default();
			let e = inn.entry(*w).or_default();
			*e = e.saturating_add(*x);
		}
		for (f, t, x) in self.transfers.iter().chain(&self.into_hold) {
			let e = out.entry(*f).or_default();
			*e = e.saturating_add(*x);
			out.entry(*t).or_default();
		}
		let last = last.filter(|w| !self.transfers.iter().chain(&self.into_hold).any(|(_, t, _)| t == w));
		out.iter().all(|(w, out)| {
			let a = ledger::account_of(&asset, w);
			let all = a.free.saturating_add(inn.get(w).copied().unwrap_or(0));
			!a.blocked
				&& if last == Some(*w) { all >= *out } else { a.free >= min && all.saturating_sub(*out) >= min }
		})
	}
}

pub type Books = BTreeMap<(u32, u64), (u128, u128, bool)>;
fn books() -> Books {
	let mut b = Books::new();
	for (asset, _) in ASSETS {
		for who in 1..=ACCOUNTS {
			let a = ledger::account_of(&asset, &who);
			b.insert((asset, who), (a.free, a.held(), a.blocked));
		}
	}
	b
}
fn totals() -> Vec<(u128, u128)> {
	ASSETS
		.iter()
		.map(|(asset, _)| {
			let t = ledger::all_accounts().into_iter().filter(|(a, _, _)| *a == asset.encode()).fold(0u128, |s, (_, _, x)| s + x.total());
			(t, ledger::asset_of(asset).map_or(0, |a| a.issuance))
		})
		.collect()
}

/// What the module has recorded of a payment.
fn recorded(sender: u64, id: u32) -> Option<Payment> {
	let d = pay::Payment::<Runtime>::get(sender, Id(id)).ok()?;
	Some(Payment {
		id,
		sender,
		beneficiary: d.beneficiary,
		asset: d.asset,
		amount: d.amount,
		incentive: d.incentive_amount,
		sender_fees: d.fees.sender_pays.to_vec(),
		beneficiary_fees: d.fees.beneficiary_pays.to_vec(),
		state: match d.state {
			pay::PaymentState::Created => St::Created,
			pay::PaymentState::NeedsReview => St::Review,
			pay::PaymentState::RefundRequested { cancel_block } => St::Refund(cancel_block),
			pay::PaymentState::PaymentRequested => St::Requested,
			pay::PaymentState::Finished => St::Done,
		},
	})
}
fn parties(id: u32) -> Option<(u64, u64)> {
	pay::PaymentParties::<Runtime>::get(Id(id)).ok()
}

#[derive(Clone, Debug)]
pub struct Finding {
	pub tags: Vec<&'static str>,
	pub what: String,
}
#[derive(Default, Debug)]
pub struct Stats {
	pub pays: u64,
	pub requests: u64,
	pub released: u64,
	pub accepted: u64,
	pub settled_with_fees: u64,
	pub cancelled: u64,
	pub refunded: u64,
	pub auto_refunded: u64,
	pub disputed: u64,
	pub resolved: u64,
	pub resolved_mixed: u64,
	pub wrong_party: u64,
	pub wrong_state: u64,
	pub collisions: u64,
	pub refused: u64,
	pub faults_hit: u64,
	pub replaced_requests: u64,
	pub open_at_once: u64,
	pub on_requests: u64,
	pub late_disputes: u64,
	pub refused_ample: u64,
}

pub struct World {
	pub payments: Vec<Payment>,
	pub stats: Stats,
	findings: Vec<Finding>,
	totals: Vec<(u128, u128)>,
	fresh: u32,
	fault: Option<u32>,
	full: bool,
	policies: Vec<Policy>,
	policy: usize,
	/// payments whose refund was tried at its time and could not be made
	lapsed: BTreeSet<usize>,
}

fn now() -> u64 {
	frame_system::Pallet::<Runtime>::block_number()
}
fn acc(i: u8) -> u64 {
	i as u64 % ACCOUNTS + 1
}
fn min_of(asset: u32) -> u128 {
	ASSETS.iter().find(|a| a.0 == asset).map_or(0, |a| a.1)
}

impl World {
	pub fn new(c: &Case) -> World {
		sp_io::storage::reset();
		ledger::fail_at(None);
		vmock::scheduler::set_full(false);
		frame_system::Pallet::<Runtime>::set_block_number(1);
		for (i, (asset, min)) in ASSETS.iter().enumerate() {
			ledger::set_asset(asset, &ledger::Asset { issuance: 0, min: *min });
			for who in 1..=ACCOUNTS {
				let funds = match c.funds.get(i * 9 + who as usize - 1).copied().unwrap_or(2) {
					0 => 0,
					1 => min + 20 + who as u128,
					2 => 10_000_000_000,
					_ => 40_000 + min * 7,
				};
				if funds > 0 {
					ledger::endow(asset, &who, funds);
				}
			}
		}
		Incentive::set(Percent::from_percent(c.incentive));
		CancelBuffer::set(c.buffer.max(1) as u64);
		let policies = if c.policies.is_empty() { vec![Policy::default()] } else { c.policies.clone() };
		POLICY.with(|p| *p.borrow_mut() = policies[0].clone());
		World { payments: vec![], stats: Stats::default(), findings: vec![], totals: totals(), fresh: 0, fault: None, full: false, policies, policy: 0, lapsed: BTreeSet::new() }
	}
	fn say(&mut self, tags: &[&'static str], what: impl Into<String>) {
		self.findings.push(Finding { tags: tags.to_vec(), what: what.into() })
	}
	fn dispatch(&mut self, origin: RuntimeOrigin, call: pay::Call<Runtime>) -> Result<(), DispatchError> {
		frame_system::Pallet::<Runtime>::reset_events();
		let fault = self.fault.take();
		ledger::fail_at(fault);
		vmock::scheduler::set_full(std::mem::take(&mut self.full));
		let r = RuntimeCall::Payments(call).dispatch(origin);
		vmock::scheduler::set_full(false);
		if fault.is_some_and(|f| ledger::ticks() > f) {
			self.stats.faults_hit += 1;
		}
		ledger::fail_at(None);
		r.map(|_| ()).map_err(|e| e.error)
	}
	fn sender_origin(who: u64) -> RuntimeOrigin {
		if who == COUNCIL {
			CouncilOrigin.into()
		} else {
			RuntimeOrigin::signed(who)
		}
	}

	/// Holds for everything that must be true between operations. `creation`: the operation just
	/// done created a payment; `touched`: the payment it was about.
	fn between(&mut self, creation: bool, touched: Option<usize>) {
		let t = totals();
		if t != self.totals {
			self.say(&["P01"], format!("totals (sum of balances, issuance) by asset: {:?}, were {:?}", t, self.totals));
		}
		for (asset, _) in ASSETS {
			for who in 1..=ACCOUNTS {
				let due: u128 = self
					.payments
					.iter()
					.filter(|p| p.asset == asset)
					.flat_map(|p| p.holds())
					.filter(|h| h.0 == who)
					.map(|h| h.1)
					.sum();
				let held = ledger::account_of(&asset, &who).held();
				if held != due {
					self.say(&["P02"], format!("account {who} has {held} of asset {asset} held, its open payments require {due}"));
				}
			}
		}
		let mut found = vec![];
		for (i, p) in self.payments.iter().enumerate().filter(|(_, p)| p.open()) {
			let other: &[&str] = if creation { &["P10"] } else { &["P04"] };
			let Some(r) = recorded(p.sender, p.id) else {
				found.push((other.to_vec(), format!("payment {} of {} is open but no longer recorded", p.id, p.sender)));
				continue;
			};
			if parties(p.id) != Some((p.sender, p.beneficiary)) {
				found.push((other.to_vec(), format!("payment {}: parties are recorded as {:?}, not {:?}", p.id, parties(p.id), (p.sender, p.beneficiary))));
			}
			if r.state != p.state {
				let mut tags = if Some(i) == touched { vec!["P04"] } else { other.to_vec() };
				if let (St::Refund(_), St::Refund(_)) = (r.state, p.state) {
					tags = vec!["P06"];
				}
				found.push((tags, format!("payment {}: state is {:?}, not {:?}", p.id, r.state, p.state)));
			}
			let details = |p: &Payment| (p.beneficiary, p.asset, p.amount, p.incentive);
			if details(&r) != details(p) {
				found.push((other.to_vec(), format!("payment {}: recorded {:?}, not {:?}", p.id, r, p)));
			}
			if (&r.sender_fees, &r.beneficiary_fees) != (&p.sender_fees, &p.beneficiary_fees) {
				let mut tags = other.to_vec();
				tags.push("P03");
				found.push((tags, format!("payment {}: recorded fees {:?}, not {:?}", p.id, r, p)));
			}
		}
		for (tags, what) in found {
			self.say(&tags, what);
		}
		self.stats.open_at_once = self.stats.open_at_once.max(self.payments.iter().filter(|p| p.open()).count() as u64);
	}
	/// Compares the books with what the movements call for.
	fn compare(&mut self, before: &Books, asset: u32, moves: &[Moves], tags: &[&'static str], what: &str) {
		let after = books();
		let mut due: BTreeMap<u64, (i128, i128)> = BTreeMap::new();
		for m in moves {
			for (w, d) in m.deltas() {
				let e = due.entry(w).or_default();
				e.0 += d.0;
				e.1 += d.1;
			}
		}
		for ((a, w), b) in before {
			let d = if *a == asset { due.get(w).copied().unwrap_or_default() } else { (0, 0) };
			let got = &after[&(*a, *w)];
			let diff = (got.0 as i128 - b.0 as i128, got.1 as i128 - b.1 as i128);
			if diff.0 != d.0 {
				self.say(tags, format!("{what}: free asset {a} of account {w} changed by {}, not {}", diff.0, d.0));
			}
		}
	}
	/// What the module said has happened must be just this, in any order.
	fn announced(&mut self, mut due: Vec<pay::Event<Runtime>>, what: &str) {
		let mut extra = vec![];
		for e in frame_system::Pallet::<Runtime>::events() {
			if let RuntimeEvent::Payments(e) = e.event {
				match due.iter().position(|d| *d == e) {
					Some(i) => drop(due.remove(i)),
					None => extra.push(e),
				}
			}
		}
		if !extra.is_empty() || !due.is_empty() {
			self.say(&["P11"], format!("{what}: announced {extra:?}, did not announce {due:?}"));
		}
	}
	/// After a refused operation nothing may be different.
	fn unchanged(&mut self, before: &BTreeMap<Vec<u8>, Vec<u8>>, tags: &[&'static str], what: &str) {
		if sp_io::storage::snapshot() != *before {
			self.say(tags, format!("{what} was refused but left an effect"));
		}
	}

	fn amount(&self, a: &Amount, payer: u64, asset: u32) -> u128 {
		let free = ledger::account_of(&asset, &payer).free;
		match a {
			Amount::Plain(x) => *x as u128,
			Amount::Share(p) => free / 100 * (*p as u128),
			Amount::Near(d) => (free as i128 + *d as i128).max(0) as u128,
			Amount::Huge(n) => u128::MAX >> n,
		}
	}
	fn pick_id(&mut self, s: IdSel) -> Option<u32> {
		match s {
			IdSel::None => None,
			IdSel::Of(i) if !self.payments.is_empty() => Some(self.payments[i as usize % self.payments.len()].id),
			_ => {
				self.fresh += 1;
				Some(self.fresh)
			}
		}
	}
	fn create(&mut self, sender: u64, beneficiary: u64, asset: u32, amount: u128, remark: Option<Vec<u8>>, id: IdSel, request: bool) {
		let id = self.pick_id(id);
		NEXT_ID.with(|n| *n.borrow_mut() = id);
		let before = books();
		frame_system::Pallet::<Runtime>::reset_events();
		let store = sp_io::storage::snapshot();
		let call = if request {
			pay::Call::request_payment { sender: MultiAddress::Id(sender), asset, amount }
		} else {
			pay::Call::pay {
				beneficiary: MultiAddress::Id(beneficiary),
				asset,
				amount,
				remark: remark.clone().map(|r| r.try_into().expect("HARNESS-BUG: short remark")),
			}
		};
		let policy = &self.policies[self.policy];
		let p = Payment {
			id: id.unwrap_or(0),
			sender,
			beneficiary,
			asset,
			amount,
			incentive: Incentive::get().mul_floor(amount),
			sender_fees: fees_of(&policy.sender, asset, sender, beneficiary, amount, remark.as_deref()),
			beneficiary_fees: fees_of(&policy.beneficiary, asset, sender, beneficiary, amount, remark.as_deref()),
			state: if request { St::Requested } else { St::Created },
		};
		let moves = if request {
			Moves::default()
		} else {
			Moves {
				holds: vec![(sender, sum(&p.sender_fees).saturating_add(p.incentive))],
				into_hold: vec![(sender, beneficiary, amount)],
				..Default::default()
			}
		};
		let ample = moves.ample(asset, min_of(asset), None) && self.fault.is_none() && !self.full;
		let origin = if request { RuntimeOrigin::signed(beneficiary) } else { Self::sender_origin(sender) };
		let r = self.dispatch(origin, call);
		let what = format!("{} by {sender} to {beneficiary} of {amount} (asset {asset}) as {id:?}", if request { "request" } else { "pay" });
		// An unanswered request of the same payer may be replaced.
		let in_use = self.payments.iter().any(|q| q.open() && Some(q.id) == id && !(q.sender == sender && q.state == St::Requested));
		let known = self.payments.iter().any(|q| Some(q.id) == id && q.state != St::Gone);
		self.stats.collisions += known as u64;
		match r {
			Ok(()) => {
				if id.is_none() || in_use {
					self.say(&["P10"], format!("{what}: accepted though {}", if in_use { "its identifier is in use" } else { "no identifier was available" }));
				}
				if request {
					self.stats.requests += 1
				} else {
					self.stats.pays += 1
				}
				for q in self.payments.iter_mut().filter(|q| Some(q.id) == id) {
					if q.state == St::Requested && q.sender == sender {
						self.stats.replaced_requests += 1;
						q.state = St::Gone;
					} else if q.state == St::Done {
						q.state = St::Gone;
					}
				}
				self.payments.push(p);
				let tags: &[&'static str] = if request { &["P09"] } else { &["P03"] };
				self.compare(&before, asset, &[moves], tags, &what);
				let left = ledger::account_of(&asset, &sender).free;
				if !request && amount > 0 && left < min_of(asset) {
					self.say(&["P01"], format!("{what}: left the payer with {left}, which is less than an account must keep"));
				}
				if request && books() != before {
					self.say(&["P09"], format!("{what}: changed balances or holds"));
				}
				let id = Id(id.unwrap_or(0));
				let due = if request {
					pay::Event::PaymentRequestCreated { payment_id: id }
				} else {
					pay::Event::PaymentCreated { payment_id: id, asset, amount, remark: remark.map(|r| r.try_into().expect("HARNESS-BUG: short remark")) }
				};
				self.announced(vec![due], &what);
				let i = self.payments.len() - 1;
				self.between(true, Some(i));
			}
			Err(e) => {
				self.stats.refused += 1;
				if !in_use && !known && id.is_some() && ample && amount > 0 {
					self.stats.refused_ample += 1;
					self.say(&["P10"], format!("{what}: refused with {e:?} though nothing stands against it"));
				}
				let mut tags = vec!["P01", "P10"];
				if request {
					tags.push("P09");
				}
				self.unchanged(&store, &tags, &what);
				self.announced(vec![], &what);
				self.between(true, None);
			}
		}
	}

	/// The payment an identifier stands for now.
	fn target(&self, p: u8) -> Option<usize> {
		if self.payments.is_empty() {
			return None;
		}
		let id = self.payments[p as usize % self.payments.len()].id;
		self.payments.iter().rposition(|q| q.id == id && q.open()).or_else(|| self.payments.iter().rposition(|q| q.id == id))
	}
	/// Who may be left with nothing: the payer of a request, and whoever gives a payment back, all or in part.
	fn gives_all(p: &Payment, act: Act) -> Option<u64> {
		match act {
			Act::Accept if p.amount >= min_of(p.asset) => Some(p.sender),
			Act::Cancel => Some(p.beneficiary),
			Act::Resolve { percent, for_sender } => {
				let (ruled, least) = (Self::ruled(p, percent), min_of(p.asset));
				let each = match for_sender {
					true if p.incentive > 0 => ruled.min(p.incentive),
					true => ruled,
					false => p.amount - ruled,
				};
				(each >= least).then_some(p.beneficiary)
			}
			_ => None,
		}
	}
	/// What goes to the side a ruling is in favour of.
	fn ruled(p: &Payment, percent: u8) -> u128 {
		p.amount / 100 * percent as u128 + p.amount % 100 * percent as u128 / 100
	}
	fn moves_of(p: &Payment, act: Act, resolver: u64) -> Moves {
		let base = sum(&p.sender_fees).saturating_add(p.incentive);
		let fees = |disputed: bool| {
			p.sender_fees
				.iter()
				.filter(|f| !disputed || f.2)
				.map(|f| (p.sender, f.0, f.1))
				.chain(p.beneficiary_fees.iter().filter(|f| !disputed || f.2).map(|f| (p.beneficiary, f.0, f.1)))
				.collect::<Vec<_>>()
		};
		match act {
			Act::Release => Moves { releases: vec![(p.sender, base), (p.beneficiary, p.amount)], transfers: fees(false), ..Default::default() },
			Act::Accept => {
				let mut transfers = fees(false);
				transfers.push((p.sender, p.beneficiary, p.amount));
				Moves { transfers, ..Default::default() }
			}
			Act::Cancel => Moves {
				releases: vec![(p.sender, base), (p.beneficiary, p.amount)],
				transfers: vec![(p.beneficiary, p.sender, p.amount)],
				..Default::default()
			},
			Act::RequestRefund => Moves::default(),
			Act::Dispute => Moves { holds: vec![(p.beneficiary, p.incentive)], ..Default::default() },
			Act::Resolve { percent, for_sender } => {
				let ruled = Self::ruled(p, percent);
				let mut transfers = fees(true);
				if for_sender {
					transfers.push((p.beneficiary, p.sender, ruled));
					transfers.push((p.beneficiary, resolver, p.incentive));
				} else {
					transfers.push((p.beneficiary, p.sender, p.amount - ruled));
					transfers.push((p.sender, resolver, p.incentive));
				}
				Moves { releases: vec![(p.sender, base), (p.beneficiary, p.amount.saturating_add(p.incentive))], transfers, ..Default::default() }
			}
		}
	}
	fn act(&mut self, i: usize, act: Act, by: By) {
		let p = self.payments[i].clone();
		let id = Id(p.id);
		let for_sender_origin = matches!(act, Act::Release | Act::RequestRefund | Act::Accept);
		let by = match by {
			By::Right => match act {
				Act::Release | Act::RequestRefund | Act::Accept => By::Sender,
				Act::Cancel | Act::Dispute => By::Beneficiary,
				Act::Resolve { percent, .. } => {
					if percent % 2 == 0 {
						By::Root
					} else {
						By::Judge
					}
				}
			},
			b => b,
		};
		// Council acts as a sender by its origin, and signs otherwise.
		let signed = |who: u64| if for_sender_origin { Self::sender_origin(who) } else { RuntimeOrigin::signed(who) };
		let (origin, who): (RuntimeOrigin, Option<u64>) = match by {
			By::Sender => (signed(p.sender), Some(p.sender)),
			By::Beneficiary => (signed(p.beneficiary), Some(p.beneficiary)),
			By::Judge => (RuntimeOrigin::signed(JUDGE), Some(JUDGE)),
			By::Root => (RuntimeOrigin::root(), None),
			By::Nobody => (RuntimeOrigin::none(), None),
			By::Council => {
				if for_sender_origin {
					(CouncilOrigin.into(), Some(COUNCIL))
				} else {
					(CouncilOrigin.into(), None)
				}
			}
			By::Account(a) => (signed(acc(a)), Some(acc(a))),
			By::Right => unreachable!(),
		};
		let resolver = match by {
			By::Root => Some(TREASURY),
			By::Council | By::Nobody => None,
			_ if who == Some(JUDGE) => Some(JUDGE),
			_ => None,
		};
		let party = match act {
			Act::Release | Act::RequestRefund | Act::Accept => who == Some(p.sender),
			// the council's own origin is not one for beneficiaries
			Act::Cancel | Act::Dispute => who == Some(p.beneficiary),
			Act::Resolve { .. } => resolver.is_some(),
		};
		let state = match (act, p.state) {
			(Act::Release | Act::RequestRefund, St::Created) => true,
			(Act::Accept, St::Requested) => true,
			(Act::Cancel, St::Created | St::Refund(_)) => true,
			(Act::Dispute, St::Refund(d)) => d > now(),
			(Act::Resolve { .. }, St::Review) => true,
			_ => false,
		};
		let call = match act {
			Act::Release => pay::Call::release { payment_id: id },
			Act::RequestRefund => pay::Call::request_refund { payment_id: id },
			Act::Accept => pay::Call::accept_and_pay { payment_id: id },
			Act::Cancel => pay::Call::cancel { payment_id: id },
			Act::Dispute => pay::Call::dispute_refund { payment_id: id },
			Act::Resolve { percent, for_sender } => pay::Call::resolve_dispute {
				payment_id: id,
				dispute_result: pay::DisputeResult {
					percent_beneficiary: Percent::from_percent(percent),
					in_favor_of: if for_sender { pay::Role::Sender } else { pay::Role::Beneficiary },
				},
			},
		};
		self.stats.wrong_party += !party as u64;
		self.stats.wrong_state += !state as u64;
		self.stats.on_requests += (p.state == St::Requested) as u64;
		if let (Act::Dispute, St::Refund(d)) = (act, p.state) {
			self.stats.late_disputes += (d <= now()) as u64;
		}
		let moves = Self::moves_of(&p, act, resolver.unwrap_or(0));
		let ample = moves.ample(p.asset, min_of(p.asset), Self::gives_all(&p, act)) && self.fault.is_none() && !self.full;
		let before = books();
		frame_system::Pallet::<Runtime>::reset_events();
		let store = sp_io::storage::snapshot();
		let r = self.dispatch(origin, call);
		let what = format!("{act:?} of payment {} ({:?}, {} to {}) by {by:?} {who:?} at block {}", p.id, p.state, p.sender, p.beneficiary, now());
		let concern: &[&'static str] = match act {
			Act::Release => &["P03"],
			Act::Accept => &["P03", "P09"],
			Act::Cancel => &["P08"],
			Act::Dispute | Act::RequestRefund => &["P06"],
			Act::Resolve { .. } => &["P07"],
		};
		if let Err(e) = r {
			self.stats.refused += 1;
			if party && state && ample {
				self.say(concern, format!("{what}: refused with {e:?} though nothing stands against it"));
			}
			let mut tags = vec!["P01"];
			if !party {
				tags.push("P05");
			}
			if !state {
				tags.push("P04");
			}
			self.unchanged(&store, &tags, &what);
			self.announced(vec![], &what);
			self.between(false, Some(i));
			return;
		}
		if !party {
			let mut tags = vec!["P05"];
			if p.state == St::Requested {
				tags.push("P09");
			}
			self.say(&tags, format!("{what}: accepted from somebody it is not open to"));
		}
		if !state {
			let mut tags = vec!["P04"];
			if p.state == St::Requested {
				tags.push("P09");
			}
			if act == Act::Dispute && matches!(p.state, St::Refund(_)) {
				tags.push("P06");
			}
			if act == Act::Accept {
				tags.push("P09");
			}
			self.say(&tags, format!("{what}: accepted in this state"));
		}
		if !party || !state {
			self.between(false, Some(i));
			return;
		}
		self.payments[i].state = match act {
			Act::Release | Act::Accept | Act::Resolve { .. } => St::Done,
			Act::Cancel => St::Gone,
			Act::Dispute => St::Review,
			Act::RequestRefund => St::Refund(now() + CancelBuffer::get()),
		};
		let fees = !p.sender_fees.is_empty() || !p.beneficiary_fees.is_empty();
		match act {
			Act::Release => self.stats.released += 1,
			Act::Accept => self.stats.accepted += 1,
			Act::Cancel if p.state == St::Created => self.stats.cancelled += 1,
			Act::Cancel => self.stats.refunded += 1,
			Act::Dispute => self.stats.disputed += 1,
			Act::RequestRefund => {}
			Act::Resolve { .. } => {
				self.stats.resolved += 1;
				let kinds: BTreeSet<bool> = p.sender_fees.iter().chain(&p.beneficiary_fees).map(|f| f.2).collect();
				self.stats.resolved_mixed += (kinds.len() == 2) as u64;
			}
		}
		if fees && matches!(act, Act::Release | Act::Accept) {
			self.stats.settled_with_fees += 1;
		}
		self.compare(&before, p.asset, &[moves], concern, &what);
		let due = match act {
			Act::Release => pay::Event::PaymentReleased { payment_id: id },
			Act::Accept => pay::Event::PaymentRequestCompleted { payment_id: id },
			Act::Cancel if p.state == St::Created => pay::Event::PaymentCancelled { payment_id: id },
			Act::Cancel => pay::Event::PaymentRefunded { payment_id: id },
			Act::Dispute => pay::Event::PaymentRefundDisputed { payment_id: id },
			Act::RequestRefund => pay::Event::PaymentCreatorRequestedRefund { payment_id: id, expiry: now() + CancelBuffer::get() },
			Act::Resolve { .. } => pay::Event::PaymentDisputeResolved { payment_id: id },
		};
		self.announced(vec![due], &what);
		match act {
			Act::Cancel => {
				if recorded(p.sender, p.id).is_some() || parties(p.id).is_some() {
					self.say(&["P08"], format!("{what}: the identifier still refers to something"));
				}
			}
			Act::RequestRefund => {
				let deadline = now() + CancelBuffer::get();
				let told = frame_system::Pallet::<Runtime>::events().into_iter().any(|e| {
					e.event == RuntimeEvent::Payments(pay::Event::PaymentCreatorRequestedRefund { payment_id: id, expiry: deadline })
				});
				if !told {
					self.say(&["P06"], format!("{what}: the deadline {deadline} was not announced"));
				}
			}
			_ => {}
		}
		self.between(false, Some(i));
	}

	fn advance(&mut self, to: u64) {
		let mut at = now();
		while at < to {
			let next = vmock::scheduler::tasks()
				.iter()
				.map(|t| t.when)
				.chain(self.payments.iter().filter_map(|p| if let St::Refund(d) = p.state { Some(d) } else { None }))
				.map(|w| w.max(at + 1))
				.min()
				.unwrap_or(to)
				.min(to);
			at = next;
			frame_system::Pallet::<Runtime>::set_block_number(at);
			let due: Vec<usize> = (0..self.payments.len())
				.filter(|i| matches!(self.payments[*i].state, St::Refund(d) if d <= at) && !self.lapsed.contains(i))
				.collect();
			// Whether each of them, and all together, can succeed whatever the order.
			let ample: Vec<bool> = due
				.iter()
				.map(|i| {
					let p = &self.payments[*i];
					Self::moves_of(p, Act::Cancel, 0).ample(p.asset, min_of(p.asset), Self::gives_all(p, Act::Cancel))
				})
				.collect();
			let before = books();
			frame_system::Pallet::<Runtime>::reset_events();
			ledger::fail_at(None);
			Scheduler::run_due();
			let mut told = vec![];
			let mut moves: BTreeMap<u32, Vec<Moves>> = BTreeMap::new();
			for (k, i) in due.iter().enumerate() {
				let p = self.payments[*i].clone();
				let what = format!("refund of payment {} ({} to {}) due at block {at}", p.id, p.sender, p.beneficiary);
				let there = recorded(p.sender, p.id);
				match there {
					Some(r) => {
						self.lapsed.insert(*i);
						if ample[k] {
							self.say(&["P06"], format!("{what}: did not happen, the payment is {:?}", r.state));
						}
					}
					None => {
						self.stats.auto_refunded += 1;
						told.push(pay::Event::PaymentRefunded { payment_id: Id(p.id) });
						self.payments[*i].state = St::Gone;
						moves.entry(p.asset).or_default().push(Self::moves_of(&p, Act::Cancel, 0));
						if parties(p.id).is_some() {
							self.say(&["P06", "P08"], format!("{what}: the identifier still refers to something"));
						}
					}
				}
			}
			self.announced(told, &format!("refunds due at block {at}"));
			for (asset, _) in ASSETS {
				let m = moves.remove(&asset).unwrap_or_default();
				let after = books();
				let only = |b: &Books| b.iter().filter(|(k, _)| k.0 == asset).map(|(k, v)| (*k, *v)).collect::<Books>();
				let (b, a) = (only(&before), only(&after));
				if m.is_empty() && a != b {
					self.say(&["P06"], format!("balances changed at block {at} without a refund being due"));
				} else {
					self.compare(&b, asset, &m, &["P06", "P08"], &format!("refunds due at block {at}"));
				}
			}
			self.between(false, None);
			// A payment that was not due but is no longer as it was is P06's business as well.
			if !self.findings.is_empty() {
				for f in self.findings.iter_mut() {
					if !f.tags.contains(&"P06") {
						f.tags.push("P06");
					}
				}
				return;
			}
		}
	}

	pub fn step(&mut self, op: &Op) -> Vec<Finding> {
		match op {
			Op::Pay { by, to, asset, amount, remark, id } => {
				let (s, b, asset) = (acc(*by), acc(*to), ASSETS[*asset as usize % 3].0);
				let amount = self.amount(amount, s, asset);
				self.create(s, b, asset, amount, remark.clone(), *id, false)
			}
			Op::Request { by, from, asset, amount, id } => {
				let (b, s, asset) = (acc(*by), acc(*from), ASSETS[*asset as usize % 3].0);
				let amount = self.amount(amount, s, asset);
				self.create(s, b, asset, amount, None, *id, true)
			}
			Op::Act { p, act, by } => {
				if let Some(i) = self.target(*p) {
					self.act(i, *act, *by)
				}
			}
			Op::Next { p, pick, percent } => {
				let open: Vec<usize> = (0..self.payments.len()).filter(|i| self.payments[*i].open()).collect();
				if !open.is_empty() {
					let i = open[*p as usize % open.len()];
					let acts: Vec<Act> = match self.payments[i].state {
						St::Created => vec![Act::RequestRefund, Act::Release, Act::RequestRefund, Act::Cancel],
						St::Refund(d) if d > now() => vec![Act::Dispute, Act::Dispute, Act::Cancel],
						St::Refund(_) => vec![Act::Cancel],
						St::Requested => vec![Act::Accept],
						_ => vec![Act::Resolve { percent: *percent, for_sender: pick % 2 == 0 }],
					};
					self.act(i, acts[*pick as usize % acts.len()], By::Right)
				}
			}
			Op::Advance(n) => self.advance(now() + *n as u64),
			Op::Deadline(d) => {
				let first = self.payments.iter().filter_map(|p| if let St::Refund(x) = p.state { Some(x) } else { None }).filter(|x| *x > now()).min();
				if let Some(x) = first {
					self.advance(x.saturating_add_signed(*d as i64))
				}
			}
			Op::Lag(d) => {
				let first = self.payments.iter().filter_map(|p| if let St::Refund(x) = p.state { Some(x) } else { None }).filter(|x| *x > now()).min();
				if let Some(x) = first {
					frame_system::Pallet::<Runtime>::set_block_number(x.saturating_add_signed(*d as i64).max(now()))
				}
			}
			Op::Policy(v) => {
				self.policy = *v as usize % self.policies.len();
				POLICY.with(|p| *p.borrow_mut() = self.policies[self.policy].clone());
			}
			Op::Block { who, asset, on } => {
				let asset = ASSETS[*asset as usize % 3].0;
				let mut a = ledger::account_of(&asset, &acc(*who));
				a.blocked = *on;
				ledger::set_account(&asset, &acc(*who), &a);
			}
			Op::Move { from, to, asset, share } => {
				let asset = ASSETS[*asset as usize % 3].0;
				let (f, t) = (acc(*from), acc(*to));
				if f != t {
					let (mut x, mut y) = (ledger::account_of(&asset, &f), ledger::account_of(&asset, &t));
					let m = x.free / 100 * (*share).min(100) as u128;
					x.free -= m;
					y.free += m;
					ledger::set_account(&asset, &f, &x);
					ledger::set_account(&asset, &t, &y);
				}
			}
			Op::Fault(n) => self.fault = Some(*n as u32),
			Op::Full => self.full = true,
		}
		std::mem::take(&mut self.findings)
	}
}
