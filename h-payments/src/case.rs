//! Histories of payment operations.
use serde::{Deserialize, Serialize};
use vkit::proptest::{self, collection::vec, option, prelude::*};

#[derive(Clone, Debug, Default, Serialize, Deserialize)]
pub struct FeeRule {
	pub to: u8,
	pub fixed: u32,
	pub percent: u8,
	pub mandatory: bool,
	pub asset: Option<u8>,
	pub by_parties: bool,
	pub by_remark: bool,
}
#[derive(Clone, Debug, Default, Serialize, Deserialize)]
pub struct Policy {
	pub sender: Vec<FeeRule>,
	pub beneficiary: Vec<FeeRule>,
}
#[derive(Clone, Debug, Serialize, Deserialize)]
pub enum Amount {
	Plain(u32),
	/// percent of the payer's free funds
	Share(u8),
	/// the payer's free funds, off by a little
	Near(i8),
	Huge(u8),
}
#[derive(Clone, Copy, Debug, Serialize, Deserialize)]
pub enum IdSel {
	Fresh,
	/// the identifier of an earlier payment
	Of(u8),
	None,
}
#[derive(Clone, Copy, Debug, PartialEq, Eq, Serialize, Deserialize)]
pub enum By {
	Right,
	Sender,
	Beneficiary,
	Judge,
	Root,
	Nobody,
	Council,
	Account(u8),
}
#[derive(Clone, Copy, Debug, PartialEq, Eq, Serialize, Deserialize)]
pub enum Act {
	Release,
	RequestRefund,
	Accept,
	Cancel,
	Dispute,
	Resolve { percent: u8, for_sender: bool },
}
#[derive(Clone, Debug, Serialize, Deserialize)]
pub enum Op {
	Pay { by: u8, to: u8, asset: u8, amount: Amount, remark: Option<Vec<u8>>, id: IdSel },
	Request { by: u8, from: u8, asset: u8, amount: Amount, id: IdSel },
	Act { p: u8, act: Act, by: By },
	/// one of the steps open to the payment, by whom it is open to
	Next { p: u8, pick: u8, percent: u8 },
	Advance(u8),
	/// to the block of the earliest refund deadline, off by a little
	Deadline(i8),
	/// like `Deadline`, with the scheduler too busy to run anything on the way
	Lag(i8),
	Policy(u8),
	Block { who: u8, asset: u8, on: bool },
	Move { from: u8, to: u8, asset: u8, share: u8 },
	/// the next operation's n-th withdrawal fails
	Fault(u8),
	/// nothing can be scheduled during the next operation
	Full,
}
#[derive(Clone, Debug, Serialize, Deserialize)]
pub struct Case {
	pub incentive: u8,
	pub buffer: u8,
	/// funds of every account, as a level, per asset
	pub funds: Vec<u8>,
	pub policies: Vec<Policy>,
	pub ops: Vec<Op>,
}

fn fee_rule() -> impl Strategy<Value = FeeRule> {
	(
		0u8..9,
		prop_oneof![2 => Just(0u32), 3 => 1u32..200, 1 => 1u32..100_000],
		prop_oneof![2 => Just(0u8), 3 => 1u8..10, 1 => 0u8..=100],
		any::<bool>(),
		prop_oneof![4 => Just(None), 1 => (0u8..3).prop_map(Some)],
		prop::bool::weighted(0.2),
		prop::bool::weighted(0.2),
	)
		.prop_map(|(to, fixed, percent, mandatory, asset, by_parties, by_remark)| FeeRule {
			to,
			fixed,
			percent,
			mandatory,
			asset,
			by_parties,
			by_remark,
		})
}
fn policy() -> impl Strategy<Value = Policy> {
	(vec(fee_rule(), 0..5), vec(fee_rule(), 0..5)).prop_map(|(sender, beneficiary)| Policy { sender, beneficiary })
}
fn amount() -> impl Strategy<Value = Amount> {
	prop_oneof![
		6 => prop_oneof![Just(0u32), 1u32..50, 50u32..5_000, 5_000u32..1_000_000].prop_map(Amount::Plain),
		3 => (0u8..=60).prop_map(Amount::Share),
		1 => any::<i8>().prop_map(Amount::Near),
		1 => (0u8..4).prop_map(Amount::Huge),
	]
}
fn id() -> impl Strategy<Value = IdSel> {
	prop_oneof![16 => Just(IdSel::Fresh), 3 => any::<u8>().prop_map(IdSel::Of), 1 => Just(IdSel::None)]
}
fn act() -> impl Strategy<Value = Act> {
	prop_oneof![
		Just(Act::Release),
		Just(Act::RequestRefund),
		Just(Act::Accept),
		Just(Act::Cancel),
		Just(Act::Dispute),
		(0u8..=100, any::<bool>()).prop_map(|(percent, for_sender)| Act::Resolve { percent, for_sender }),
	]
}
fn by() -> impl Strategy<Value = By> {
	prop_oneof![
		6 => Just(By::Right),
		2 => Just(By::Sender),
		2 => Just(By::Beneficiary),
		1 => Just(By::Judge),
		1 => Just(By::Root),
		1 => Just(By::Nobody),
		1 => Just(By::Council),
		3 => (0u8..9).prop_map(By::Account),
	]
}
/// Half of the payments are between few parties, so that they meet.
fn party() -> impl Strategy<Value = u8> {
	prop_oneof![3 => 0u8..3, 2 => 0u8..9]
}
fn remark() -> impl Strategy<Value = Option<Vec<u8>>> {
	option::of(vec(any::<u8>(), 0..12))
}

pub struct Mix {
	pub pay: u32,
	pub request: u32,
	pub act: u32,
	pub next: u32,
	pub time: u32,
	pub trouble: u32,
}
pub fn op(m: &Mix) -> BoxedStrategy<Op> {
	prop_oneof![
		m.pay => (party(), party(), 0u8..3, amount(), remark(), id())
			.prop_map(|(by, to, asset, amount, remark, id)| Op::Pay { by, to, asset, amount, remark, id }),
		m.request => (party(), party(), 0u8..3, amount(), id())
			.prop_map(|(by, from, asset, amount, id)| Op::Request { by, from, asset, amount, id }),
		m.act => (any::<u8>(), act(), by()).prop_map(|(p, act, by)| Op::Act { p, act, by }),
		m.next => (any::<u8>(), any::<u8>(), 0u8..=100).prop_map(|(p, pick, percent)| Op::Next { p, pick, percent }),
		m.time => prop_oneof![
			(0u8..30).prop_map(Op::Advance),
			(-2i8..=2).prop_map(Op::Deadline),
			(-1i8..=3).prop_map(Op::Lag),
		],
		m.trouble => prop_oneof![
			2 => (0u8..6).prop_map(Op::Policy),
			2 => (0u8..9, 0u8..3, any::<bool>()).prop_map(|(who, asset, on)| Op::Block { who, asset, on }),
			2 => (0u8..9, 0u8..9, 0u8..3, 0u8..=100).prop_map(|(from, to, asset, share)| Op::Move { from, to, asset, share }),
			3 => (0u8..10).prop_map(Op::Fault),
			1 => Just(Op::Full),
		],
	]
	.boxed()
}
pub fn history(m: Mix, max: usize) -> BoxedStrategy<Case> {
	(
		prop_oneof![4 => 1u8..=30, 1 => Just(0u8), 1 => 0u8..=100],
		1u8..25,
		vec(prop_oneof![1 => Just(0u8), 1 => Just(1u8), 8 => Just(2u8), 2 => Just(3u8)], 27),
		vec(policy(), 1..4),
		vec(op(&m), 1..=max),
	)
		.prop_map(|(incentive, buffer, funds, policies, ops)| Case { incentive, buffer, funds, policies, ops })
		.boxed()
}
