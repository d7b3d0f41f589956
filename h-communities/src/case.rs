//! Histories of community operations.
use serde::{Deserialize, Serialize};
use vkit::proptest::{collection::vec, prelude::*};

#[derive(Clone, Copy, Debug, PartialEq, Eq, Serialize, Deserialize)]
pub enum By {
	/// whoever administers the community
	AdminOf(u8),
	/// the community itself
	VoiceOf(u8),
	/// the community's account, signing
	AccountOf(u8),
	Person(u8),
	Council(u8),
	Root,
	Nobody,
}
#[derive(Clone, Copy, Debug, Serialize, Deserialize)]
pub enum Method {
	Membership,
	Native,
	Asset(u8, u16),
	Rank,
}
#[derive(Clone, Copy, Debug, Serialize, Deserialize)]
pub enum Amount {
	Plain(u16),
	/// the voter's balance, off by a little
	Near(i8),
	/// the largest weight, off by a little
	Limit(i8),
	/// the minimum of the decision method, off by a little
	Min(i8),
	Part(u8),
}
#[derive(Clone, Copy, Debug, Serialize, Deserialize)]
pub enum Kind {
	/// what the poll's community decides by
	Fit,
	Standard,
	Native,
	Asset(u8),
}
#[derive(Clone, Copy, Debug, Serialize, Deserialize)]
pub enum Mem {
	/// one handed out by the community at hand
	Of(u8),
	/// one the community still has
	Pool(u8),
	Any(u8),
	/// one with a vote on the poll at hand
	Voted(u8),
}
#[derive(Clone, Copy, Debug, Serialize, Deserialize)]
pub enum Who {
	Holder,
	Person(u8),
}
#[derive(Clone, Debug, Serialize, Deserialize)]
pub enum Inner {
	Poke { fail: bool },
	RootOnly,
	/// the same call again, inside
	Nested(Box<Inner>),
}
#[derive(Clone, Debug, Serialize, Deserialize)]
pub enum Op {
	Create { by: By, admin: By, id: u8 },
	SetAdmin { by: By, to: By },
	Add { by: By, who: u8 },
	Remove { by: By, who: Who, c: u8, m: Mem },
	Promote { by: By, c: u8, m: Mem },
	Demote { by: By, c: u8, m: Mem },
	SetMethod { by: By, c: u8, method: Method },
	Vote { who: Who, poll: u8, m: Mem, kind: Kind, say: bool, amount: Amount },
	RemoveVote { who: Who, poll: u8, m: Mem },
	Unlock { who: u8, poll: u8 },
	/// one of the locks there are
	UnlockOne { n: u8 },
	Dispatch { by: By, inner: Inner },
	// what happens around the module
	Poll { c: u8 },
	EndPoll { poll: u8, how: u8 },
	Block { c: u8, on: bool },
	Mint { c: u8 },
	Gift { m: u8, to: u8 },
	Rank { m: u8, rank: u8 },
	Move { from: u8, to: u8, asset: u8, share: u8 },
	Freeze { who: u8, asset: u8, share: u8 },
	/// the membership manager's n-th change within the next operation fails
	Fault(u8),
	/// the ledger's n-th change within the next operation fails
	LedgerFault(u8),
}
#[derive(Clone, Debug, Serialize, Deserialize)]
pub struct Start {
	pub admin: By,
	pub method: Method,
	/// who is a member (people may be named more than once), with their rank
	pub members: Vec<(u8, u8)>,
	pub spare: u8,
}
#[derive(Clone, Debug, Serialize, Deserialize)]
pub struct Case {
	pub start: Vec<Start>,
	/// funds of every person, as a level, in the native token and two assets
	pub funds: Vec<u8>,
	pub ops: Vec<Op>,
}

/// Shares of the kinds of operations.
#[derive(Clone, Copy)]
pub struct Mix {
	pub admin: u32,
	pub member: u32,
	pub method: u32,
	pub vote: u32,
	pub unvote: u32,
	pub unlock: u32,
	pub dispatch: u32,
	pub polls: u32,
	pub around: u32,
	/// in a hundred, how often the caller is picked at random
	pub stray: u32,
	/// in a hundred, how often communities decide by amounts
	pub amounts: u32,
}

fn by_any() -> BoxedStrategy<By> {
	prop_oneof![
		4 => (0u8..5).prop_map(By::AdminOf),
		2 => (0u8..5).prop_map(By::VoiceOf),
		1 => (0u8..5).prop_map(By::AccountOf),
		4 => (0u8..6).prop_map(By::Person),
		1 => (0u8..2).prop_map(By::Council),
		1 => Just(By::Root),
		1 => Just(By::Nobody),
	]
	.boxed()
}
fn by(stray: u32) -> BoxedStrategy<By> {
	let rest = 100 - stray;
	prop_oneof![
		rest * 2 => (0u8..4).prop_map(By::AdminOf),
		rest => (0u8..4).prop_map(By::VoiceOf),
		(stray * 3).max(1) => by_any(),
	]
	.boxed()
}
fn method(amounts: u32) -> BoxedStrategy<Method> {
	prop_oneof![
		100 - amounts => prop_oneof![
			1 => Just(Method::Membership),
			2 => Just(Method::Rank),
		],
		amounts => prop_oneof![
			1 => Just(Method::Native),
			1 => (0u8..3, prop_oneof![Just(0u16), Just(1), 0u16..60]).prop_map(|(a, m)| Method::Asset(a, m)),
		],
	]
	.boxed()
}
fn amount() -> BoxedStrategy<Amount> {
	prop_oneof![
		2 => (0u16..60).prop_map(Amount::Plain),
		2 => (0u16..2000).prop_map(Amount::Plain),
		2 => (-2i8..=2).prop_map(Amount::Near),
		2 => (-3i8..=3).prop_map(Amount::Limit),
		2 => (-2i8..=2).prop_map(Amount::Min),
		3 => (1u8..=100).prop_map(Amount::Part),
	]
	.boxed()
}
fn kind() -> BoxedStrategy<Kind> {
	prop_oneof![
		12 => Just(Kind::Fit),
		1 => Just(Kind::Standard),
		1 => Just(Kind::Native),
		1 => (0u8..3).prop_map(Kind::Asset),
	]
	.boxed()
}
fn mem() -> BoxedStrategy<Mem> {
	prop_oneof![
		12 => any::<u8>().prop_map(Mem::Of),
		1 => any::<u8>().prop_map(Mem::Pool),
		2 => any::<u8>().prop_map(Mem::Any),
	]
	.boxed()
}
fn who() -> BoxedStrategy<Who> {
	prop_oneof![10 => Just(Who::Holder), 1 => (0u8..6).prop_map(Who::Person)].boxed()
}
fn inner() -> BoxedStrategy<Inner> {
	let leaf = prop_oneof![4 => Just(Inner::Poke { fail: false }), 2 => Just(Inner::Poke { fail: true }), 1 => Just(Inner::RootOnly)];
	(leaf, prop_oneof![4 => Just(0u8), 2 => Just(1), 1 => Just(2)])
		.prop_map(|(i, n)| (0..n).fold(i, |i, _| Inner::Nested(Box::new(i))))
		.boxed()
}
fn op(x: Mix) -> BoxedStrategy<Op> {
	let s = x.stray;
	prop_oneof![
		x.admin => prop_oneof![
			3 => (by_any(), by_any(), 0u8..5).prop_map(|(by, admin, id)| Op::Create { by, admin, id }),
			2 => (by_any(), 0u8..5).prop_map(|(admin, id)| Op::Create { by: By::Root, admin, id }),
			4 => (by(s), by_any()).prop_map(|(by, to)| Op::SetAdmin { by, to }),
			1 => (0u8..4, 0u8..4).prop_map(|(a, b)| Op::SetAdmin { by: By::AdminOf(a), to: By::AdminOf(b) }),
		],
		x.member => prop_oneof![
			3 => (by(s), 0u8..6).prop_map(|(by, who)| Op::Add { by, who }),
			2 => (0u8..4, who(), mem()).prop_map(|(c, who, m)| Op::Remove { by: By::AdminOf(c), who, c, m }),
			2 => (by(s), who(), 0u8..4, mem()).prop_map(|(by, who, c, m)| Op::Remove { by, who, c, m }),
			2 => (0u8..4, mem()).prop_map(|(c, m)| Op::Promote { by: By::VoiceOf(c), c, m }),
			1 => (by(s), 0u8..4, mem()).prop_map(|(by, c, m)| Op::Promote { by, c, m }),
			2 => (0u8..4, mem()).prop_map(|(c, m)| Op::Demote { by: By::AdminOf(c), c, m }),
			1 => (by(s), 0u8..4, mem()).prop_map(|(by, c, m)| Op::Demote { by, c, m }),
		],
		x.method => prop_oneof![
			(0u8..4, method(x.amounts)).prop_map(|(c, method)| Op::SetMethod { by: By::AdminOf(c), c, method }),
			(by(s), 0u8..5, method(x.amounts)).prop_map(|(by, c, method)| Op::SetMethod { by, c, method }),
		],
		x.vote => (who(), any::<u8>(), prop_oneof![4 => mem(), 1 => any::<u8>().prop_map(Mem::Voted)], kind(), any::<bool>(), amount())
			.prop_map(|(who, poll, m, kind, say, amount)| Op::Vote { who, poll, m, kind, say, amount }),
		x.unvote => (who(), any::<u8>(), prop_oneof![3 => any::<u8>().prop_map(Mem::Voted), 1 => mem()]).prop_map(|(who, poll, m)| Op::RemoveVote { who, poll, m }),
		x.unlock => prop_oneof![
			3 => any::<u8>().prop_map(|n| Op::UnlockOne { n }),
			1 => (0u8..6, any::<u8>()).prop_map(|(who, poll)| Op::Unlock { who, poll }),
		],
		x.dispatch => (by(s), inner()).prop_map(|(by, inner)| Op::Dispatch { by, inner }),
		x.polls => prop_oneof![
			2 => (0u8..4).prop_map(|c| Op::Poll { c }),
			1 => (any::<u8>(), 0u8..4).prop_map(|(poll, how)| Op::EndPoll { poll, how }),
		],
		x.around => prop_oneof![
			1 => (0u8..4, any::<bool>()).prop_map(|(c, on)| Op::Block { c, on }),
			1 => (0u8..4).prop_map(|c| Op::Mint { c }),
			1 => (any::<u8>(), 0u8..4).prop_map(|(m, to)| Op::Gift { m, to }),
			2 => (any::<u8>(), prop_oneof![0u8..4, 250u8..=255, any::<u8>()]).prop_map(|(m, rank)| Op::Rank { m, rank }),
			2 => (0u8..6, 0u8..6, 0u8..3, 0u8..=100).prop_map(|(from, to, asset, share)| Op::Move { from, to, asset, share }),
			1 => (0u8..6, 0u8..3, 0u8..=100).prop_map(|(who, asset, share)| Op::Freeze { who, asset, share }),
			1 => (0u8..2).prop_map(Op::Fault),
			1 => (0u8..3).prop_map(Op::LedgerFault),
		],
	]
	.boxed()
}
fn start(x: Mix) -> BoxedStrategy<Start> {
	let members = prop_oneof![1 => Just(0usize), 6 => 1usize..6];
	(by_any(), method(x.amounts), members.prop_flat_map(|n| vec((0u8..6, prop_oneof![0u8..4, Just(255)]), n)), 0u8..3)
		.prop_map(|(admin, method, members, spare)| Start { admin, method, members, spare })
		.boxed()
}
pub fn history(x: Mix, max: usize) -> BoxedStrategy<Case> {
	let level = prop_oneof![1 => 0u8..3, 4 => 3u8..8];
	(vec(start(x), 1..5), vec(level, 18), vec(op(x), 1..max))
		.prop_map(|(start, funds, ops)| Case { start, funds, ops })
		.boxed()
}
