//! R06, R07, R08, R11 (origins), R12, R13, R14, R18: who is taken for whom.
use crate::world::*;
use frame_support::traits::{EnsureOrigin, EnsureOriginWithArg, Get, PrivilegeCmp};
use kreivo_deps::*;
use kreivo_runtime::*;
use pallet_referenda::TracksInfo;
use parity_scale_codec::Encode;
use serde::{Deserialize, Serialize};
use sp_runtime::traits::StaticLookup;
use std::cmp::Ordering;
use std::collections::BTreeSet;
use vkit::proptest::{collection::vec, prelude::*};
use vkit::{req, req_eq, Ctx, Tier, Verdict};
use xcm::latest::prelude::{BodyId, BodyPart, Location, Plurality};

/// Whom the check takes the origin for.
fn is<E: EnsureOrigin<RuntimeOrigin>>(o: RuntimeOrigin) -> Result<E::Success, RuntimeOrigin> {
	E::try_origin(o)
}
fn is_for<E: EnsureOriginWithArg<RuntimeOrigin, A>, A>(o: RuntimeOrigin, a: &A) -> Result<E::Success, RuntimeOrigin> {
	E::try_origin(o, a)
}

// ---- R06

#[derive(Clone, Debug, Serialize, Deserialize)]
pub struct SpeakCase {
	/// the communities there are and who administers them
	communities: Vec<(u16, Acc)>,
	who: Acc,
}
pub fn speakers() -> BoxedStrategy<SpeakCase> {
	(vec((small_id(), acc()), 0..4), acc()).prop_map(|(communities, who)| SpeakCase { communities, who }).boxed()
}
/// The communities that came about, with their administrators.
fn registered(wanted: &[(u16, Acc)]) -> Vec<(u16, AccountId)> {
	wanted.iter().map(|(c, a)| (*c, a.account())).filter(|(c, a)| register(*c, a).is_ok()).collect()
}
pub fn check_speakers(c: &SpeakCase, cx: &mut Ctx) -> Verdict {
	settled();
	let there = registered(&c.communities);
	let who = c.who.account();
	let own = community_of(&who);
	let signed = || Org::Signed(c.who.clone()).origin();
	let admin: Vec<u16> = there.iter().filter(|x| x.1 == who).map(|x| x.0).collect();
	let exists = |id: u16| there.iter().any(|x| x.0 == id);
	type P = <Runtime as pallet_communities::Config>::AdminOrigin;
	type M = <Runtime as pallet_communities::Config>::MemberMgmtOrigin;
	for (what, r) in [("administrator", is::<P>(signed())), ("manager", is::<M>(signed()))] {
		match r {
			Ok(id) => req!(own == Some(id) || admin.contains(&id), "{:?} is taken for the {what} of community {id}", c.who),
			Err(_) => req!(admin.is_empty() && !own.map_or(false, exists), "{:?} is not taken for the {what} of its community", c.who),
		}
	}
	// What it can do: decide how a community decides.
	for (id, _) in &there {
		let r = dispatch(&Org::Signed(c.who.clone()), call(71, 7, (*id, 1u8)));
		let may = own == Some(*id) || admin.contains(id);
		req!(may || r.is_err(), "{:?} changed how community {id} decides", c.who);
		req!(!may || own.is_some() && !admin.is_empty() || r.is_ok(), "{:?} was refused to change how community {id} decides: {r:?}", c.who);
	}
	// What it can send messages as.
	let voice = own.map(|id| at(0, &[Plurality { id: BodyId::Index(id.into()), part: BodyPart::Voice }]));
	let sends = is::<<Runtime as pallet_xcm::Config>::SendXcmOrigin>(signed()).ok();
	req_eq!(sends, voice, "{:?} sends messages as {sends:?}", c.who);
	cx.label(match (own, admin.is_empty()) {
		(Some(_), _) => "a community's account",
		(None, false) => "an administrator",
		(None, true) => "anybody",
	});
	if !matches!(c.who, Acc::User(_) | Acc::Raw(_)) {
		cx.nontrivial(&(&c.communities, &c.who));
	}
	Ok(())
}

// ---- R07

#[derive(Clone, Debug, Serialize, Deserialize)]
pub struct LoginCase {
	now: u32,
	/// how far back the challenge claims to be from
	back: i64,
	/// what it says: the hash of the block this far back, nothing, or that hash with a bit turned
	answer: Answer,
	/// how many blocks there are hashes of
	known: u8,
}
#[derive(Clone, Debug, Serialize, Deserialize, Hash)]
pub enum Answer {
	Of(i64),
	Zeros,
	Turned(u8),
	Cut(u8),
	Longer(u8),
	Raw(Vec<u8>),
}
pub fn logins() -> BoxedStrategy<LoginCase> {
	let back = || prop_oneof![8 => -2i64..6, 2 => Just(3i64), 2 => Just(4i64), 1 => -300i64..300, 1 => any::<i32>().prop_map(i64::from)];
	let answer = prop_oneof![
		4 => Just(Answer::Of(i64::MIN)),
		3 => back().prop_map(Answer::Of),
		4 => Just(Answer::Zeros),
		2 => any::<u8>().prop_map(Answer::Turned),
		1 => (0u8..32).prop_map(Answer::Cut),
		1 => (1u8..4).prop_map(Answer::Longer),
		1 => vec(any::<u8>(), 0..40).prop_map(Answer::Raw),
	];
	(prop_oneof![4 => 0u32..8, 4 => 8u32..1_000, 1 => any::<u32>(), 1 => Just(u32::MAX)], back(), answer, prop_oneof![0u8..5, any::<u8>()])
		.prop_map(|(now, back, answer, known)| LoginCase { now, back, answer, known })
		.boxed()
}
pub fn check_logins(c: &LoginCase, cx: &mut Ctx) -> Verdict {
	use fc_traits_authn::{Challenger, HasChallenger};
	type Ch = <<Runtime as pallet_pass::Config>::Authenticator as HasChallenger>::Challenger;
	fresh();
	System::set_block_number(c.now);
	let hash = |n: u32| {
		let mut h = [7u8; 32];
		h[..4].copy_from_slice(&n.to_le_bytes());
		h
	};
	let block = |back: i64| u32::try_from(c.now as i64 - back).ok();
	let is_known = |n: u32| n < c.now && c.now - n <= c.known as u32;
	let hash_of = |n: Option<u32>| n.filter(|n| is_known(*n)).map_or([0u8; 32], hash);
	for back in 1..=c.known as i64 {
		if let Some(n) = block(back) {
			frame_system::BlockHash::<Runtime>::insert(n, sp_core::H256(hash(n)));
		}
	}
	let Some(claimed) = block(c.back) else { return Ok(()) };
	let right = hash_of(Some(claimed));
	let answer: Vec<u8> = match &c.answer {
		Answer::Of(i64::MIN) => right.to_vec(),
		Answer::Of(b) => hash_of(block(*b)).to_vec(),
		Answer::Zeros => vec![0; 32],
		Answer::Turned(b) => {
			let mut a = right;
			a[*b as usize / 8] ^= 1 << (b % 8);
			a.to_vec()
		}
		Answer::Cut(n) => right[..*n as usize].to_vec(),
		Answer::Longer(n) => [&right[..], &[0u8; 8][..*n as usize]].concat(),
		Answer::Raw(v) => v.clone(),
	};
	let accepted = Ch::check_challenge(&claimed, &answer).is_some();
	let recent = claimed < c.now && c.now - claimed <= 3;
	// A block there is no hash of has no challenge at all.
	let due = recent && is_known(claimed) && answer == right;
	if recent && !is_known(claimed) {
		// Blocks of the recent past always have a hash on a chain.
		cx.label("no hash of it");
		return Ok(());
	}
	req_eq!(accepted, due, "at block {} a challenge of block {claimed} ({}) was {}", c.now, if answer == right { "the right one" } else { "a wrong one" }, if accepted { "accepted" } else { "refused" });
	if due {
		req_eq!(Ch::generate(&claimed), right, "the challenge put for block {claimed} is not its hash");
	}
	cx.label(if accepted { "accepted" } else { "refused" });
	if answer == right || recent {
		cx.nontrivial(&(c.now, c.back, &c.answer, c.known));
	}
	Ok(())
}

// ---- R08

type Tracks = <Runtime as pallet_referenda::Config<pallet_referenda::Instance1>>::Tracks;
#[derive(Clone, Debug, Serialize, Deserialize)]
pub struct TrackCase {
	who: Org,
	x: u32,
	y: u32,
	approval: u32,
}
pub fn tracks() -> BoxedStrategy<TrackCase> {
	let p = || prop_oneof![0u32..=1_000_000_000, Just(0u32), Just(1_000_000_000), 999_999_000u32..=1_000_000_000];
	(org(), p(), p(), p()).prop_map(|(who, x, y, approval)| TrackCase { who, x, y, approval }).boxed()
}
pub fn every_org(worker: usize, workers: usize, _: Tier, _: u64, run: &mut dyn FnMut(TrackCase) -> bool) {
	let all = [Org::Root, Org::Nobody, Org::Signed(Acc::Module(0, 0)), Org::Voice(0), Org::CreateMemberships, Org::Canceller, Org::Killer, Org::Relay];
	for (i, who) in all.iter().enumerate() {
		if i % workers == worker && !run(TrackCase { who: who.clone(), x: 0, y: 1_000_000_000, approval: 500_000_000 }) {
			return;
		}
	}
}
pub fn check_tracks(c: &TrackCase, cx: &mut Ctx) -> Verdict {
	use sp_runtime::Perbill;
	fresh();
	let track_of = |o: &Org| <Tracks as TracksInfo<Balance, BlockNumber>>::track_for(&o.caller()).ok();
	let all: Vec<_> = <Tracks as TracksInfo<Balance, BlockNumber>>::tracks().map(|t| t.into_owned()).collect();
	let ids: Vec<u16> = all.iter().map(|t| t.id).collect();
	let privileged = [Org::Root, Org::CreateMemberships, Org::Canceller, Org::Killer];
	// The pairs of tracks and privileged origins.
	let used: Vec<Option<u16>> = privileged.iter().map(track_of).collect();
	for (o, t) in privileged.iter().zip(&used) {
		let Some(t) = t else { return Err(format!("{o:?} has no track")) };
		req!(ids.contains(t), "the track {t} of {o:?} does not exist");
	}
	let distinct: BTreeSet<_> = used.iter().flatten().collect();
	req_eq!(distinct.len(), privileged.len(), "privileged origins share a track");
	req_eq!(ids.len(), privileged.len(), "there are tracks that belong to nobody");
	req!(ids.windows(2).all(|w| w[0] < w[1]), "the tracks are not in order of distinct identifiers");
	// The origin at hand.
	let who = privileged.contains(&c.who);
	req_eq!(track_of(&c.who).is_some(), who, "{:?} has the track {:?}", c.who, track_of(&c.who));
	type Kill = <Runtime as pallet_referenda::Config<pallet_referenda::Instance1>>::KillOrigin;
	type Cancel = <Runtime as pallet_referenda::Config<pallet_referenda::Instance1>>::CancelOrigin;
	type Memberships = <Runtime as pallet_communities_manager::Config>::CreateMembershipsOrigin;
	req_eq!(is::<Cancel>(c.who.origin()).is_ok(), c.who == Org::Canceller, "cancelling referenda by {:?}", c.who);
	req_eq!(is::<Kill>(c.who.origin()).is_ok(), c.who == Org::Killer, "killing referenda by {:?}", c.who);
	req_eq!(
		is::<Memberships>(c.who.origin()).is_ok(),
		matches!(c.who, Org::Root | Org::CreateMemberships),
		"creating memberships by {:?}",
		c.who
	);
	use governance::pallet_custom_origins as unit;
	for (name, o, ok) in [
		("memberships", Org::CreateMemberships, is::<unit::CreateMemberships>(c.who.origin()).is_ok()),
		("canceller", Org::Canceller, is::<unit::ReferendumCanceller>(c.who.origin()).is_ok()),
		("killer", Org::Killer, is::<unit::ReferendumKiller>(c.who.origin()).is_ok()),
	] {
		req_eq!(ok, c.who == o, "the check for the {name} origin says {ok} of {:?}", c.who);
	}
	// Rules that can be met and only ease off.
	let (x, y) = (Perbill::from_parts(c.x.min(c.y)), Perbill::from_parts(c.x.max(c.y)));
	for t in &all {
		for (what, curve) in [("approval", &t.info.min_approval), ("support", &t.info.min_support)] {
			req!(curve.threshold(x) >= curve.threshold(y), "track {}: {what} rises from {:?} at {x:?} to {:?} at {y:?}", t.id, curve.threshold(x), curve.threshold(y));
			req!(curve.passing(x, Perbill::one()), "track {}: {what} of everybody does not pass at {x:?}", t.id);
			req!(curve.threshold(x) <= Perbill::one(), "track {}: {what} above everybody at {x:?}", t.id);
		}
		let few = Perbill::from_parts(c.approval.min(499_999_999));
		req!(!t.info.min_approval.passing(x, few), "track {}: {few:?} of the votes are enough at {x:?}", t.id);
		req!(t.info.max_deciding > 0, "track {} decides nothing", t.id);
		req!(t.info.confirm_period <= t.info.decision_period, "track {}: confirming takes longer than deciding", t.id);
	}
	// The published rules of each of them, which fall evenly over the time there is to decide.
	type Ref = pallet_referenda::Instance1;
	type Timeout = <Runtime as pallet_referenda::Config<Ref>>::UndecidingTimeout;
	let straight = |from: u32, to: u32, x: Perbill| {
		let fall = (from - to) as u64 * 10_000_000 * x.deconstruct() as u64 / 1_000_000_000;
		from as u64 * 10_000_000 - fall
	};
	for (o, approval, support, deposit) in
		[(Org::Root, 90, 0, 10 * UNIT), (Org::Canceller, 90, 0, UNIT), (Org::Killer, 90, 0, UNIT), (Org::CreateMemberships, 50, 50, UNIT)]
	{
		let id = track_of(&o);
		let t = all.iter().find(|t| Some(t.id) == id).expect("HARNESS-BUG: looked at above");
		for x in [x, y] {
			for (what, curve, low) in [("approval", &t.info.min_approval, approval), ("support", &t.info.min_support, support)] {
				let (got, due) = (curve.threshold(x).deconstruct() as u64, straight(100, low, x));
				req!(got.abs_diff(due) <= 2, "the track of {o:?} asks for {what} of {got} in 10^9 at {x:?} rather than {due}");
			}
		}
		let got = (t.info.max_deciding, t.info.decision_deposit, t.info.prepare_period, t.info.decision_period, t.info.confirm_period, t.info.min_enactment_period);
		req_eq!(got, (1, deposit, 15 * MINUTES, 4 * DAYS, 15 * MINUTES, 1), "the track of {o:?} has other limits, deposit or periods");
		req!(t.info.prepare_period < Timeout::get(), "a referendum of {o:?} runs out before it can be decided");
	}
	// Those of every referendum, and who has a say in them.
	type RankOf = <Runtime as pallet_ranked_collective::Config<pallet_ranked_collective::Instance1>>::MinRankOfClass;
	for t in ids.iter().chain(&[c.x as u16]) {
		req_eq!(<RankOf as sp_runtime::traits::Convert<u16, u16>>::convert(*t), 1, "the rank it takes to vote on track {t}");
	}
	macro_rules! of {
		($i:ident, $what:ident) => {
			<<Runtime as pallet_referenda::Config<pallet_referenda::$i>>::$what as Get<_>>::get()
		};
	}
	let all: (u128, u32, u32, u32) = (of!(Instance1, SubmissionDeposit), of!(Instance1, MaxQueued), of!(Instance1, UndecidingTimeout), of!(Instance1, AlarmInterval));
	req_eq!(all, (UNIT, 10, 2 * DAYS, 1), "the collective's referenda: deposit, queue, time to start deciding, alarms");
	let all: (u128, u32, u32, u32) = (of!(Instance2, SubmissionDeposit), of!(Instance2, MaxQueued), of!(Instance2, UndecidingTimeout), of!(Instance2, AlarmInterval));
	req_eq!(all, (0, 100, 14 * DAYS, 1), "the communities' referenda: deposit, queue, time to start deciding, alarms");
	cx.label(if who { "privileged" } else { "not privileged" });
	cx.nontrivial(&(&c.who, c.x, c.y, c.approval));
	Ok(())
}

// ---- R11, the part on who puts contracts there

pub fn check_contract_origins(c: &Org, cx: &mut Ctx) -> Verdict {
	fresh();
	type Upload = <Runtime as pallet_contracts::Config>::UploadOrigin;
	type Instantiate = <Runtime as pallet_contracts::Config>::InstantiateOrigin;
	let up: Option<AccountId> = is::<Upload>(c.origin()).ok();
	req_eq!(up, (*c == Org::Root).then(treasury), "code uploaded by {c:?} is charged to {up:?}");
	let inst: Option<AccountId> = is::<Instantiate>(c.origin()).ok();
	let due = match c {
		Org::Root => Some(treasury()),
		Org::Voice(id @ (1 | 2)) => Some(community_account(*id)),
		// A part of a community is not the community; nothing is said about whether it may.
		Org::Some(id @ (1 | 2), _) if inst.is_some() => Some(community_account(*id)),
		_ => None,
	};
	req_eq!(inst, due, "contracts instantiated by {c:?} are charged to {inst:?}");
	cx.label(if due.is_some() { "may" } else { "may not" });
	if matches!(c, Org::Root | Org::Voice(_) | Org::Some(..)) || matches!(c, Org::Signed(a) if community_of(&a.account()).is_some()) {
		cx.nontrivial(c);
	}
	Ok(())
}

// ---- R12

#[derive(Clone, Debug, Serialize, Deserialize, Hash)]
pub enum AddrCase {
	Id(Acc),
	Index(u16),
	Raw(Vec<u8>),
	Address32(Acc),
	Address20([u8; 20]),
}
pub fn addresses() -> BoxedStrategy<AddrCase> {
	prop_oneof![
		4 => acc().prop_map(AddrCase::Id),
		4 => prop_oneof![small_id(), any::<u16>()].prop_map(AddrCase::Index),
		1 => vec(any::<u8>(), 0..40).prop_map(AddrCase::Raw),
		1 => acc().prop_map(|a| { let b: [u8; 32] = a.account().into(); AddrCase::Raw(b.to_vec()) }),
		2 => acc().prop_map(AddrCase::Address32),
		1 => any::<[u8; 20]>().prop_map(AddrCase::Address20),
	]
	.boxed()
}
pub fn check_addresses(c: &AddrCase, cx: &mut Ctx) -> Verdict {
	fresh();
	type L = <Runtime as frame_system::Config>::Lookup;
	let (address, due): (<L as StaticLookup>::Source, _) = match c {
		AddrCase::Id(a) => (MultiAddress::Id(a.account()), Some(a.account())),
		AddrCase::Index(i) => (MultiAddress::Index(*i), Some(community_account(*i))),
		AddrCase::Raw(v) => (MultiAddress::Raw(v.clone()), None),
		AddrCase::Address32(a) => (MultiAddress::Address32(a.account().into()), None),
		AddrCase::Address20(a) => (MultiAddress::Address20(*a), None),
	};
	let got = L::lookup(address).ok();
	req_eq!(got, due, "{c:?} resolves to {got:?}");
	if let Some(a) = due {
		let back = L::lookup(L::unlookup(a.clone())).ok();
		req_eq!(back, Some(a.clone()), "{a:?} written as an address and read again is {back:?}");
	}
	// On the wire an index is a community's number.
	if let AddrCase::Index(i) = c {
		let mut b = vec![1u8];
		parity_scale_codec::Compact(*i).encode_to(&mut b);
		let read = <<L as StaticLookup>::Source as parity_scale_codec::Decode>::decode(&mut &b[..]).ok();
		req_eq!(read, Some(MultiAddress::Index(*i)), "the index {i} is read as {read:?}");
	}
	cx.nontrivial(c);
	Ok(())
}

// ---- R13

#[derive(Clone, Debug, Serialize, Deserialize)]
pub struct RankCase(Org, Org);
pub fn ranks() -> BoxedStrategy<RankCase> {
	let alike = org().prop_map(|a| RankCase(a.clone(), a));
	prop_oneof![1 => alike, 6 => (org(), org()).prop_map(|(a, b)| RankCase(a, b)), 1 => org().prop_map(|a| RankCase(Org::Root, a)), 1 => org().prop_map(|a| RankCase(a, Org::Root))]
		.boxed()
}
pub fn check_ranks(c: &RankCase, cx: &mut Ctx) -> Verdict {
	fresh();
	type Cmp = <Runtime as pallet_scheduler::Config>::OriginPrivilegeCmp;
	let (a, b) = (c.0.caller(), c.1.caller());
	let r = <Cmp as PrivilegeCmp<OriginCaller>>::cmp_privilege(&a, &b);
	if a == b {
		req_eq!(r, Some(Ordering::Equal), "{:?} compared with itself is {r:?}", c.0);
	} else if c.0 == Org::Root {
		req_eq!(r, Some(Ordering::Greater), "root compared with {:?} is {r:?}", c.1);
	} else {
		req!(!matches!(r, Some(Ordering::Equal | Ordering::Greater)), "{:?} compared with {:?} is {r:?}", c.0, c.1);
	}
	cx.label(match r {
		None => "not comparable",
		Some(Ordering::Equal) => "equal",
		Some(Ordering::Greater) => "above",
		Some(Ordering::Less) => "below",
	});
	cx.nontrivial(&(&c.0, &c.1));
	Ok(())
}

// ---- R14

#[derive(Clone, Debug, Serialize, Deserialize)]
pub struct SubmitCase {
	communities: u8,
	/// who is a member of what
	members: Vec<(u8, Acc)>,
	gone: Vec<u8>,
	who: Org,
	/// in whose name
	name: Org,
	track: u16,
}
pub fn submissions() -> BoxedStrategy<SubmitCase> {
	let user = || prop_oneof![5 => (0u8..4).prop_map(Acc::User), 1 => (0u16..4).prop_map(Acc::Community), 1 => Just(Acc::Module(0, 0))];
	let who = prop_oneof![6 => user().prop_map(Org::Signed), 2 => (0u16..4).prop_map(Org::Voice), 1 => Just(Org::Root), 2 => org()];
	let name = prop_oneof![6 => (1u16..4).prop_map(Org::Voice), 1 => Just(Org::Voice(0)), 1 => (0u16..4, portion()).prop_map(|(c, p)| Org::Some(c, p)), 1 => user().prop_map(Org::Signed), 1 => org()];
	(prop_oneof![1 => Just(0u8), 6 => 1u8..4], vec((1u8..4, user()), 0..6), vec(0u8..6, 0..3), who, name, 0u16..5)
		.prop_map(|(communities, members, gone, who, name, track)| SubmitCase { communities, members, gone, who, name, track })
		.boxed()
}
pub fn check_submissions(c: &SubmitCase, cx: &mut Ctx) -> Verdict {
	settled();
	for id in 1..=c.communities as u16 {
		register(id, &Acc::User(100 + id as u8).account()).map_err(|e| format!("community {id} cannot be registered: {e:?}"))?;
	}
	let mut members: Vec<(u16, u32, AccountId)> = vec![];
	for (m, (community, who)) in c.members.iter().enumerate() {
		if *community <= c.communities {
			make_member(*community as u16, m as u32, &who.account());
			members.push((*community as u16, m as u32, who.account()));
		}
	}
	for g in &c.gone {
		if let Some(i) = members.iter().position(|x| x.1 == *g as u32) {
			let (community, m, who) = members.remove(i);
			let r = dispatch(&Org::Voice(community), call(71, 4, (Raw(address(&who)), m)));
			req!(r.is_ok(), "{who:?} cannot be removed from community {community}: {r:?}");
		}
	}
	// Whose track it is.
	let of = match &c.name {
		Org::Voice(id) if (1..=c.communities as u16).contains(id) => Some(*id),
		_ => None,
	};
	let member = |who: &AccountId| of.map_or(false, |id| members.iter().any(|x| x.0 == id && x.2 == *who));
	type Submit = <Runtime as pallet_referenda::Config<pallet_referenda::Instance2>>::SubmitOrigin;
	let r: Option<AccountId> = is_for::<Submit, _>(c.who.origin(), &c.name.caller()).ok();
	let due = match &c.who {
		Org::Root => Some(treasury()),
		Org::Signed(a) if member(&a.account()) => Some(a.account()),
		_ => None,
	};
	req_eq!(r, due, "a referendum in the name of {:?} opened by {:?} counts as by {r:?}", c.name, c.who);
	// And as a whole: the call opens it on that very track.
	let before = CommunityReferenda::count();
	let proposal = Raw(vec![1u8, 12, 0, 0, 0]); // inline: an empty remark
	let r = dispatch(&c.who, call(73, 0, (c.name.caller(), proposal, Raw(vec![1u8, 1, 0, 0, 0]))));
	req_eq!(r.is_ok(), due.is_some() && of.is_some(), "opening a referendum in the name of {:?} by {:?}: {r:?}", c.name, c.who);
	if r.is_ok() {
		let s = CommunityReferenda::status(before).ok_or("no referendum was opened")?;
		req_eq!(Some(s.track), of, "it is on the track {}", s.track);
		req_eq!(Some(s.submitter), due, "it is somebody else's");
	}
	// Ending referenda is root's.
	if before != CommunityReferenda::count() {
		for index in [3u8, 4] {
			let r = dispatch(&c.name, call(73, index, before));
			req!(r.is_err(), "{:?} ended a referendum", c.name);
			let r = dispatch(&c.who, call(73, index, before));
			req!(r.is_err() || c.who == Org::Root, "{:?} ended a referendum", c.who);
		}
	}
	// Changing a track.
	type Update = <Runtime as pallet_referenda_tracks::Config<pallet_referenda::Instance2>>::UpdateOrigin;
	for o in [&c.who, &c.name] {
		let may = is_for::<Update, _>(o.origin(), &c.track).is_ok();
		let due = matches!(o, Org::Voice(id) if *id == c.track && (1..=c.communities as u16).contains(id));
		req_eq!(may, due, "{o:?} {} the track {}", if may { "may change" } else { "may not change" }, c.track);
		type Admin = <Runtime as pallet_referenda_tracks::Config<pallet_referenda::Instance2>>::AdminOrigin;
		req_eq!(is::<Admin>(o.origin()).is_ok(), *o == Org::Root, "{o:?} creates or removes tracks");
	}
	cx.label(if due.is_some() { "opened" } else { "refused" });
	if of.is_some() && !members.is_empty() {
		cx.nontrivial(&(c.communities, &c.members, &c.gone, &c.who, &c.name));
	}
	Ok(())
}

// ---- R18

/// What an origin stands for in a place where the runtime checks one.
pub fn check_slots(c: &Org, cx: &mut Ctx) -> Verdict {
	fresh();
	let root = *c == Org::Root;
	let o = || c.origin();
	let signed = match c {
		Org::Signed(a) => Some(a.account()),
		_ => None,
	};
	// Root only.
	let root_only: &[(&str, bool)] = &[
		("forcing assets", is::<<Runtime as pallet_assets::Config<pallet_assets::Instance1>>::ForceOrigin>(o()).is_ok()),
		("forcing memberships", is::<<Runtime as pallet_nfts::Config<pallet_nfts::Instance2>>::ForceOrigin>(o()).is_ok()),
		("scheduling", is::<<Runtime as pallet_scheduler::Config>::ScheduleOrigin>(o()).is_ok()),
		("managing preimages", is::<<Runtime as pallet_preimage::Config>::ManagerOrigin>(o()).is_ok()),
		("rejecting spends", is::<<Runtime as pallet_treasury::Config>::RejectOrigin>(o()).is_ok()),
		("controlling queues", is::<<Runtime as cumulus_pallet_xcmp_queue::Config>::ControllerOrigin>(o()).is_ok()),
		("administering messages", is::<<Runtime as pallet_xcm::Config>::AdminOrigin>(o()).is_ok()),
		("exchanging seats", is::<<Runtime as pallet_ranked_collective::Config<pallet_ranked_collective::Instance1>>::ExchangeOrigin>(o()).is_ok()),
		("cancelling community referenda", is::<<Runtime as pallet_referenda::Config<pallet_referenda::Instance2>>::CancelOrigin>(o()).is_ok()),
		("killing community referenda", is::<<Runtime as pallet_referenda::Config<pallet_referenda::Instance2>>::KillOrigin>(o()).is_ok()),
		("promoting", is::<<Runtime as pallet_ranked_collective::Config<pallet_ranked_collective::Instance1>>::PromoteOrigin>(o()).is_ok()),
		("demoting", is::<<Runtime as pallet_ranked_collective::Config<pallet_ranked_collective::Instance1>>::DemoteOrigin>(o()).is_ok()),
		("removing seats", is::<<Runtime as pallet_ranked_collective::Config<pallet_ranked_collective::Instance1>>::RemoveOrigin>(o()).is_ok()),
	];
	for (what, ok) in root_only {
		req_eq!(*ok, root, "{what} is {} to {c:?}", if *ok { "open" } else { "closed" });
	}
	// Root goes up to any rank.
	type Seats = pallet_ranked_collective::Instance1;
	let heights: [(&str, Option<u16>); 3] = [
		("promoting", is::<<Runtime as pallet_ranked_collective::Config<Seats>>::PromoteOrigin>(o()).ok()),
		("demoting", is::<<Runtime as pallet_ranked_collective::Config<Seats>>::DemoteOrigin>(o()).ok()),
		("removing seats", is::<<Runtime as pallet_ranked_collective::Config<Seats>>::RemoveOrigin>(o()).ok()),
	];
	for (what, rank) in heights {
		req!(rank.map_or(true, |r| r == u16::MAX), "{what} by {c:?} ends at the rank {rank:?}");
	}
	// Nobody at all.
	let never: &[(&str, bool)] = &[
		("taking seats", is::<<Runtime as pallet_ranked_collective::Config<pallet_ranked_collective::Instance1>>::AddOrigin>(o()).is_ok()),
		("spending from the treasury", is::<<Runtime as pallet_treasury::Config>::SpendOrigin>(o()).is_ok()),
		("creating communities by themselves", is::<<Runtime as pallet_communities::Config>::CreateOrigin>(o()).is_ok()),
	];
	for (what, ok) in never {
		req!(!*ok, "{what} is open to {c:?}");
	}
	let asset = crate::money::asset_n(0);
	let creates = is_for::<<Runtime as pallet_assets::Config<pallet_assets::Instance1>>::CreateOrigin, _>(o(), &asset).is_ok();
	req!(!creates, "creating assets is open to {c:?}");
	// On whose account something is.
	let nfts: Option<AccountId> = is_for::<<Runtime as pallet_nfts::Config<pallet_nfts::Instance2>>::CreateOrigin, _>(o(), &0).ok();
	req_eq!(nfts, root.then(treasury), "membership collections created by {c:?} belong to {nfts:?}");
	let resolver: Option<AccountId> = is::<<Runtime as pallet_payments::Config>::DisputeResolver>(o()).ok();
	req_eq!(resolver, root.then(treasury), "disputes resolved by {c:?} count as by {resolver:?}");
	let beneficiary: Option<AccountId> = is::<<Runtime as pallet_payments::Config>::BeneficiaryOrigin>(o()).ok();
	req_eq!(beneficiary, signed, "payments to {c:?} are handled as {beneficiary:?}");
	let sender: Option<AccountId> = is::<<Runtime as pallet_payments::Config>::SenderOrigin>(o()).ok();
	let due = match c {
		Org::Voice(id) => Some(community_account(*id)),
		Org::Some(id, _) => sender.is_some().then(|| community_account(*id)),
		_ => signed.clone(),
	};
	req_eq!(sender, due, "payments by {c:?} are made as {sender:?}");
	let opens: Option<AccountId> = is_for::<<Runtime as pallet_referenda::Config<pallet_referenda::Instance1>>::SubmitOrigin, _>(o(), &c.caller()).ok();
	req_eq!(opens, signed, "referenda opened by {c:?} are by {opens:?}");
	// Registering: what it costs.
	let price = is::<<Runtime as pallet_communities_manager::Config>::RegisterOrigin>(o()).ok();
	let due = match (&signed, root) {
		(_, true) => Some(None),
		(Some(who), _) => Some(Some((UNIT / 2, who.clone(), treasury()))),
		_ => None,
	};
	req_eq!(price, due, "registering a community costs {c:?} {price:?}");
	let pass = is_for::<<Runtime as pallet_pass::Config>::RegisterOrigin, _>(o(), &[0u8; 32]).ok();
	let pass = pass.map(|p| p.map(|d| (d.amount, d.source, d.dest)));
	let due = match c {
		Org::Root | Org::Voice(_) => Some(None),
		Org::Some(..) => pass.is_some().then_some(None),
		_ => signed.clone().map(|who| Some((least(), who, treasury()))),
	};
	req_eq!(pass, due, "a pass account costs {c:?} {pass:?}");
	// Changing the collators: root, or the relay chain's defence council with one voice.
	let collators = is::<<Runtime as pallet_collator_selection::Config>::UpdateOrigin>(o()).is_ok();
	let defence = matches!(c, Org::Xcm(l) if *l == at(1, &[Plurality { id: BodyId::Defense, part: BodyPart::Voice }]));
	req_eq!(collators, root || defence, "changing the collators is {} to {c:?}", if collators { "open" } else { "closed" });
	// Messages sent and executed in whose name.
	let sends: Option<Location> = is::<<Runtime as pallet_xcm::Config>::SendXcmOrigin>(o()).ok();
	let runs: Option<Location> = is::<<Runtime as pallet_xcm::Config>::ExecuteXcmOrigin>(o()).ok();
	let body = |id: u16, part| at(0, &[Plurality { id: BodyId::Index(id.into()), part }]);
	let both = match c {
		Org::Root => Some(at(0, &[])),
		Org::Voice(id) => Some(body(*id, BodyPart::Voice)),
		Org::Some(id, Portion::Member(_)) => Some(body(*id, BodyPart::Members { count: 1 })),
		Org::Some(id, Portion::Members(n)) => Some(body(*id, BodyPart::Members { count: *n })),
		Org::Some(id, Portion::Fraction(n)) => Some(body(*id, BodyPart::Fraction { nom: *n, denom: 1_000_000 })),
		_ => None,
	};
	let speaks = signed.as_ref().and_then(community_of).map(|id| body(id, BodyPart::Voice));
	req_eq!(sends, both.clone().or(speaks), "{c:?} sends messages as {sends:?}");
	let own = signed.map(|a| at(0, &[xcm::latest::prelude::AccountId32 { network: Some(xcm::latest::prelude::NetworkId::Kusama), id: a.into() }]));
	req_eq!(runs, both.or(own), "{c:?} executes messages as {runs:?}");
	cx.label(match c {
		Org::Root => "root",
		Org::Nobody => "nobody",
		Org::Signed(_) => "signed",
		Org::Voice(_) | Org::Some(..) => "a community",
		Org::CreateMemberships | Org::Canceller | Org::Killer => "governance",
		Org::Xcm(_) | Org::Relay | Org::Sibling(_) => "another chain",
	});
	cx.nontrivial(c);
	Ok(())
}
