//! Single operations over their whole range of inputs.
use crate::exec::{is_fraction, tally, Com, CROWD};
use crate::runtime::*;
use frame_support::traits::{EnsureOrigin, VoteTally};
use pallet_communities::origin::{AsSignedByCommunity, AsSignedByStaticCommunity, RawOrigin, Subset};
use pallet_communities::DecisionMethod;
use serde::{Deserialize, Serialize};
use sp_runtime::traits::{Dispatchable, TryConvert};
use sp_runtime::Permill;
use vkit::proptest::{prelude::*};
use vkit::{req, req_eq, Ctx, Verdict};
use vmock::{kv, ledger};
use xcm::latest::{BodyId, BodyPart, Junction, Location};

pub fn edgy() -> BoxedStrategy<u32> {
	prop_oneof![
		3 => 0u32..12,
		2 => (0u32..4, 0u32..32).prop_map(|(d, s)| (1u32 << s).wrapping_sub(2).wrapping_add(d)),
		2 => (0u32..4).prop_map(|d| u32::MAX - d),
		2 => 0u32..100_000,
		2 => any::<u32>(),
	]
	.boxed()
}

// === approval and support ===

#[derive(Clone, Debug, Serialize, Deserialize)]
pub struct Fraction {
	ayes: u32,
	nays: u32,
	bare: u32,
	more_ayes: u32,
	more_nays: u32,
	method: u8,
	members: u32,
	ranks: u32,
	native: u64,
	asset: u64,
}
pub fn fraction() -> BoxedStrategy<Fraction> {
	let big = prop_oneof![4 => edgy().prop_map(|x| x as u64), 1 => any::<u64>(), 1 => (0u64..4).prop_map(|d| u32::MAX as u64 + d)];
	(edgy(), edgy(), edgy(), edgy(), edgy(), 0u8..4, edgy(), edgy(), big.clone(), big)
		.prop_map(|(ayes, nays, bare, more_ayes, more_nays, method, members, ranks, native, asset)| Fraction {
			ayes,
			nays,
			bare,
			more_ayes,
			more_nays,
			method,
			members,
			ranks,
			native,
			asset,
		})
		.boxed()
}
pub fn check_fraction(f: &Fraction, ctx: &mut Ctx) -> Verdict {
	sp_io::storage::reset();
	let c = Cid(5);
	let voice = || RuntimeOrigin::from(pallet_communities::Origin::<Runtime>::new(c));
	kv::put(&kv::key("members_total", c), &f.members);
	kv::put(&kv::key("ranks_total", c), &f.ranks);
	// Another community's numbers must not matter.
	kv::put(&kv::key("members_total", Cid(6)), &f.members.wrapping_mul(3).wrapping_add(1));
	kv::put(&kv::key("ranks_total", Cid(6)), &f.ranks.wrapping_mul(5).wrapping_add(2));
	ledger::set_asset(&NATIVE, &ledger::Asset { issuance: f.native as u128, min: 1 });
	ledger::set_asset(&1u32, &ledger::Asset { issuance: f.asset as u128, min: 1 });
	ledger::set_asset(&2u32, &ledger::Asset { issuance: f.asset as u128 / 3 + 9, min: 1 });
	Com::register(&OriginCaller::from(CouncilOrigin(1)), &c, None).map_err(|e| format!("setting up: {e:?}"))?;
	let (method, electorate) = match f.method % 4 {
		0 => (DecisionMethod::Membership, f.members as u128),
		1 => (DecisionMethod::Rank, f.ranks as u128),
		2 => (DecisionMethod::NativeToken, f.native as u128),
		_ => (DecisionMethod::CommunityAsset(1, 3), f.asset as u128),
	};
	RuntimeCall::from(pallet_communities::Call::set_decision_method { community_id: c, decision_method: method.clone() })
		.dispatch(voice())
		.map_err(|e| format!("setting up: {:?}", e.error))?;
	let t = tally(f.ayes, f.nays, f.bare);
	req_eq!(t.ayes(c), f.ayes, "ayes reported");
	let approval = t.approval(c).deconstruct();
	let all = f.ayes as u128 + f.nays as u128;
	if all == 0 {
		req_eq!(approval, 0, "approval of nothing");
	} else {
		req!(is_fraction(approval, f.ayes as u128, all), "approval of {} ayes, {} nays is {approval} in 10^9", f.ayes, f.nays);
	}
	let up = tally(f.ayes.saturating_add(f.more_ayes), f.nays, f.bare).approval(c).deconstruct();
	req!(all == 0 || up >= approval, "approval fell from {approval} to {up} with {} more ayes", f.more_ayes);
	let down = tally(f.ayes, f.nays.saturating_add(f.more_nays), f.bare).approval(c).deconstruct();
	req!(down <= approval, "approval rose from {approval} to {down} with {} more nays", f.more_nays);
	let support = t.support(c).deconstruct();
	req!(support <= 1_000_000_000, "support is {support} in 10^9");
	if electorate > 0 && !is_fraction(support, f.bare as u128, electorate) {
		let limit = u32::MAX as u128;
		let known = electorate > limit && is_fraction(support, f.bare as u128, limit) && ctx.is_known(CROWD);
		req!(known, "{} bare ayes of {electorate} by {method:?} are a support of {support} in 10^9", f.bare);
	}
	if f.ayes > 0 && f.nays > 0 || f.bare > 0 && electorate > 0 {
		ctx.nontrivial(&format!("{f:?}"));
	}
	ctx.label(match f.method % 4 {
		0 => "by members",
		1 => "by rank points",
		2 => "by the native token",
		_ => "by an asset",
	});
	ctx.label_n("votes counted above the largest number", (all > u32::MAX as u128) as u64);
	ctx.label_n("no electorate", (electorate == 0) as u64);
	Ok(())
}

// === accounts ===

#[derive(Clone, Debug, Serialize, Deserialize)]
pub struct Pair {
	a: u32,
	b: u32,
}
pub fn pair() -> BoxedStrategy<Pair> {
	prop_oneof![
		(edgy(), edgy()).prop_map(|(a, b)| Pair { a, b }),
		(edgy(), 0u32..32).prop_map(|(a, bit)| Pair { a, b: a ^ (1 << bit) }),
		(any::<u16>(), any::<u16>()).prop_map(|(lo, hi)| Pair { a: lo as u32, b: (hi as u32) << 16 | lo as u32 }),
	]
	.boxed()
}
pub struct Five;
impl frame_support::traits::Get<Cid> for Five {
	fn get() -> Cid {
		Cid(5)
	}
}
pub fn check_pair(p: &Pair, ctx: &mut Ctx) -> Verdict {
	let (a, b) = (Com::community_account(&Cid(p.a)), Com::community_account(&Cid(p.b)));
	req_eq!(a, account_of(p.a), "the account of community {}", p.a);
	req_eq!(b, account_of(p.b), "the account of community {}", p.b);
	req!(p.a == p.b || a != b, "communities {} and {} share an account", p.a, p.b);
	let voice = |c: u32| RuntimeOrigin::from(RawOrigin::<Runtime>::new(Cid(c)));
	req_eq!(AsSignedByCommunity::<Runtime>::try_origin(voice(p.a)).ok(), Some(a.clone()), "the account community {} acts as", p.a);
	let five = AsSignedByStaticCommunity::<Runtime, Five>::try_origin(voice(p.a)).ok();
	req_eq!(five, (p.a == 5).then(|| account_of(5)), "the account community {} acts as where only community 5 may", p.a);
	for o in [
		RuntimeOrigin::root(),
		RuntimeOrigin::none(),
		RuntimeOrigin::signed(a.clone()),
		RuntimeOrigin::signed(account_of(5)),
		RuntimeOrigin::from(CouncilOrigin(p.a as u8)),
	] {
		req!(AsSignedByCommunity::<Runtime>::try_origin(o.clone()).is_err(), "{o:?} is taken for a community");
		req!(AsSignedByStaticCommunity::<Runtime, Five>::try_origin(o.clone()).is_err(), "{o:?} is taken for community 5");
	}
	if p.a != p.b {
		ctx.nontrivial(&(p.a, p.b));
	}
	ctx.label_n("identifiers differing in one bit", ((p.a ^ p.b).count_ones() == 1) as u64);
	Ok(())
}

// === voices across chains ===

#[derive(Clone, Debug, Serialize, Deserialize)]
pub enum Voice {
	Whole(u32),
	Member(u32, u32),
	Members(u32, u32),
	Fraction(u32, u32),
	Rank(u32, u8),
	/// a fraction as found in a location
	Odd { id: u32, nom: u32, denom: u32 },
	/// a location that is no community's: which body, which part
	Body { id: u32, body: u8, part: u8, x: u32, y: u32 },
	Other { which: u8, x: u64, y: u8 },
	Origin { which: u8, x: u8 },
}
pub fn voice() -> BoxedStrategy<Voice> {
	prop_oneof![
		2 => edgy().prop_map(Voice::Whole),
		2 => (edgy(), edgy()).prop_map(|(a, b)| Voice::Member(a, b)),
		2 => (edgy(), edgy()).prop_map(|(a, b)| Voice::Members(a, b)),
		2 => (edgy(), prop_oneof![0u32..=1_000_000, 999_998u32..=1_000_000, 0u32..3]).prop_map(|(a, b)| Voice::Fraction(a, b)),
		1 => (edgy(), any::<u8>()).prop_map(|(a, b)| Voice::Rank(a, b)),
		2 => (edgy(), 0u32..30, 1u32..30).prop_map(|(id, nom, denom)| Voice::Odd { id, nom: nom.min(denom), denom }),
		1 => (edgy(), edgy(), edgy()).prop_map(|(id, nom, denom)| Voice::Odd { id, nom, denom }),
		3 => (edgy(), 0u8..12, 0u8..5, edgy(), edgy()).prop_map(|(id, body, part, x, y)| Voice::Body { id, body, part, x, y }),
		2 => (0u8..8, any::<u64>(), any::<u8>()).prop_map(|(which, x, y)| Voice::Other { which, x, y }),
		1 => (0u8..5, any::<u8>()).prop_map(|(which, x)| Voice::Origin { which, x }),
	]
	.boxed()
}
type Raw = RawOrigin<Runtime>;
fn raw(id: u32, s: Option<Subset<Runtime>>) -> Raw {
	let mut r = Raw::new(Cid(id));
	if let Some(s) = s {
		r.with_subset(s);
	}
	r
}
fn there_and_back(from: Raw, part: BodyPart, back: Raw) -> Verdict {
	let id = from.id().0;
	let want = Junction::Plurality { id: BodyId::Index(id), part };
	let got = Junction::try_from(from.clone());
	req_eq!(got, Ok(want), "the location of {from:?}");
	let got = got.unwrap();
	let whole = <Raw as TryConvert<RuntimeOrigin, Location>>::try_convert(from.clone().into()).ok();
	req_eq!(whole, Some(Location::from(got)), "the location of {from:?} as an origin");
	req_eq!(Raw::try_from(got), Ok(back), "the voice at {got:?}");
	Ok(())
}
fn exact(nom: u32, denom: u32) -> Option<u32> {
	if denom == 0 || nom > denom {
		return None;
	}
	let n = nom as u64 * 1_000_000;
	(n % denom as u64 == 0).then(|| (n / denom as u64) as u32)
}
pub fn check_voice(v: &Voice, ctx: &mut Ctx) -> Verdict {
	ctx.nontrivial(&format!("{v:?}"));
	match v {
		Voice::Whole(id) => {
			ctx.label("whole communities");
			there_and_back(raw(*id, None), BodyPart::Voice, raw(*id, None))
		}
		Voice::Member(id, m) => {
			ctx.label("one member");
			there_and_back(raw(*id, Some(Subset::Member(*m))), BodyPart::Members { count: 1 }, raw(*id, Some(Subset::Members { count: 1 })))
		}
		Voice::Members(id, n) => {
			ctx.label("a number of members");
			let s = Some(Subset::Members { count: *n });
			there_and_back(raw(*id, s.clone()), BodyPart::Members { count: *n }, raw(*id, s))
		}
		Voice::Fraction(id, n) => {
			ctx.label("fractions");
			let from = raw(*id, Some(Subset::Fraction(Permill::from_parts(*n))));
			// Any way of writing the same fraction will do.
			let j = Junction::try_from(from.clone());
			let Ok(j @ Junction::Plurality { id: BodyId::Index(i), part: BodyPart::Fraction { nom, denom } }) = j else {
				return Err(format!("the location of {from:?} is {j:?}"));
			};
			req_eq!(i, *id, "the community in the location of {from:?}");
			req_eq!(exact(nom, denom), Some(*n), "the fraction in the location of {from:?}, which is {nom}/{denom}");
			req_eq!(Raw::try_from(j), Ok(from.clone()), "the voice at {j:?}");
			let whole = <Raw as TryConvert<RuntimeOrigin, Location>>::try_convert(from.clone().into()).ok();
			req_eq!(whole, Some(Location::from(j)), "the location of {from:?} as an origin");
			Ok(())
		}
		Voice::Rank(id, r) => {
			ctx.label("ranks");
			let from = raw(*id, Some(Subset::AtLeastRank((*r).into())));
			req!(Junction::try_from(from.clone()).is_err(), "{from:?} has a location");
			let back = <Raw as TryConvert<RuntimeOrigin, Location>>::try_convert(from.clone().into());
			req_eq!(back.err().map(|o| o.caller), Some(from.into()), "the origin given back");
			Ok(())
		}
		Voice::Odd { id, nom, denom } => {
			let j = Junction::Plurality { id: BodyId::Index(*id), part: BodyPart::Fraction { nom: *nom, denom: *denom } };
			let got = Raw::try_from(j);
			if let Some(n) = exact(*nom, *denom) {
				ctx.label("other fractions of whole millionths");
				req_eq!(got, Ok(raw(*id, Some(Subset::Fraction(Permill::from_parts(n))))), "the voice at {j:?}");
			} else {
				ctx.label("fractions without a claim");
				req!(got.map_or(true, |g| g.id() == Cid(*id)), "{j:?} speaks for another community");
			}
			Ok(())
		}
		Voice::Body { id, body, part, x, y } => {
			let b = match body {
				0..=3 => BodyId::Index(*id),
				4 => BodyId::Unit,
				5 => BodyId::Moniker(x.to_le_bytes()),
				6 => BodyId::Executive,
				7 => BodyId::Technical,
				8 => BodyId::Legislative,
				9 => BodyId::Judicial,
				10 => BodyId::Administration,
				_ => BodyId::Treasury,
			};
			let p = match part {
				0 => BodyPart::Voice,
				1 => BodyPart::Members { count: *x },
				2 => BodyPart::Fraction { nom: *x, denom: *y },
				3 => BodyPart::AtLeastProportion { nom: *x, denom: *y },
				_ => BodyPart::MoreThanProportion { nom: *x, denom: *y },
			};
			let j = Junction::Plurality { id: b, part: p };
			let got = Raw::try_from(j);
			if *body > 3 || *part > 2 {
				ctx.label("bodies that are no community's voice");
				req!(got.is_err(), "{j:?} is taken for {got:?}");
			} else if *part == 0 {
				req_eq!(got, Ok(raw(*id, None)), "the voice at {j:?}");
			} else if *part == 1 {
				req_eq!(got, Ok(raw(*id, Some(Subset::Members { count: *x }))), "the voice at {j:?}");
			}
			Ok(())
		}
		Voice::Other { which, x, y } => {
			ctx.label("locations that are no bodies");
			let j = match which {
				0 => Junction::Parachain(*x as u32),
				1 => Junction::AccountId32 { network: None, id: [*y; 32] },
				2 => Junction::AccountIndex64 { network: None, index: *x },
				3 => Junction::AccountKey20 { network: None, key: [*y; 20] },
				4 => Junction::PalletInstance(*y),
				5 => Junction::GeneralIndex(*x as u128),
				6 => Junction::GeneralKey { length: 4, data: [*y; 32] },
				_ => Junction::OnlyChild,
			};
			let got = Raw::try_from(j);
			req!(got.is_err(), "{j:?} is taken for {got:?}");
			Ok(())
		}
		Voice::Origin { which, x } => {
			ctx.label("origins that are no community's voice");
			let o = match which {
				0 => RuntimeOrigin::root(),
				1 => RuntimeOrigin::none(),
				2 => RuntimeOrigin::signed(person(*x)),
				3 => RuntimeOrigin::signed(account_of(*x as u32)),
				_ => RuntimeOrigin::from(CouncilOrigin(*x)),
			};
			let got = <Raw as TryConvert<RuntimeOrigin, Location>>::try_convert(o.clone());
			req_eq!(got.map_err(|o| o.caller), Err(o.caller.clone()), "the location of {o:?}");
			Ok(())
		}
	}
}
