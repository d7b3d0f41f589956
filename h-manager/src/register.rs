//! G01: registering communities.
use crate::parts;
use crate::runtime::*;
use frame_support::traits::{EnsureOrigin, VoteTally};
use pallet_communities::origin::EnsureCommunity;
use pallet_communities::DecisionMethod;
use pallet_communities_manager as mgr;
use pallet_referenda::Curve;
use parity_scale_codec::{Decode, Encode};
use serde::{Deserialize, Serialize};
use sp_runtime::traits::Dispatchable;
use sp_runtime::{MultiAddress, Perbill};
use std::collections::BTreeMap;
use vkit::proptest::{collection::vec, prelude::*};
use vkit::{req, req_eq, Ctx, Verdict};
use vmock::{kv, ledger};

const IDS: [u32; 5] = [1, 2, 3, 65_537, SHELF];
const PEOPLE: u8 = 5;
const LEVELS: [Balance; 6] = [0, 50, 99, 100, 101, 1_000];

#[derive(Clone, Copy, Debug, Serialize, Deserialize)]
pub enum By {
	Root,
	Nobody,
	Council,
	Voice(u8),
	Person(u8),
}
#[derive(Clone, Copy, Debug, Serialize, Deserialize)]
pub enum Admin {
	Person(u8),
	AccountOf(u8),
	/// an address that leads nowhere
	Lost,
}
#[derive(Clone, Debug, Serialize, Deserialize)]
pub struct Rules {
	name: [u8; 4],
	n: u32,
	deposit: u64,
	period: u16,
	floor: u8,
}
#[derive(Clone, Copy, Debug, Serialize, Deserialize)]
pub enum Fault {
	/// the n-th part that is set up
	Part(u8),
	Payment,
}
#[derive(Clone, Debug, Serialize, Deserialize)]
pub enum Op {
	Register { by: By, id: u8, name: Vec<u8>, admin: Admin, method: Option<u8>, rules: Option<Rules>, fault: Option<Fault> },
	Collection(u8),
	Track(u8),
	Seat(u8),
	HandOver { from: u8, to: u8 },
}
#[derive(Clone, Debug, Serialize, Deserialize)]
pub struct Case {
	funds: Vec<u8>,
	ops: Vec<Op>,
}
fn name() -> BoxedStrategy<Vec<u8>> {
	prop_oneof![
		4 => "[a-zA-Z0-9 _-]{0,25}".prop_map(String::into_bytes),
		1 => "\\PC{0,25}".prop_map(|s| {
			let mut n = s.len().min(25);
			while !s.is_char_boundary(n) {
				n -= 1
			}
			s.as_bytes()[..n].to_vec()
		}),
		1 => "\\PC{1,25}".prop_map(|s| s.into_bytes().into_iter().take(25).collect()),
		1 => vec(any::<u8>(), 0..=25),
		1 => vec(b'a'..=b'z', 25),
		1 => Just(vec![]),
	]
	.boxed()
}
fn rules() -> BoxedStrategy<Rules> {
	(any::<[u8; 4]>(), any::<u32>(), any::<u64>(), any::<u16>(), 0u8..=100)
		.prop_map(|(name, n, deposit, period, floor)| Rules { name, n, deposit, period, floor })
		.boxed()
}
pub fn strategy() -> BoxedStrategy<Case> {
	let by = prop_oneof![
		4 => Just(By::Root),
		6 => (0..PEOPLE).prop_map(By::Person),
		1 => Just(By::Nobody),
		1 => Just(By::Council),
		1 => (0u8..4).prop_map(By::Voice),
	];
	let admin = prop_oneof![8 => (0..PEOPLE).prop_map(Admin::Person), 2 => (0u8..4).prop_map(Admin::AccountOf), 1 => Just(Admin::Lost)];
	let fault = prop_oneof![12 => Just(None), 3 => (0u8..4).prop_map(|n| Some(Fault::Part(n))), 1 => Just(Some(Fault::Payment))];
	let register = (by, 0u8..5, name(), admin, proptest_option(0u8..4), proptest_option(rules()), fault)
		.prop_map(|(by, id, name, admin, method, rules, fault)| Op::Register { by, id, name, admin, method, rules, fault });
	let op = prop_oneof![
		12 => register,
		1 => (0u8..5).prop_map(Op::Collection),
		1 => (0u8..5).prop_map(Op::Track),
		1 => (0u8..5).prop_map(Op::Seat),
		2 => (0u8..5, 0..PEOPLE).prop_map(|(from, to)| Op::HandOver { from, to }),
	];
	(vec(prop_oneof![1 => 0u8..6, 2 => 3u8..6], PEOPLE as usize), vec(op, 1..10)).prop_map(|(funds, ops)| Case { funds, ops }).boxed()
}
fn proptest_option<S: Strategy + 'static>(s: S) -> BoxedStrategy<Option<S::Value>>
where
	S::Value: Clone,
{
	prop_oneof![1 => Just(None), 1 => s.prop_map(Some)].boxed()
}

fn signed(a: AccountId) -> OriginCaller {
	OriginCaller::system(frame_system::RawOrigin::Signed(a))
}
fn voice(c: u32) -> OriginCaller {
	OriginCaller::Communities(pallet_communities::Origin::<Runtime>::new(Cid(c)))
}
fn cid(n: u8) -> u32 {
	IDS[n as usize % IDS.len()]
}
fn info(r: &Rules) -> parts::Info {
	let mut name = [0u8; 25];
	name[..4].copy_from_slice(&r.name);
	let line = |a: u8| Curve::LinearDecreasing {
		length: Perbill::from_percent(100),
		floor: Perbill::from_percent(a as u32),
		ceil: Perbill::from_percent(100),
	};
	parts::Info {
		name,
		max_deciding: r.n,
		decision_deposit: r.deposit as u128,
		prepare_period: r.period as u64,
		decision_period: r.period as u64 + 3,
		confirm_period: r.period as u64 + 5,
		min_enactment_period: r.period as u64 + 7,
		min_approval: line(r.floor),
		min_support: line(100 - r.floor),
	}
}
/// The rules a community gets when it asks for none, judged by what they demand.
fn is_default(i: &parts::Info, name: &[u8]) -> Verdict {
	let mut padded = [0u8; 25];
	padded[..name.len()].copy_from_slice(name);
	req_eq!(i.name, padded, "the track's name");
	let plain = (i.max_deciding, i.decision_deposit, i.prepare_period, i.decision_period, i.confirm_period, i.min_enactment_period);
	req_eq!(plain, (1, 0, 1, 255, 1, 1), "deciding at once, deposit, periods of preparation, decision, confirmation, enactment");
	for p in [0u32, 1, 25, 50, 75, 99, 100] {
		let x = Perbill::from_percent(p);
		let near = |c: &Curve, percent_times_two: u32| (c.threshold(x).deconstruct() as i64 - percent_times_two as i64 * 5_000_000).abs() < 10;
		req!(near(&i.min_approval, 200 - p), "{:?} approval is needed after {p}%", i.min_approval.threshold(x));
		req!(near(&i.min_support, 100 - p), "{:?} support is needed after {p}%", i.min_support.threshold(x));
	}
	Ok(())
}
fn method_of(n: u8) -> DecisionMethod<AssetId, Balance> {
	match n % 4 {
		0 => DecisionMethod::Membership,
		1 => DecisionMethod::Rank,
		2 => DecisionMethod::NativeToken,
		_ => DecisionMethod::CommunityAsset(1, 7),
	}
}
/// What a community decides by shows in the size of its electorate.
fn electorate(n: u8) -> u128 {
	match n % 4 {
		0 => 7,
		1 => 1_100,
		2 => ledger::asset_of(&NATIVE).map_or(0, |a| a.issuance),
		_ => 170_000,
	}
}
fn funds() -> BTreeMap<Vec<u8>, Balance> {
	ledger::all_accounts().into_iter().filter(|x| x.0 == NATIVE.encode() && x.2.free > 0).map(|(_, w, x)| (w, x.free)).collect()
}
fn as_map<K: Decode + Ord, V: Decode>(v: Vec<(K, V)>) -> BTreeMap<K, V> {
	v.into_iter().collect()
}

pub fn check(c: &Case, ctx: &mut Ctx) -> Verdict {
	sp_io::storage::reset();
	ledger::fail_at(None);
	parts::fail_at(None);
	frame_system::Pallet::<Runtime>::set_block_number(1);
	ledger::set_asset(&NATIVE, &ledger::Asset { issuance: 0, min: 1 });
	ledger::set_asset(&1u32, &ledger::Asset { issuance: 170_000, min: 1 });
	for p in 0..PEOPLE {
		let n = LEVELS[c.funds.get(p as usize).copied().unwrap_or(0) as usize % LEVELS.len()];
		if n > 0 {
			ledger::endow(&NATIVE, &person(p), n);
		}
	}
	ledger::endow(&NATIVE, &treasury(), 60_000);
	for i in IDS {
		kv::put(&kv::key("members_total", Cid(i)), &7u32);
		kv::put(&kv::key("ranks_total", Cid(i)), &1_100u32);
	}
	// the model
	let mut methods: BTreeMap<u32, u8> = BTreeMap::new();
	let mut admins: BTreeMap<u32, AccountId> = BTreeMap::new();
	let mut collections: BTreeMap<Cid, AccountId> = BTreeMap::new();
	let mut seats: Vec<(AccountId, u16)> = vec![];
	let mut tracks: BTreeMap<Cid, (parts::Info, OriginCaller)> = BTreeMap::new();
	let (mut done, mut undone) = (0u64, 0u64);
	for (step, op) in c.ops.iter().enumerate() {
		let Op::Register { by, id, name, admin, method, rules, fault } = op else {
			match op {
				Op::Collection(n) if !collections.contains_key(&Cid(cid(*n))) => {
					parts::put_collection(Cid(cid(*n)), &person(9));
					collections.insert(Cid(cid(*n)), person(9));
				}
				Op::Track(n) if !tracks.contains_key(&Cid(cid(*n))) => {
					let i = info(&Rules { name: *b"took", n: 1, deposit: 1, period: 1, floor: 1 });
					parts::put_track(Cid(cid(*n)), &i, &signed(person(9)));
					tracks.insert(Cid(cid(*n)), (i, signed(person(9))));
				}
				Op::Seat(n) if !seats.iter().any(|s| s.0 == account_of(cid(*n))) => {
					parts::put_seat(account_of(cid(*n)), 3);
					seats.push((account_of(cid(*n)), 3));
				}
				Op::HandOver { from, to } => {
					if let Some(a) = admins.get(&cid(*from)).cloned() {
						let call = pallet_communities::Call::<Runtime>::set_admin_origin { admin_origin: signed(person(*to % PEOPLE)) };
						if RuntimeCall::from(call).dispatch(signed(a).into()).is_ok() {
							admins.insert(cid(*from), person(*to % PEOPLE));
						}
					}
				}
				_ => {}
			}
			continue;
		};
		let id = cid(*id);
		let own = account_of(id);
		let origin = match by {
			By::Root => OriginCaller::system(frame_system::RawOrigin::Root),
			By::Nobody => OriginCaller::system(frame_system::RawOrigin::None),
			By::Council => CouncilOrigin(0).into(),
			By::Voice(n) => voice(cid(*n)),
			By::Person(p) => signed(person(*p % PEOPLE)),
		};
		let (who, address) = match admin {
			Admin::Person(p) => (Some(person(*p % PEOPLE)), MultiAddress::Id(person(*p % PEOPLE))),
			Admin::AccountOf(n) => (Some(account_of(cid(*n))), MultiAddress::Id(account_of(cid(*n)))),
			Admin::Lost => (None, MultiAddress::Index(())),
		};
		let what = format!("step {step}: registering {id} named {name:?} for {who:?} by {origin:?}");
		let payer = match by {
			By::Person(p) => Some(person(*p % PEOPLE)),
			_ => None,
		};
		let mut money = funds();
		let against = if !matches!(by, By::Root | By::Person(_)) {
			Some("the caller may not")
		} else if std::str::from_utf8(name).is_err() {
			Some("the name is no text")
		} else if who.is_none() {
			Some("the administrator cannot be found")
		} else if admins.contains_key(&id) {
			Some("it exists")
		} else if admins.values().any(|a| Some(a) == who.as_ref()) {
			Some("the administrator has a community")
		} else if payer.as_ref().map_or(false, |p| money.get(&p.encode()).map_or(true, |m| *m < DEPOSIT + 1)) {
			Some("the deposit cannot be paid")
		} else if collections.contains_key(&Cid(id)) {
			Some("the collection exists")
		} else if tracks.contains_key(&Cid(id)) {
			Some("the track exists")
		} else if seats.iter().any(|s| s.0 == own) {
			Some("the seat is taken")
		} else {
			None
		};
		match fault {
			Some(Fault::Part(n)) => parts::fail_at(Some(*n as u32)),
			Some(Fault::Payment) => ledger::fail_at(Some(0)),
			None => {}
		}
		frame_system::Pallet::<Runtime>::reset_events();
		let before = sp_io::storage::snapshot();
		let call = mgr::Call::<Runtime>::register {
			community_id: Cid(id),
			name: name.clone().try_into().expect("HARNESS-BUG: names have up to 25 bytes"),
			first_admin: address,
			maybe_decision_method: method.map(method_of),
			maybe_track_info: rules.as_ref().map(info),
		};
		let r = RuntimeCall::from(call).dispatch(origin.into()).map_err(|e| e.error);
		let hit = match fault {
			Some(Fault::Part(_)) => !parts::pending(),
			Some(Fault::Payment) => ledger::ticks() > 0,
			None => false,
		};
		parts::fail_at(None);
		ledger::fail_at(None);
		let announced = frame_system::Pallet::<Runtime>::events()
			.iter()
			.filter(|e| e.event == RuntimeEvent::Manager(mgr::Event::CommunityRegistered { id: Cid(id) }))
			.count();
		frame_system::Pallet::<Runtime>::reset_events();
		if let Err(e) = r {
			req!(against.is_some() || hit, "{what}: refused with {e:?} though nothing stands against it");
			let after = sp_io::storage::snapshot();
			req!(before == after, "{what}: refused with {e:?} but something changed");
			undone += 1;
			ctx.label(match (against, hit) {
				(_, true) => "refused because a part failed",
				(Some(w), _) => w,
				_ => "refused",
			});
		} else {
			req!(!hit, "{what}: done though a part of it failed");
			if let Some(why) = against {
				return Err(format!("{what}: done though {why}"));
			}
			done += 1;
			let who = who.expect("HARNESS-BUG: found");
			admins.insert(id, who);
			methods.insert(id, method.unwrap_or(0));
			collections.insert(Cid(id), own.clone());
			seats.push((own.clone(), 0));
			if let Some(p) = payer {
				*money.get_mut(&p.encode()).expect("HARNESS-BUG: paid") -= DEPOSIT;
				*money.entry(treasury().encode()).or_default() += DEPOSIT;
				ctx.label("registered with a deposit");
			} else {
				ctx.label("registered without a deposit");
			}
			let got = as_map(parts::tracks::<Cid, OriginCaller>());
			let (i, o) = got.get(&Cid(id)).ok_or_else(|| format!("{what}: there is no track"))?.clone();
			match rules {
				Some(r) => req_eq!(i, info(r), "{what}: the rules of the track"),
				None => is_default(&i, name).map_err(|e| format!("{what}: {e}"))?,
			}
			req!(o == voice(id), "{what}: the track is for {o:?}");
			tracks.insert(Cid(id), (i, o));
			req_eq!(announced, 1, "{what}: times announced");
		}
		req!(funds() == money, "{what}: the balances are {:?} rather than {money:?}", funds());
		req!(as_map(parts::collections::<Cid, AccountId>()) == collections, "{what}: the collections are {:?} rather than {collections:?}", parts::collections::<Cid, AccountId>());
		req!(as_map(parts::tracks::<Cid, OriginCaller>()) == tracks, "{what}: the tracks are {:?} rather than {tracks:?}", parts::tracks::<Cid, OriginCaller>());
		let mut s = parts::seats::<AccountId>();
		s.sort();
		seats.sort();
		req_eq!(s, seats, "{what}: the seats");
		for i in IDS {
			let exists = pallet_communities::Pallet::<Runtime>::community_exists(&Cid(i));
			req_eq!(exists, admins.contains_key(&i), "{what}: whether community {i} exists");
			if let Some(m) = methods.get(&i) {
				let part = pallet_communities::Tally::<Runtime>::decode(&mut &(0u32, 0u32, 5u32).encode()[..]).expect("HARNESS-BUG: tally").support(Cid(i));
				let e = electorate(*m);
				let low = 5_000_000_000u128.min(1_000_000_000 * e) / e;
				req!((part.deconstruct() as u128).abs_diff(low) <= 1, "{what}: five of {e} by {:?} are {part:?} of community {i}", method_of(*m));
			}
		}
		for o in (0..PEOPLE).map(person).chain(IDS.map(account_of)) {
			let speaks = EnsureCommunity::<Runtime>::try_origin(signed(o.clone()).into()).ok().map(|c| c.0);
			let should = admins.iter().find(|x| *x.1 == o).map(|x| *x.0);
			req_eq!(speaks, should, "{what}: the community {o:?} administers");
		}
	}
	if done > 0 && undone > 0 {
		ctx.nontrivial(&format!("{c:?}"));
	}
	Ok(())
}
