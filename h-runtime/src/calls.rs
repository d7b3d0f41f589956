//! R03, R11 (contracts), R19: what the calls are and who may make them in another's name.
use crate::world::*;
use frame_support::traits::{Contains, InstanceFilter};
use kreivo_runtime::*;
use parity_scale_codec::{Decode, Encode};
use serde::{Deserialize, Serialize};
use std::sync::OnceLock;
use vkit::proptest::{collection::vec, prelude::*};
use vkit::{req, req_eq, Ctx, Tier, Verdict};

/// The call at these positions with arguments read off the given bytes.
#[derive(Clone, Debug, Serialize, Deserialize)]
pub struct CallCase {
	pallet: u8,
	call: u8,
	fill: Vec<u8>,
}
impl CallCase {
	pub fn decode(&self) -> Option<RuntimeCall> {
		let mut b = vec![self.pallet, self.call];
		b.extend(&self.fill);
		b.resize(b.len() + 600, 0);
		RuntimeCall::decode(&mut &b[..]).ok()
	}
}
/// All positions at which there is a call.
pub fn positions() -> &'static Vec<(u8, u8)> {
	static ALL: OnceLock<Vec<(u8, u8)>> = OnceLock::new();
	ALL.get_or_init(|| {
		let mut v = vec![];
		for pallet in 0..=255u8 {
			for call in 0..=255u8 {
				// A call that contains another needs one that can be read: System::remark is 0, 0.
				if (CallCase { pallet, call, fill: vec![] }).decode().is_some() {
					v.push((pallet, call));
				}
			}
		}
		v
	})
}
pub fn calls() -> BoxedStrategy<CallCase> {
	let at = (0usize..positions().len()).prop_map(|i| positions()[i]);
	let fill = prop_oneof![vec(any::<u8>(), 0..80), vec(prop_oneof![Just(0u8), Just(1), Just(4), any::<u8>()], 0..80)];
	(at, fill).prop_map(|((pallet, call), fill)| CallCase { pallet, call, fill }).boxed()
}
pub fn all_calls(worker: usize, workers: usize, _: Tier, _: u64, run: &mut dyn FnMut(CallCase) -> bool) {
	for (i, (pallet, call)) in positions().iter().enumerate() {
		if i % workers != worker {
			continue;
		}
		for fill in [vec![], vec![1; 40], vec![4; 40]] {
			if !run(CallCase { pallet: *pallet, call: *call, fill }) {
				return;
			}
		}
	}
}

pub const BALANCES: u8 = 10;
pub const ASSETS: u8 = 13;
const COLLATORS: u8 = 21;
const MULTISIG: u8 = 42;
const UTILITY: u8 = 43;
const PROXY: u8 = 44;

// ---- R03

/// The types by their positions: any, non-transfer, cancel, assets, asset owner, asset manager,
/// collator.
fn kinds() -> Vec<ProxyType> {
	(0u8..7).map(|i| ProxyType::decode(&mut &[i][..]).unwrap_or_else(|_| vkit::broken("a type of proxy is gone"))).collect()
}
const NAMES: [&str; 7] = ["any", "non-transfer", "cancel", "assets", "asset owner", "asset manager", "collator"];
/// Those that are said to include another, besides any.
const INCLUDED: [(usize, usize); 3] = [(3, 4), (3, 5), (1, 6)];

/// Whether the type permits the call; None where nothing is said about it.
fn permitted(kind: usize, (pallet, call): (u8, u8)) -> Option<bool> {
	let grouping = pallet == MULTISIG || pallet == UTILITY;
	Some(match kind {
		0 => true,
		1 => match pallet {
			BALANCES | ASSETS => false,
			COLLATORS | 22 | MULTISIG | UTILITY | 52 | 71 | 73 => true,
			_ => return None,
		},
		2 => grouping || (pallet == PROXY && call == 8),
		3 => grouping || pallet == ASSETS,
		4 => grouping || (pallet == ASSETS && matches!(call, 0 | 2..=5 | 15..=18)),
		5 => grouping || (pallet == ASSETS && matches!(call, 6 | 7 | 11..=14)),
		6 => grouping || pallet == COLLATORS,
		_ => unreachable!(),
	})
}
pub fn check_proxies(c: &CallCase, cx: &mut Ctx) -> Verdict {
	let Some(call) = c.decode() else {
		cx.label("no call");
		return Ok(());
	};
	let at = (c.pallet, c.call);
	let kinds = kinds();
	let allowed: Vec<bool> = kinds.iter().map(|k| k.filter(&call)).collect();
	for (i, a) in allowed.iter().enumerate() {
		if let Some(p) = permitted(i, at) {
			req_eq!(*a, p, "{:?} is {} a proxy for {}", call.__names(), if *a { "open to" } else { "closed to" }, NAMES[i]);
		}
	}
	for (i, a) in kinds.iter().enumerate() {
		for (j, b) in kinds.iter().enumerate() {
			let over = a.is_superset(b);
			if over {
				req!(!allowed[j] || allowed[i], "{} includes {} but does not permit {:?}", NAMES[i], NAMES[j], call.__names());
			}
			req!(over || i != j, "{} does not include itself", NAMES[i]);
			req!(over || i != 0, "{} is not included in any", NAMES[j]);
			req!(over || !INCLUDED.contains(&(i, j)), "{} does not include {}", NAMES[i], NAMES[j]);
			for (k, d) in kinds.iter().enumerate() {
				req!(!(over && b.is_superset(d)) || a.is_superset(d), "{} includes {}, it {}, but the first does not include the last", NAMES[i], NAMES[j], NAMES[k]);
			}
		}
	}
	cx.label_n("permitted", allowed.iter().filter(|a| **a).count() as u64);
	if allowed[1..].iter().any(|a| *a) && allowed.iter().any(|a| !*a) {
		cx.nontrivial(&(c.pallet, c.call, &c.fill));
	}
	Ok(())
}

// ---- R11, the part on contracts' calls

pub fn check_contract_calls(c: &CallCase, cx: &mut Ctx) -> Verdict {
	let Some(call) = c.decode() else {
		cx.label("no call");
		return Ok(());
	};
	let passes = <<Runtime as kreivo_deps::pallet_contracts::Config>::CallFilter as Contains<RuntimeCall>>::contains(&call);
	req_eq!(passes, (c.pallet, c.call) == (BALANCES, 0), "a contract's call of {:?} {}", call.__names(), if passes { "passes" } else { "does not pass" });
	cx.label(if passes { "passes" } else { "does not pass" });
	cx.nontrivial(&(c.pallet, c.call, &c.fill));
	Ok(())
}

// ---- R19

/// What was published: the modules with their positions, and their own calls.
const PUBLISHED: &[(u8, &str, &[(u8, &str)])] = &[
	(0, "System", &[(0, "remark")]),
	(1, "ParachainSystem", &[]),
	(2, "Timestamp", &[]),
	(3, "ParachainInfo", &[]),
	(6, "Pass", &[]),
	(10, "Balances", &[(0, "transfer_allow_death"), (3, "transfer_keep_alive")]),
	(13, "Assets", &[(8, "transfer")]),
	(15, "Vesting", &[]),
	(21, "CollatorSelection", &[]),
	(22, "Session", &[]),
	(30, "XcmpQueue", &[]),
	(31, "PolkadotXcm", &[]),
	(33, "MessageQueue", &[]),
	(42, "Multisig", &[]),
	(43, "Utility", &[]),
	(44, "Proxy", &[]),
	(45, "Scheduler", &[]),
	(46, "Preimage", &[]),
	(50, "Treasury", &[]),
	(51, "KreivoCollective", &[]),
	(52, "KreivoReferenda", &[]),
	(
		60,
		"Payments",
		&[
			(0, "pay"),
			(1, "release"),
			(2, "request_refund"),
			(3, "accept_and_pay"),
			(10, "cancel"),
			(11, "dispute_refund"),
			(12, "request_payment"),
			(20, "resolve_dispute"),
		],
	),
	(
		71,
		"Communities",
		&[
			(0, "create"),
			(1, "set_admin_origin"),
			(3, "add_member"),
			(4, "remove_member"),
			(5, "promote"),
			(6, "demote"),
			(7, "set_decision_method"),
			(8, "vote"),
			(9, "remove_vote"),
			(10, "unlock"),
			(11, "dispatch_as_account"),
		],
	),
	(72, "CommunityTracks", &[]),
	(73, "CommunityReferenda", &[]),
	(74, "CommunityMemberships", &[]),
	(75, "CommunitiesManager", &[(0, "register"), (1, "create_memberships")]),
	(80, "Contracts", &[]),
];

pub fn check_published(c: &CallCase, cx: &mut Ctx) -> Verdict {
	// Every published call must still be where it was.
	if let Some((p, name, calls)) = PUBLISHED.iter().find(|x| x.0 == c.pallet) {
		for (i, call) in calls.iter() {
			let read = CallCase { pallet: *p, call: *i, fill: c.fill.clone() }.decode().or_else(|| CallCase { pallet: *p, call: *i, fill: vec![] }.decode());
			let Some(read) = read else { return Err(format!("nothing is at {p}, {i}, where {name}::{call} was published")) };
			req_eq!(read.__names(), (*name, *call), "at {p}, {i} is {:?}, not {name}::{call}", read.__names());
		}
	}
	let Some(call) = c.decode() else {
		cx.label("no call");
		return Ok(());
	};
	req_eq!(call.__indexes(), (c.pallet, c.call), "read back as {:?}", call.__indexes());
	let bytes = call.encode();
	req_eq!(&bytes[..2], &[c.pallet, c.call], "written as {:?}", &bytes[..2]);
	req!(RuntimeCall::decode(&mut &bytes[..]).as_ref() == Ok(&call), "{:?} is read back differently", call.__names());
	if let Some((_, name, _)) = PUBLISHED.iter().find(|x| x.0 == c.pallet) {
		req_eq!(call.__names().0, *name, "position {} is of {}, not of {name}", c.pallet, call.__names().0);
	}
	// So must the kinds of proxies, which are kept in storage.
	for (i, k) in [
		ProxyType::Any,
		ProxyType::NonTransfer,
		ProxyType::CancelProxy,
		ProxyType::Assets,
		ProxyType::AssetOwner,
		ProxyType::AssetManager,
		ProxyType::Collator,
	]
	.iter()
	.enumerate()
	{
		req_eq!(k.encode(), vec![i as u8], "{k:?} is written as {:?}", k.encode());
	}
	for (what, org, prefix) in [
		("the root origin", Org::Root, vec![0u8, 0]),
		("the membership origin", Org::CreateMemberships, vec![4, 0]),
		("the canceller", Org::Canceller, vec![4, 1]),
		("the killer", Org::Killer, vec![4, 2]),
		("the voice of community 258", Org::Voice(258), vec![71, 2, 1]),
	] {
		let b = org.caller().encode();
		req!(b.starts_with(&prefix), "{what} is written as {b:?}");
	}
	cx.label("call");
	cx.nontrivial(&(c.pallet, c.call, &c.fill));
	Ok(())
}
