//! R28: where and how payments, communities and votes are stored.
use crate::life::*;
use crate::money::*;
use crate::world::*;
use frame_support::traits::PalletInfoAccess;
use kreivo_runtime::*;
use parity_scale_codec::Encode;
use std::collections::BTreeMap;
use vkit::{req, req_eq, Ctx, Verdict};

type Entries = BTreeMap<Vec<u8>, Vec<u8>>;

/// Parts of a key: `b` hashed with Blake2 and kept, `t` hashed with Twox and kept.
fn key(parts: &[(u8, Vec<u8>)]) -> Vec<u8> {
	let mut k = vec![];
	for (hash, bytes) in parts {
		k.push(*hash);
		k.extend((bytes.len() as u32).to_be_bytes());
		k.extend(bytes);
	}
	k
}
/// What is stored under a name in a module.
fn item(module: &str, name: &str) -> Entries {
	let end = format!(":{name}/");
	sp_io::storage::scan(module.as_bytes())
		.into_iter()
		.filter_map(|(k, v)| {
			let at = k.windows(end.len()).position(|w| w == end.as_bytes())?;
			// Before it there is nothing but the module.
			let path = std::str::from_utf8(&k[..at]).ok()?;
			path.chars().all(|c| c.is_ascii_alphanumeric() || c == '_' || c == ':').then(|| (k[at + end.len()..].to_vec(), v))
		})
		.collect()
}
fn same(what: &str, got: Entries, want: &Entries) -> Verdict {
	for (k, v) in want {
		match got.get(k) {
			None => return Err(format!("{what}: nothing is stored where {v:02x?} should be, at {k:02x?}; stored are {got:02x?}")),
			Some(x) => req!(x == v, "{what}: at {k:02x?} is {x:02x?} rather than {v:02x?}"),
		}
	}
	for (k, v) in &got {
		req!(want.contains_key(k), "{what}: at {k:02x?} is {v:02x?} for nothing");
	}
	Ok(())
}
/// The bytes of the assets the payments are made in.
fn asset_bytes(n: u8) -> Vec<u8> {
	match n {
		0 => vec![0, 0, 0, 0, 0],
		_ => vec![2, 0, 0],
	}
}

pub fn check_payments(c: &DealCase, cx: &mut Ctx) -> Verdict {
	req_eq!((Payments::name(), Payments::index()), ("Payments", 60), "the module of payments");
	// Whether the payments go as they should is another question.
	let Ok((payments, book, _)) = play_deals(c, cx) else {
		cx.label("the payments went wrong");
		return Ok(());
	};
	let (mut details, mut parties) = (Entries::new(), Entries::new());
	for p in payments.iter().filter(|p| !p.undone) {
		let (from, to) = (who(p.from).encode(), who(p.to).encode());
		let mut v = asset_bytes(p.asset);
		v.extend(p.amount.to_le_bytes());
		v.extend(&to);
		v.extend(share(10, p.amount).to_le_bytes());
		match p.phase {
			Phase::Open => v.push(0),
			Phase::Disputed => v.push(1),
			Phase::Refunding { due } => {
				v.push(2);
				v.extend(due.to_le_bytes());
			}
			Phase::Requested => v.push(3),
			Phase::Over => v.push(4),
		}
		for sender in [true, false] {
			let fee = book.fee(p, sender);
			match fee {
				0 => v.push(0),
				_ => {
					v.push(4);
					v.extend(treasury().encode());
					v.extend(fee.to_le_bytes());
					v.push(1);
				}
			}
		}
		details.insert(key(&[(b'b', from.clone()), (b't', p.id.clone())]), v);
		parties.insert(key(&[(b't', p.id.clone())]), [from, to].concat());
		cx.label(match p.phase {
			Phase::Open => "made",
			Phase::Disputed => "disputed",
			Phase::Refunding { .. } => "a refund is due",
			Phase::Requested => "requested",
			Phase::Over => "over",
		});
	}
	same("the payments", item("pallet_payments", "Payment"), &details)?;
	same("the parties", item("pallet_payments", "PaymentParties"), &parties)?;
	// Refunds that are due stand in the schedule under the payment's name, which is how they are called off.
	for p in &payments {
		if let Phase::Refunding { due } = p.phase {
			let name = sp_core::hashing::blake2_256(&[&[7 << 2][..], b"payment", &p.id].concat());
			let tasks = vmock::scheduler::tasks();
			req!(tasks.iter().any(|t| t.name == Some(name) && t.when == due as u64), "no refund is scheduled for block {due} under {name:02x?}, but {tasks:?}");
		}
	}
	for (n, asset) in (0..6).flat_map(|n| [(n, 0), (n, 1)]) {
		for (reason, amount) in vmock::ledger::account_of(&asset_n(asset), &who(n)).holds {
			req!(amount == 0 || reason == [60, 0], "{amount} are held for {reason:?}");
		}
	}
	if details.len() > 1 {
		cx.nontrivial(&(c.mins, &c.deals));
	}
	Ok(())
}

pub fn check_communities(c: &VoteCase, cx: &mut Ctx) -> Verdict {
	req_eq!((Communities::name(), Communities::index()), ("Communities", 71), "the module of communities");
	let Ok((polls, locks, _)) = play_votes(c, cx) else {
		cx.label("the votes went wrong");
		return Ok(());
	};
	let (mut info, mut admins, mut methods, mut votes, mut locked) = (Entries::new(), Entries::new(), Entries::new(), Entries::new(), Entries::new());
	let blocked = c.ranks.first().map_or(false, |r| r % 2 == 1);
	if blocked {
		Communities::force_state(&1, pallet_communities::types::CommunityState::Blocked);
	}
	for (i, m) in c.methods.iter().enumerate() {
		let id = (1 + i as u16).to_le_bytes().to_vec();
		let at = key(&[(b'b', id.clone())]);
		info.insert(at.clone(), vec![(blocked && i == 0) as u8]);
		let mut admin = vec![0, 1];
		admin.extend(Acc::User(90 + i as u8).account().encode());
		admins.insert(key(&[(b'b', admin)]), id);
		// by members unless something else is said
		let method = match m {
			0 | 1 => vec![0],
			3 => [vec![2], asset_bytes(0), 5u128.to_le_bytes().to_vec()].concat(),
			m => vec![m - 1],
		};
		if method != [0] || item("pallet_communities", "CommunityDecisionMethod").contains_key(&at) {
			methods.insert(at, method);
		}
	}
	for (n, p) in polls.iter().enumerate() {
		let n = (n as u32).to_le_bytes().to_vec();
		for (who, (aye, _, weight)) in &p.votes {
			let mut v = match c.methods[p.community] {
				2 => [vec![1, *aye as u8], (*weight as u128).to_le_bytes().to_vec()].concat(),
				3 => [vec![0, *aye as u8], asset_bytes(0), (*weight as u128).to_le_bytes().to_vec()].concat(),
				_ => vec![2, *aye as u8],
			};
			v.extend(voter(*who).encode());
			votes.insert(key(&[(b'b', n.clone()), (b'b', (*who as u32).to_le_bytes().to_vec())]), v);
		}
	}
	for ((who, poll), (native, amount)) in &locks {
		let aye = *polls.get(*poll as usize).and_then(|p| p.votes.get(who)).map(|v| &v.0).ok_or("HARNESS-BUG: a lock without a vote")? as u8;
		let v = match native {
			true => [vec![1, aye], amount.to_le_bytes().to_vec()].concat(),
			false => [vec![0, aye], asset_bytes(0), amount.to_le_bytes().to_vec()].concat(),
		};
		locked.insert(key(&[(b'b', voter(*who).encode()), (b'b', poll.to_le_bytes().to_vec())]), v);
	}
	for (name, want) in [("Info", &info), ("CommunityIdFor", &admins), ("CommunityDecisionMethod", &methods), ("CommunityVotes", &votes), ("CommunityVoteLocks", &locked)] {
		same(name, item("pallet_communities", name), want)?;
	}
	for n in 0..6 {
		let frozen = [vmock::ledger::account_of(kreivo_deps::money::NATIVE, &voter(n)), vmock::ledger::account_of(&asset_n(0), &voter(n))];
		for (reason, amount) in frozen.into_iter().flat_map(|a| a.freezes) {
			req!(amount == 0 || reason == [71, 0], "{amount} are frozen for {reason:?}");
		}
	}
	// The tallies, which the referenda store.
	for (i, p) in polls.iter().enumerate().filter(|x| x.1.ongoing) {
		let s = CommunityReferenda::status(i as u32).ok_or_else(|| format!("there is no referendum {i}"))?;
		let sum = |f: fn(&(bool, u64, u64)) -> u64| (p.votes.values().map(f).sum::<u64>() as u32).to_le_bytes().to_vec();
		let want = [sum(|v| if v.0 { v.1 } else { 0 }), sum(|v| if v.0 { 0 } else { v.1 }), sum(|v| if v.0 { v.2 } else { 0 })].concat();
		req!(s.tally.encode() == want, "the tally of {i}: {:02x?} rather than {want:02x?}", s.tally.encode());
	}
	if votes.len() > 1 {
		cx.nontrivial(&(c.methods, &c.ranks, &c.acts));
	}
	Ok(())
}
