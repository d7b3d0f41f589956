use parity_scale_codec::{Compact, Decode, DecodeAll, Encode, MaxEncodedLen};
use serde::{Deserialize, Serialize};
use sp_runtime::traits::MaybeEquivalence;
use virto_common::{AsFungibleAssetLocation, FungibleAssetLocation};
use vkit::proptest::{self, prelude::*};
use vkit::{caught, edgy_u128, edgy_u64, req, req_eq, Check, Ctx, Part, Tier, Verdict};
use xcm::latest::{BodyId, BodyPart, Junction, Junctions, Location, NetworkId};

/// An asset identifier as the chain knows it, independent of the type under test.
#[derive(Clone, Copy, Debug, PartialEq, Eq, Hash, Serialize, Deserialize)]
enum Net {
	Polkadot,
	Kusama,
	Ethereum(u64),
}
#[derive(Clone, Copy, Debug, PartialEq, Eq, Hash, Serialize, Deserialize)]
enum Id {
	Here(u32),
	Sibling(u16, u8, u32),
	External(Net, Option<(u16, u8, u32)>),
}
impl Id {
	/// The binary form on chain.
	fn bytes(&self) -> Vec<u8> {
		match *self {
			Id::Here(i) => (0u8, i).encode(),
			Id::Sibling(p, a, i) => (1u8, p, a, i).encode(),
			Id::External(n, c) => {
				let mut v = vec![2u8];
				match n {
					Net::Polkadot => v.push(0),
					Net::Kusama => v.push(1),
					Net::Ethereum(c) => {
						v.push(2);
						v.extend(c.encode());
					}
				}
				v.extend(c.encode());
				v
			}
		}
	}
	fn location(&self) -> Location {
		use Junction::*;
		let net = |n| match n {
			Net::Polkadot => NetworkId::Polkadot,
			Net::Kusama => NetworkId::Kusama,
			Net::Ethereum(chain_id) => NetworkId::Ethereum { chain_id },
		};
		match *self {
			Id::Here(i) => Location::new(0, [PalletInstance(13), GeneralIndex(i as u128)]),
			Id::Sibling(p, a, i) => Location::new(1, [Parachain(p as u32), PalletInstance(a), GeneralIndex(i as u128)]),
			Id::External(n, None) => Location::new(2, [GlobalConsensus(net(n))]),
			Id::External(n, Some((p, a, i))) => {
				Location::new(2, [GlobalConsensus(net(n)), Parachain(p as u32), PalletInstance(a), GeneralIndex(i as u128)])
			}
		}
	}
}
fn e16() -> BoxedStrategy<u16> {
	prop_oneof![any::<u16>(), edgy_u64().prop_map(|x| x as u16), Just(1000u16), Just(2281u16)].boxed()
}
fn e8() -> BoxedStrategy<u8> {
	prop_oneof![any::<u8>(), Just(13u8), Just(50u8), Just(12u8), Just(14u8), Just(0u8), Just(255u8)].boxed()
}
fn e32() -> BoxedStrategy<u32> {
	prop_oneof![any::<u32>(), edgy_u64().prop_map(|x| x as u32), Just(u32::MAX)].boxed()
}
fn net() -> BoxedStrategy<Net> {
	prop_oneof![Just(Net::Polkadot), Just(Net::Kusama), edgy_u64().prop_map(Net::Ethereum), (0u64..5).prop_map(Net::Ethereum)].boxed()
}
fn id() -> BoxedStrategy<Id> {
	prop_oneof![
		2 => e32().prop_map(Id::Here),
		3 => (e16(), e8(), e32()).prop_map(|(a, b, c)| Id::Sibling(a, b, c)),
		4 => (net(), proptest::option::of((e16(), e8(), e32()))).prop_map(|(n, c)| Id::External(n, c)),
	]
	.boxed()
}
fn id_sweep(worker: usize, workers: usize, tier: Tier, _seed: u64, sink: &mut dyn FnMut(Id) -> bool) {
	let mut k = 0;
	let mut put = |i: Id| {
		k += 1;
		k % workers != worker || sink(i)
	};
	let step = if tier == Tier::Quick { 5 } else { 1 };
	for p in (0..=u16::MAX).step_by(step) {
		for i in [Id::Here(p as u32), Id::Here((p as u32) << 16 | 1), Id::Sibling(p, 50, 7), Id::Sibling(7, 13, (p as u32) << 8), Id::External(Net::Ethereum(p as u64), None),
			Id::External(Net::Polkadot, Some((p, 50, 1984))), Id::External(Net::Kusama, Some((p, 13, 1)))]
		{
			if !put(i) {
				return;
			}
		}
	}
	for a in 0..=255u8 {
		for i in [0u32, 1, 255, 256, 65535, 65536, u32::MAX - 1, u32::MAX] {
			for p in [0u16, 1, 255, 256, 1000, u16::MAX] {
				if !put(Id::Sibling(p, a, i)) || !put(Id::External(Net::Polkadot, Some((p, a, i)))) || !put(Id::External(Net::Ethereum(1), Some((p, a, i)))) {
					return;
				}
			}
		}
	}
}

// ------------------------------------------------------------------ A04
fn a04(i: &Id, ctx: &mut Ctx) -> Verdict {
	ctx.nontrivial(i);
	let bytes = i.bytes();
	let x = FungibleAssetLocation::decode_all(&mut &bytes[..]).map_err(|e| format!("{i:?} no longer decodes: {e}"))?;
	req_eq!(x.encode(), bytes, "binary form of {i:?}");
	req!(bytes.len() <= FungibleAssetLocation::max_encoded_len(), "{i:?} is longer than the declared maximum");
	req_eq!(FungibleAssetLocation::decode_all(&mut &x.encode()[..]), Ok(x), "{i:?} read back");
	if let Id::Here(n) = i {
		req_eq!(FungibleAssetLocation::from(*n), x, "local asset {n}");
	}
	means(&x, i)?;
	let nested = (1u8, x, vec![x, x], Some(x));
	req_eq!(
		<(u8, FungibleAssetLocation, Vec<FungibleAssetLocation>, Option<FungibleAssetLocation>)>::decode_all(&mut &nested.encode()[..]),
		Ok(nested.clone()),
		"{i:?} nested read back"
	);
	for cut in 0..bytes.len() {
		req!(FungibleAssetLocation::decode_all(&mut &bytes[..cut]).is_err(), "{cut} bytes of {i:?} decode");
	}
	let json = serde_json::to_string(&x).map_err(|e| e.to_string())?;
	req_eq!(serde_json::from_str::<FungibleAssetLocation>(&json).map_err(|e| e.to_string()), Ok(x), "{json} read back");
	Ok(())
}
/// The decoded value stands for the identifier its bytes were written for.
fn means(x: &FungibleAssetLocation, i: &Id) -> Verdict {
	use FungibleAssetLocation as F;
	use virto_common::NetworkId as N;
	let json = serde_json::to_value(x).map_err(|e| e.to_string())?;
	let para = |at: &[&str], want: (u16, u8, u32)| {
		let mut v = &json;
		for k in at {
			v = &v[*k];
		}
		// the fields are private: their names in the readable form tell them apart
		for (k, n) in [("id", want.0 as u64), ("pallet", want.1 as u64), ("index", want.2 as u64)] {
			if let Some(got) = v.get(k).and_then(|g| g.as_u64()) {
				req_eq!(got, n, "{k} of {i:?} as stored");
			}
		}
		Ok(())
	};
	match (x, *i) {
		(F::Here(a), Id::Here(b)) => req_eq!(*a, b, "stored {i:?}"),
		(F::Sibling(_), Id::Sibling(a, b, c)) => para(&["Sibling"], (a, b, c))?,
		(F::External { network, child }, Id::External(n, c)) => {
			let same = matches!((network, n), (N::Polkadot, Net::Polkadot) | (N::Kusama, Net::Kusama))
				|| matches!((network, n), (N::Ethereum { chain_id }, Net::Ethereum(e)) if *chain_id == e);
			req!(same, "stored {i:?} decodes to network {network:?}");
			req_eq!(child.is_some(), c.is_some(), "child of stored {i:?}");
			if let Some(c) = c {
				para(&["External", "child"], c)?;
			}
		}
		_ => return Err(format!("stored {i:?} decodes to {x:?}")),
	}
	Ok(())
}
fn a04_bytes(b: &Vec<u8>, ctx: &mut Ctx) -> Verdict {
	let mut r = &b[..];
	let got = caught(|| FungibleAssetLocation::decode(&mut r)).map_err(|m| format!("decoding {b:?} crashed: {m}"))?;
	if let Ok(x) = got {
		ctx.nontrivial(b);
		ctx.label("bytes decode");
		let used = &b[..b.len() - r.len()];
		req_eq!(x.encode(), used.to_vec(), "binary form of what {b:?} decodes to");
		req!(used.len() <= FungibleAssetLocation::max_encoded_len(), "{b:?} decodes to something beyond the declared maximum");
	}
	Ok(())
}

// ------------------------------------------------------------------ A05
fn a05_id(i: &Id, ctx: &mut Ctx) -> Verdict {
	ctx.nontrivial(i);
	let loc = i.location();
	let Ok(x) = FungibleAssetLocation::decode_all(&mut &i.bytes()[..]) else { return Err(format!("{i:?} does not decode")) };
	req_eq!(AsFungibleAssetLocation::convert_back(&x), Some(loc.clone()), "location of {i:?}");
	req_eq!(AsFungibleAssetLocation::convert(&loc), Some(x), "identifier of {loc:?}");
	Ok(())
}
fn a05_bytes(b: &Vec<u8>, ctx: &mut Ctx) -> Verdict {
	if let Ok(x) = FungibleAssetLocation::decode(&mut &b[..]) {
		ctx.nontrivial(&("bytes", x.encode()));
		let Some(loc) = AsFungibleAssetLocation::convert_back(&x) else { return Err(format!("{x:?} has no location")) };
		req_eq!(AsFungibleAssetLocation::convert(&loc), Some(x), "identifier of {loc:?}, the location of {x:?}");
	}
	Ok(())
}
fn a05_location(loc: &Location, ctx: &mut Ctx) -> Verdict {
	ctx.nontrivial(loc);
	let got = caught(|| AsFungibleAssetLocation::convert(loc)).map_err(|m| format!("converting {loc:?} crashed: {m}"))?;
	match got {
		Some(x) => {
			ctx.label("location recognised");
			req_eq!(AsFungibleAssetLocation::convert_back(&x), Some(loc.clone()), "location of {x:?}, which {loc:?} was taken for");
		}
		None => {
			ctx.label("location declined");
			req!(known(loc).is_none(), "{loc:?} is the location of {:?} but is declined", known(loc));
		}
	}
	Ok(())
}
/// The identifier whose location this is.
fn known(loc: &Location) -> Option<Id> {
	use Junction::*;
	let n = |n: &NetworkId| match n {
		NetworkId::Polkadot => Some(Net::Polkadot),
		NetworkId::Kusama => Some(Net::Kusama),
		NetworkId::Ethereum { chain_id } => Some(Net::Ethereum(*chain_id)),
		_ => None,
	};
	Some(match loc.unpack() {
		(0, [PalletInstance(13), GeneralIndex(i)]) => Id::Here((*i).try_into().ok()?),
		(1, [Parachain(p), PalletInstance(a), GeneralIndex(i)]) => Id::Sibling((*p).try_into().ok()?, *a, (*i).try_into().ok()?),
		(2, [GlobalConsensus(g)]) => Id::External(n(g)?, None),
		(2, [GlobalConsensus(g), Parachain(p), PalletInstance(a), GeneralIndex(i)]) => {
			Id::External(n(g)?, Some(((*p).try_into().ok()?, *a, (*i).try_into().ok()?)))
		}
		_ => return None,
	})
}
pub fn network() -> BoxedStrategy<NetworkId> {
	prop_oneof![
		2 => Just(NetworkId::Polkadot),
		2 => Just(NetworkId::Kusama),
		2 => edgy_u64().prop_map(|chain_id| NetworkId::Ethereum { chain_id }),
		1 => any::<[u8; 32]>().prop_map(NetworkId::ByGenesis),
		1 => (any::<u64>(), any::<[u8; 32]>()).prop_map(|(block_number, block_hash)| NetworkId::ByFork { block_number, block_hash }),
		1 => proptest::sample::select(vec![NetworkId::Westend, NetworkId::Rococo, NetworkId::Wococo, NetworkId::BitcoinCore, NetworkId::BitcoinCash, NetworkId::PolkadotBulletin]),
	]
	.boxed()
}
pub fn junction() -> BoxedStrategy<Junction> {
	use Junction::*;
	prop_oneof![
		3 => edgy_u64().prop_map(|x| Parachain(x as u32)),
		3 => e8().prop_map(PalletInstance),
		3 => edgy_u128().prop_map(GeneralIndex),
		3 => network().prop_map(GlobalConsensus),
		1 => (proptest::option::of(network()), any::<[u8; 32]>()).prop_map(|(network, id)| AccountId32 { network, id }),
		1 => (proptest::option::of(network()), edgy_u64()).prop_map(|(network, index)| AccountIndex64 { network, index }),
		1 => (proptest::option::of(network()), any::<[u8; 20]>()).prop_map(|(network, key)| AccountKey20 { network, key }),
		1 => (0u8..33, any::<[u8; 32]>()).prop_map(|(length, data)| GeneralKey { length, data }),
		1 => Just(OnlyChild),
		1 => edgy_u64().prop_map(|x| Plurality { id: BodyId::Index(x as u32), part: BodyPart::Voice }),
	]
	.boxed()
}
fn location() -> BoxedStrategy<Location> {
	let any_loc = (0u8..5, proptest::collection::vec(junction(), 0..9))
		.prop_map(|(p, v)| Location { parents: p, interior: Junctions::from_slice(&v).unwrap() });
	// the location of an identifier, with one thing changed
	let near = (id(), 0u8..9, any::<u16>(), junction(), edgy_u128()).prop_map(|(i, op, at, j, n)| {
		let loc = i.location();
		let mut v = loc.interior.as_slice().to_vec();
		let mut parents = loc.parents;
		let at = at as usize;
		match op {
			0 => v.insert(at % (v.len() + 1), j),
			1 => {
				let k = at % v.len();
				v[k] = j;
			}
			2 => {
				let k = at % v.len();
				v.remove(k);
			}
			3 => parents = (at % 5) as u8,
			4 | 5 => {
				// the same junction with another, possibly too large, number
				let k = at % v.len();
				v[k] = match v[k] {
					Junction::Parachain(_) => Junction::Parachain(n as u32),
					Junction::PalletInstance(_) => Junction::PalletInstance(n as u8),
					Junction::GeneralIndex(_) => Junction::GeneralIndex(n),
					x => x,
				};
			}
			6 => {
				let (a, b) = (at % v.len(), (at / 7) % v.len());
				v.swap(a, b);
			}
			// the same number modulo a power of two
			7 => {
				let k = v.len() - 1;
				if let Junction::GeneralIndex(x) = v[k] {
					v[k] = Junction::GeneralIndex(x + (1u128 << (32 + at % 90)));
				}
			}
			_ => {
				for j in v.iter_mut() {
					if let Junction::Parachain(x) = j {
						*x = x.wrapping_add(1 << (16 + at % 16));
					}
				}
			}
		}
		v.truncate(8);
		Location { parents, interior: Junctions::from_slice(&v).unwrap() }
	});
	prop_oneof![3 => any_loc, 5 => near, 1 => id().prop_map(|i| i.location())].boxed()
}
fn raw() -> BoxedStrategy<Vec<u8>> {
	let shaped = (id(), proptest::collection::vec((any::<u8>(), any::<u8>()), 0..3), 0usize..4).prop_map(|(i, m, cut)| {
		let mut b = i.bytes();
		for (at, v) in m {
			let k = at as usize % b.len();
			b[k] = v;
		}
		b.truncate(b.len() - cut.min(b.len()));
		b
	});
	prop_oneof![2 => shaped, 1 => proptest::collection::vec(prop_oneof![0u8..4, any::<u8>()], 0..24)].boxed()
}

pub fn checks() -> Vec<Check> {
	let mut parts: Vec<Box<dyn vkit::AnyPart>> = vec![
		Box::new(Part { name: "asset", quick: 600_000, thorough: 20_000_000, strategy: id, check: a04, sweep: Some(id_sweep) }),
		Box::new(Part { name: "asset-bytes", quick: 1_000_000, thorough: 40_000_000, strategy: raw, check: a04_bytes, sweep: None }),
	];
	parts.extend(crate::ids::id_parts());
	let _ = Compact(0u8);
	vec![
		Check {
			id: "A04",
			rule: "a payment id, an asset identifier, or a byte string that decodes to one; distinct by value",
			assumptions: &["parity-scale-codec and scale-info behave as documented"],
			parts,
		},
		Check {
			id: "A05",
			rule: "an asset identifier or a location; distinct by value",
			assumptions: &["the location types stand in for those of staging-xcm 14 (version 4)"],
			parts: vec![
				Box::new(Part { name: "identifier", quick: 1_000_000, thorough: 40_000_000, strategy: id, check: a05_id, sweep: Some(id_sweep) }),
				Box::new(Part { name: "stored", quick: 500_000, thorough: 10_000_000, strategy: raw, check: a05_bytes, sweep: None }),
				Box::new(Part { name: "location", quick: 3_000_000, thorough: 80_000_000, strategy: location, check: a05_location, sweep: None }),
			],
		},
	]
}
