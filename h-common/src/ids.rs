use parity_scale_codec::{Compact, Decode, DecodeAll, Encode, MaxEncodedLen};
use serde::{Deserialize, Serialize};
use virto_common::PaymentId;
use vkit::proptest::{self, prelude::*};
use vkit::{caught, edgy_u64, req, req_eq, Check, Ctx, Part, SplitMix, Tier, Verdict};

const B58: &[u8; 58] = b"123456789ABCDEFGHJKLMNPQRSTUVWXYZabcdefghijkmnopqrstuvwxyz";

/// Plain base58 of a byte string, written independently of the code under test.
fn b58(bytes: &[u8]) -> String {
	let zeros = bytes.iter().take_while(|b| **b == 0).count();
	let mut n: u128 = 0;
	for b in bytes {
		n = (n << 8) | *b as u128;
	}
	let mut digits = vec![];
	while n > 0 {
		digits.push(B58[(n % 58) as usize]);
		n /= 58;
	}
	digits.extend(std::iter::repeat(b'1').take(zeros));
	digits.reverse();
	String::from_utf8(digits).unwrap()
}

/// Numbers whose bytes are drawn from values that matter to encoders.
fn byte() -> impl Strategy<Value = u8> {
	prop_oneof![3 => Just(0u8), 1 => Just(1u8), 1 => Just(0x7fu8), 1 => Just(0x80u8), 2 => Just(0xffu8), 1 => Just(58u8), 4 => any::<u8>()]
}
fn id_number() -> BoxedStrategy<u64> {
	prop_oneof![
		4 => proptest::array::uniform8(byte()).prop_map(u64::from_le_bytes),
		2 => any::<u64>(),
		1 => edgy_u64(),
		// around the lengths of the text: powers of 58 in the big-endian reading
		1 => (0u32..11, -2i64..=2).prop_map(|(e, d)| (58u64.wrapping_pow(e)).wrapping_add(d as u64).swap_bytes()),
	]
	.boxed()
}
/// Deterministic coverage of single fields, bytes and pairs of bytes.
fn number_sweep(worker: usize, workers: usize, tier: Tier, seed: u64, sink: &mut dyn FnMut(u64) -> bool) {
	let mut k = 0usize;
	let mut put = |v: u64| -> bool {
		k += 1;
		if k % workers == worker {
			sink(v)
		} else {
			true
		}
	};
	for bit in 0..64 {
		for v in [1u64 << bit, !(1u64 << bit), (1u64 << bit).wrapping_sub(1)] {
			if !put(v) {
				return;
			}
		}
	}
	let mut rng = SplitMix(seed ^ 0x51ed);
	for bg in [0u64, u64::MAX, 0x0102030405060708, rng.next()] {
		// every value of every byte, alone and in pairs
		for i in 0..8 {
			for j in i + 1..8 {
				let step = if tier == Tier::Quick { 3 } else { 1 };
				for x in 0..=255u64 {
					let mut y = (x * 7) % step;
					while y < 256 {
						let v = bg & !(0xffu64 << (8 * i)) & !(0xffu64 << (8 * j)) | x << (8 * i) | y << (8 * j);
						if !put(v) {
							return;
						}
						y += step;
					}
				}
			}
		}
		// every index and every prefix
		for x in 0..=0xffffu64 {
			for sh in [0, 16] {
				if !put(bg & !(0xffffu64 << sh) | x << sh) {
					return;
				}
			}
		}
	}
	let n = if tier == Tier::Quick { 6_000_000 } else { 400_000_000u64 };
	for _ in 0..n / 8 * 8 {
		let v = rng.next();
		if !put(v) {
			return;
		}
	}
}

// ------------------------------------------------------------------ A01
fn a01(n: &u64, ctx: &mut Ctx) -> Verdict {
	let id = PaymentId::from(*n);
	let plain = format!("{id}");
	let pretty = format!("{id:#}");
	if plain.len() < 11 || n.to_le_bytes()[0] == 0 {
		ctx.label("text shorter than eleven characters or leading zero byte");
	}
	ctx.nontrivial(n);
	req!(plain.is_ascii() && plain.len() >= 5, "text {plain:?} of {n:#x} cannot carry a separator after five characters");
	req!(!plain.contains('-'), "plain text {plain:?} of {n:#x} contains a separator");
	req_eq!(pretty, format!("{}-{}", &plain[..5], &plain[5..]), "separated text of {n:#x}");
	req_eq!(plain.parse::<PaymentId>().map(u64::from), Ok(*n), "parsing {plain:?}");
	req_eq!(pretty.parse::<PaymentId>().map(u64::from), Ok(*n), "parsing {pretty:?}");
	if n % 16 == 0 || ctx.tier == Tier::Thorough {
		req_eq!(id.encode(false), plain, "encode(false) of {n:#x}");
		req_eq!(id.encode(true), pretty, "encode(true) of {n:#x}");
		req_eq!(id.to_string(), plain, "to_string of {n:#x}");
		req_eq!(u64::from(PaymentId::new(&plain)), *n, "new({plain:?})");
		req_eq!(u64::from(PaymentId::new(&pretty)), *n, "new({pretty:?})");
		req_eq!(plain.parse::<PaymentId>(), Ok(id), "parsing {plain:?} gives an equal id");
	}
	Ok(())
}

fn a01_pair((a, b): &(u64, u64), ctx: &mut Ctx) -> Verdict {
	ctx.nontrivial(&("pair", a, b));
	let (x, y) = (PaymentId::from(*a), PaymentId::from(*b));
	req_eq!(x.to_string() == y.to_string(), a == b, "texts of {a:#x} and {b:#x} coincide");
	req_eq!(format!("{x:#}") == format!("{y:#}"), a == b, "separated texts of {a:#x} and {b:#x} coincide");
	Ok(())
}

// ------------------------------------------------------------------ A02
fn text() -> BoxedStrategy<String> {
	let valid = id_number().prop_map(|n| b58(&n.to_le_bytes()));
	let alpha = proptest::sample::select(B58.to_vec()).prop_map(|b| b as char);
	let any_char = prop_oneof![
		6 => alpha.clone(),
		2 => Just('-'),
		1 => proptest::sample::select(vec!['0', 'O', 'I', 'l', ' ', '_', '\n', '\0', '+', '/', '\u{2010}', '\u{2011}', '\u{2212}', 'é', '１', '\u{1F600}', '\u{7f}', '~']),
		1 => any::<char>(),
	];
	let mutated = (valid.clone(), proptest::collection::vec((0u8..7, any::<u16>(), any_char.clone()), 0..4)).prop_map(|(s, ops)| {
		let mut v: Vec<char> = s.chars().collect();
		for (op, at, c) in ops {
			let at = at as usize % (v.len() + 1);
			match op {
				0 => v.insert(at, c),
				1 => v.insert(at, '-'),
				2 if at < v.len() => {
					v.remove(at);
				}
				3 if at < v.len() => v[at] = c,
				4 => v.truncate(at),
				5 => {
					let t: Vec<char> = v[at..].to_vec();
					v.extend(t);
				}
				6 if at < v.len() => v[at] = if v[at].is_ascii_lowercase() { v[at].to_ascii_uppercase() } else { v[at].to_ascii_lowercase() },
				_ => {}
			}
		}
		v.into_iter().collect::<String>()
	});
	let dashed = (valid.clone(), 0usize..14).prop_map(|(s, at)| {
		let at = at.min(s.len());
		format!("{}-{}", &s[..at], &s[at..])
	});
	let short = proptest::collection::vec(alpha.clone(), 0..8).prop_map(|v| v.into_iter().collect::<String>());
	let long = (proptest::collection::vec(alpha.clone(), 8..40), proptest::option::of(any::<u16>())).prop_map(|(v, d)| {
		let mut s: String = v.into_iter().collect();
		if let Some(d) = d {
			s.insert(d as usize % (s.len() + 1), '-');
		}
		s
	});
	// just beyond the largest value, and with superfluous leading characters
	let beyond = (0u128..2000, proptest::bool::ANY).prop_map(|(d, sep)| {
		let mut n = u64::MAX as u128 + d;
		let mut digits = vec![];
		while n > 0 {
			digits.push(B58[(n % 58) as usize] as char);
			n /= 58;
		}
		digits.reverse();
		if sep {
			digits.insert(5, '-');
		}
		digits.into_iter().collect::<String>()
	});
	let padded = (valid.clone(), 1usize..12, proptest::bool::ANY).prop_map(|(s, k, sep)| {
		let mut p = "1".repeat(k) + &s;
		if sep {
			p.insert(5, '-');
		}
		p
	});
	let stripped = id_number().prop_map(|n| b58(&n.to_le_bytes()).trim_start_matches('1').to_string());
	let noise = proptest::collection::vec(any_char.clone(), 0..20).prop_map(|v| v.into_iter().collect::<String>());
	let very_long = (any::<u8>(), 0usize..3000, proptest::option::of(0usize..3000)).prop_map(|(c, n, d)| {
		let c = B58[c as usize % 58] as char;
		let mut s = c.to_string().repeat(n);
		if let Some(d) = d {
			s.insert(d.min(s.len()), '-');
		}
		s
	});
	// a valid text of fewer or more than eight bytes
	let other_len = proptest::collection::vec(byte(), 0..15).prop_map(|b| b58(&b));
	prop_oneof![
		4 => mutated, 2 => dashed, 2 => short, 2 => long, 2 => beyond, 2 => padded, 1 => stripped, 2 => noise,
		1 => very_long, 2 => other_len, 1 => valid,
	]
	.boxed()
}

fn names_itself(s: &str, plain: &str) -> bool {
	if s == plain {
		return true;
	}
	s.char_indices().filter(|(_, c)| *c == '-').any(|(i, _)| {
		let mut t = s.to_string();
		t.remove(i);
		t == plain
	})
}

fn a02(s: &String, ctx: &mut Ctx) -> Verdict {
	ctx.nontrivial(s);
	let parsed = s.parse::<PaymentId>();
	let lenient = PaymentId::new(s);
	match parsed {
		Ok(id) => {
			ctx.label("accepted");
			let plain = id.to_string();
			req!(names_itself(s, &plain), "{s:?} is taken for the payment written {plain:?}");
			req_eq!(lenient, id, "new({s:?})");
		}
		Err(()) => {
			ctx.label("declined");
			req_eq!(lenient, PaymentId::default(), "new({s:?})");
			// what is declined is not the written form of an identifier
			let mut t = s.clone();
			if let Some(i) = t.find('-') {
				if i == 5 {
					t.remove(5);
				}
			}
			if let Some(n) = value_of(&t) {
				return Err(format!("{s:?} is the written form of {n:#x} but is declined"));
			}
		}
	}
	Ok(())
}
/// The number whose written form is exactly `s`, if any.
fn value_of(s: &str) -> Option<u64> {
	if s.len() > 11 || !s.bytes().all(|b| B58.contains(&b)) {
		return None;
	}
	let mut n: u128 = 0;
	for b in s.bytes() {
		n = n * 58 + B58.iter().position(|x| *x == b).unwrap() as u128;
	}
	let n = u64::try_from(n).ok()?.swap_bytes();
	(b58(&n.to_le_bytes()) == s).then_some(n)
}

// ------------------------------------------------------------------ A03
fn a03(n: &u64, ctx: &mut Ctx) -> Verdict {
	ctx.nontrivial(n);
	let id: PaymentId = (*n).into();
	req_eq!(u64::from(id), *n, "number of the id made from {n:#x}");
	req_eq!(id.to_number(), *n, "to_number of the id made from {n:#x}");
	req_eq!(PaymentId::from_number(*n), id, "from_number({n:#x})");
	req_eq!(id.as_ref(), &n.to_le_bytes()[..], "bytes of the id made from {n:#x}");
	let (block, index, prefix) = ((*n >> 32) as u32, (*n >> 16) as u16, (*n as u16).to_le_bytes());
	req_eq!(id.block_number(), block, "block of {n:#x}");
	req_eq!(id.extrinsic_index(), index as u32, "index of {n:#x}");
	let again: PaymentId = (block, index as u32, &prefix[..]).into();
	req!(again == id, "the id made of the fields of {n:#x} differs from it");
	if n % 8 == 0 {
		req_eq!(id.to_bytes(), n.to_le_bytes().to_vec(), "to_bytes of {n:#x}");
		let copy = id;
		req!(copy == id && id.clone() == id, "a copy of {n:#x} differs from it");
		let other = PaymentId::from(n ^ (1 << (n.rotate_left(7) % 64)));
		req!(other != id, "{n:#x} equals an id with another number");
	}
	Ok(())
}
#[derive(Clone, Debug, Serialize, Deserialize)]
struct Fields {
	block: u32,
	index: u32,
	extra: Vec<u8>,
}
fn fields() -> BoxedStrategy<Fields> {
	let w = || prop_oneof![any::<u32>(), edgy_u64().prop_map(|x| x as u32), proptest::array::uniform4(byte()).prop_map(u32::from_le_bytes)];
	(w(), w(), proptest::collection::vec(byte(), 2..40)).prop_map(|(block, index, extra)| Fields { block, index, extra }).boxed()
}
fn a03_fields(f: &Fields, ctx: &mut Ctx) -> Verdict {
	ctx.nontrivial(&(f.block, f.index, &f.extra));
	let id: PaymentId = (f.block, f.index, &f.extra[..]).into();
	req_eq!(id.block_number(), f.block, "block of the id made from {f:?}");
	req_eq!(id.extrinsic_index(), f.index & 0xffff, "index of the id made from {f:?}");
	let n = (f.block as u64) << 32 | ((f.index & 0xffff) as u64) << 16 | (f.extra[1] as u64) << 8 | f.extra[0] as u64;
	req_eq!(u64::from(id), n, "number of the id made from {f:?}");
	req_eq!(id.as_ref(), &n.to_le_bytes()[..], "bytes of the id made from {f:?}");
	req!(id == PaymentId::from(n), "the id made from {f:?} differs from the one made from its number");
	if f.index > 0xffff {
		ctx.label("index above 16 bits");
	}
	Ok(())
}
fn a03_blocks(worker: usize, workers: usize, tier: Tier, seed: u64, sink: &mut dyn FnMut(Fields) -> bool) {
	// all blocks, in a stride for the quick tier
	let stride = if tier == Tier::Quick { 4099u64 } else { 17 };
	let mut b = worker as u64 * stride + seed % stride;
	while b < 1 << 32 {
		let i = (b.wrapping_mul(0x9e3779b97f4a7c15) >> 24) as u32;
		if !sink(Fields { block: b as u32, index: i, extra: vec![(i >> 8) as u8, (i >> 16) as u8 ^ 0x5a] }) {
			return;
		}
		b += stride * workers as u64;
	}
}

// ------------------------------------------------------------------ A04, payment ids
fn a04_id(n: &u64, ctx: &mut Ctx) -> Verdict {
	ctx.nontrivial(&("id", n));
	let id = PaymentId::from(*n);
	let want = n.to_le_bytes();
	req_eq!(Encode::encode(&id), want.to_vec(), "binary form of {n:#x}");
	req!(id.using_encoded(|b| b == want), "using_encoded of {n:#x}");
	req_eq!(id.encoded_size(), 8, "encoded size of {n:#x}");
	let mut out = vec![7u8];
	id.encode_to(&mut out);
	req_eq!(out[1..].to_vec(), want.to_vec(), "encode_to of {n:#x}");
	req_eq!(PaymentId::decode(&mut &want[..]).map(u64::from), Ok(*n), "decoding {n:#x}");
	req_eq!(PaymentId::decode_all(&mut &want[..]).map(u64::from), Ok(*n), "decode_all {n:#x}");
	if n % 8 == 0 {
		let nested = (3u8, vec![id, PaymentId::from(!n)], Some(id), [id; 2], 9u16);
		let plain = (3u8, vec![*n, !n], Some(*n), [*n; 2], 9u16);
		req_eq!(nested.encode(), plain.encode(), "binary form of {n:#x} nested");
		type T = (u8, Vec<PaymentId>, Option<PaymentId>, [PaymentId; 2], u16);
		let back = T::decode_all(&mut &plain.encode()[..]).map_err(|e| format!("decoding nested {n:#x}: {e}"))?;
		req_eq!(back, nested, "nested {n:#x} read back");
		// skipping one leaves the reader where it must be
		let two = (id, 0xabcdu16).encode();
		let mut r = &two[..];
		PaymentId::skip(&mut r).map_err(|e| e.to_string())?;
		req_eq!(r.to_vec(), 0xabcdu16.encode(), "skipping {n:#x}");
		req_eq!(PaymentId::encoded_fixed_size(), Some(8), "fixed size");
		req_eq!(PaymentId::max_encoded_len(), 8, "maximum length");
		for cut in 0..8 {
			req!(PaymentId::decode(&mut &want[..cut]).is_err(), "{cut} bytes decode to a payment id");
		}
		req_eq!(
			scale_info::MetaType::new::<PaymentId>().type_info(),
			scale_info::MetaType::new::<u64>().type_info(),
			"type description of a payment id"
		);
		let mut reg = scale_info::Registry::new();
		let a = reg.register_type(&scale_info::MetaType::new::<PaymentId>());
		let b = reg.register_type(&scale_info::MetaType::new::<u64>());
		req_eq!(a, b, "registered type of a payment id");
	}
	let _ = Compact(1u8);
	Ok(())
}
fn a04_bytes(b: &Vec<u8>, ctx: &mut Ctx) -> Verdict {
	ctx.nontrivial(&("idbytes", b));
	let mut r = &b[..];
	let got = caught(|| PaymentId::decode(&mut r)).map_err(|m| format!("decoding {b:?} crashed: {m}"))?;
	let mut r2 = &b[..];
	let want = u64::decode(&mut r2);
	match (got, want) {
		(Ok(id), Ok(n)) => {
			req_eq!(u64::from(id), n, "decoding {b:?}");
			req_eq!(r.len(), r2.len(), "bytes left after decoding {b:?}");
		}
		(Err(_), Err(_)) => {}
		(g, w) => return Err(format!("decoding {b:?}: got {:?}, the number decodes to {w:?}", g.map(u64::from))),
	}
	Ok(())
}

pub fn id_parts() -> Vec<Box<dyn vkit::AnyPart>> {
	vec![
		Box::new(Part { name: "id", quick: 400_000, thorough: 8_000_000, strategy: id_number, check: a04_id, sweep: Some(number_sweep_small) }),
		Box::new(Part {
			name: "id-bytes",
			quick: 200_000,
			thorough: 4_000_000,
			strategy: || proptest::collection::vec(byte(), 0..20).boxed(),
			check: a04_bytes,
			sweep: None,
		}),
	]
}
fn number_sweep_small(worker: usize, workers: usize, tier: Tier, seed: u64, sink: &mut dyn FnMut(u64) -> bool) {
	let mut k = 0u64;
	number_sweep(worker, workers, tier, seed, &mut |n| {
		k += 1;
		k % 4 != 0 || sink(n)
	})
}

pub fn checks() -> Vec<Check> {
	vec![
		Check {
			id: "A01",
			rule: "every case is one identifier (or a pair) put through writing and parsing; distinct by its number",
			assumptions: &["bs58 encodes and decodes as documented"],
			parts: vec![
				Box::new(Part { name: "round-trip", quick: 2_000_000, thorough: 40_000_000, strategy: id_number, check: a01, sweep: Some(number_sweep) }),
				Box::new(Part {
					name: "pairs",
					quick: 400_000,
					thorough: 8_000_000,
					strategy: || {
						prop_oneof![
							(id_number(), id_number()),
							(id_number(), 0u32..64).prop_map(|(a, b)| (a, a ^ (1 << b))),
							id_number().prop_map(|a| (a, a)),
						]
						.boxed()
					},
					check: a01_pair,
					sweep: None,
				}),
			],
		},
		Check {
			id: "A02",
			rule: "every case is one text; distinct by the text",
			assumptions: &[],
			parts: vec![Box::new(Part { name: "parse", quick: 6_000_000, thorough: 200_000_000, strategy: text, check: a02, sweep: Some(short_texts) })],
		},
		Check {
			id: "A03",
			rule: "every case is one number or one (block, index, extra) triple; distinct by its value",
			assumptions: &[],
			parts: vec![
				Box::new(Part { name: "number", quick: 4_000_000, thorough: 100_000_000, strategy: id_number, check: a03, sweep: Some(number_sweep) }),
				Box::new(Part { name: "fields", quick: 3_000_000, thorough: 60_000_000, strategy: fields, check: a03_fields, sweep: Some(a03_blocks) }),
			],
		},
	]
}

/// All texts of up to three characters over the alphabet with the separator and a few intruders,
/// and every single-character replacement in a few valid texts.
fn short_texts(worker: usize, workers: usize, _tier: Tier, seed: u64, sink: &mut dyn FnMut(String) -> bool) {
	let mut alphabet: Vec<char> = B58.iter().map(|b| *b as char).collect();
	alphabet.extend(['-', '0', 'l', 'é', ' ']);
	let mut k = 0;
	let mut put = |s: String| {
		k += 1;
		k % workers != worker || sink(s)
	};
	put(String::new());
	for a in &alphabet {
		if !put(a.to_string()) {
			return;
		}
		for b in &alphabet {
			if !put(format!("{a}{b}")) {
				return;
			}
			for c in &alphabet {
				if !put(format!("{a}{b}{c}")) {
					return;
				}
			}
		}
	}
	let mut rng = SplitMix(seed);
	for i in 0..200 {
		let n = match i {
			0 => 0,
			1 => u64::MAX,
			2 => 0x00ff,
			_ => rng.next(),
		};
		let base: Vec<char> = b58(&n.to_le_bytes()).chars().collect();
		for at in 0..=base.len() {
			for c in &alphabet {
				let mut ins = base.clone();
				ins.insert(at, *c);
				if !put(ins.into_iter().collect()) {
					return;
				}
				if at < base.len() {
					let mut rep = base.clone();
					rep[at] = *c;
					if !put(rep.into_iter().collect()) {
						return;
					}
				}
				for at2 in [0, 5, 6, base.len()] {
					let mut two = base.clone();
					two.insert(at2.min(two.len()), '-');
					two.insert(at, '-');
					if !put(two.into_iter().collect()) {
						return;
					}
				}
			}
		}
	}
}
