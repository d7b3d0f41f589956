//! S02: money on Paseo.
use frame_support::traits::Get;
use frame_support::weights::{constants::ExtrinsicBaseWeight, Weight};
use kreivo_runtime::{constants::currency, ExistentialDeposit, Runtime};
use serde::{Deserialize, Serialize};
use vkit::proptest::prelude::*;
use vkit::{req, req_eq, Ctx, Verdict};

/// The token has ten decimals there, and a cent is a hundredth of it.
const UNIT: u128 = 10_000_000_000;
const CENT: u128 = UNIT / 100;

#[derive(Clone, Debug, Serialize, Deserialize)]
pub struct PriceCase {
	time: u64,
	proof: u64,
	length: u32,
	items: u32,
	bytes: u32,
}
pub fn prices() -> BoxedStrategy<PriceCase> {
	let w = || prop_oneof![1 => Just(0u64), 3 => 0u64..3_000_000_000_000, 2 => 0u64..50_000_000, 2 => vkit::edgy_u64(), 2 => 0u64..20_000];
	let n = || prop_oneof![2 => 0u32..100, 1 => 0u32..100_000, 1 => any::<u32>()];
	(w(), w(), n(), n(), n()).prop_map(|(time, proof, length, items, bytes)| PriceCase { time, proof, length, items, bytes }).boxed()
}
pub fn check_prices(c: &PriceCase, cx: &mut Ctx) -> Verdict {
	let fee = |t, p| Runtime::api_query_weight_to_fee(Weight::from_parts(t, p));
	let base = ExtrinsicBaseWeight::get().ref_time() as u128;
	let near = |got: u128, n: u64, per: u128| got.abs_diff(n as u128 * CENT / per) <= n as u128 / 1_000_000_000 + 1;
	let (time, proof) = (fee(c.time, 0), fee(0, c.proof));
	req!(near(time, c.time, 100 * base), "time {} costs {time}", c.time);
	req!(near(proof, c.proof, 10_000), "proof {} costs {proof}", c.proof);
	req_eq!(fee(c.time, c.proof), time.max(proof), "the fee of time {} and proof {}", c.time, c.proof);
	req_eq!(Runtime::api_query_length_to_fee(c.length), c.length as u128 * CENT / 100, "the fee of the length {}", c.length);
	req_eq!(ExistentialDeposit::get(), CENT / 10, "what an account must hold");
	// A hundredth of the relay chain's: twenty units an item, a tenth of a cent a byte.
	let deposit = (c.items as u128 * 20 * UNIT + c.bytes as u128 * CENT / 10) / 100;
	req_eq!(currency::deposit(c.items, c.bytes), deposit, "the deposit for {} items and {} bytes", c.items, c.bytes);
	cx.label(if time > proof { "time decides" } else { "proof decides" });
	if time > 0 && proof > 0 {
		cx.nontrivial(&(c.time, c.proof, c.length, c.items, c.bytes));
	}
	Ok(())
}
