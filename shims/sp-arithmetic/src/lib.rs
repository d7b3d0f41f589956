//! Stand-in for sp-arithmetic: number traits and per-things.
pub mod per_things;
pub mod traits;
pub mod fixed;
pub use per_things::{
	InnerOf, PerThing, PerU16, Perbill, Percent, Permill, Perquintill, Rounding, SignedRounding, UpperOf,
};
pub use fixed::{FixedI64, FixedPointNumber, FixedU128, FixedI128, FixedU64};

use parity_scale_codec::{Decode, Encode, MaxEncodedLen};
use scale_info::TypeInfo;

#[derive(Eq, PartialEq, Clone, Copy, Encode, Decode, Debug, TypeInfo, MaxEncodedLen, serde::Serialize, serde::Deserialize)]
pub enum ArithmeticError {
	Underflow,
	Overflow,
	DivisionByZero,
}
impl From<ArithmeticError> for &'static str {
	fn from(e: ArithmeticError) -> &'static str {
		match e {
			ArithmeticError::Underflow => "An underflow would occur",
			ArithmeticError::Overflow => "An overflow would occur",
			ArithmeticError::DivisionByZero => "Division by zero",
		}
	}
}

/// floor(a * b / c) with a 256-bit intermediate; None when c is zero or the result does not fit.
pub fn mul_div(a: u128, b: u128, c: u128) -> Option<u128> {
	mul_div_rem(a, b, c).map(|x| x.0)
}
pub fn mul_div_rem(a: u128, b: u128, c: u128) -> Option<(u128, u128)> {
	if c == 0 {
		return None;
	}
	if let Some(p) = a.checked_mul(b) {
		return Some((p / c, p % c));
	}
	let m = u64::MAX as u128;
	let (a1, a0) = (a >> 64, a & m);
	let (b1, b0) = (b >> 64, b & m);
	let ll = a0 * b0;
	let lh = a0 * b1;
	let hl = a1 * b0;
	let hh = a1 * b1;
	let (mid, c1) = lh.overflowing_add(hl);
	let (lo, c2) = ll.overflowing_add(mid << 64);
	let mut hi = hh + (mid >> 64) + ((c1 as u128) << 64) + c2 as u128;
	if hi >= c {
		return None;
	}
	let mut q = 0u128;
	for i in (0..128).rev() {
		let top = hi >> 127;
		hi = (hi << 1) | ((lo >> i) & 1);
		q <<= 1;
		if top == 1 || hi >= c {
			hi = hi.wrapping_sub(c);
			q |= 1;
		}
	}
	Some((q, hi))
}
pub mod helpers_128bit {
	pub fn multiply_by_rational_with_rounding(a: u128, b: u128, c: u128, r: crate::Rounding) -> Option<u128> {
		let (q, rem) = crate::mul_div_rem(a, b, c)?;
		match r {
			crate::Rounding::Down => Some(q),
			crate::Rounding::Up => q.checked_add((rem > 0) as u128),
			crate::Rounding::NearestPrefUp => q.checked_add((rem >= c - rem) as u128),
			crate::Rounding::NearestPrefDown => q.checked_add((rem > c - rem) as u128),
		}
	}
}
pub use helpers_128bit::multiply_by_rational_with_rounding;
pub use traits::SaturatedConversion;
