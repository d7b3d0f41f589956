//! Fixed-point numbers: only what the code in use needs.
use crate::traits::UniqueSaturatedInto;
use crate::{Perbill, PerThing};
use parity_scale_codec::{CompactAs, Decode, Encode, MaxEncodedLen};
use scale_info::TypeInfo;

pub trait FixedPointNumber: Sized + Copy {
	type Inner;
	const DIV: Self::Inner;
	fn from_inner(i: Self::Inner) -> Self;
	fn into_inner(self) -> Self::Inner;
}

macro_rules! fixed {
	($name:ident, $t:ty, $div:expr) => {
		#[derive(
			Clone, Copy, Default, PartialEq, Eq, PartialOrd, Ord, Encode, Decode, MaxEncodedLen, TypeInfo, CompactAs, Debug,
			serde::Serialize, serde::Deserialize,
		)]
		pub struct $name($t);
		impl FixedPointNumber for $name {
			type Inner = $t;
			const DIV: $t = $div;
			fn from_inner(i: $t) -> Self {
				Self(i)
			}
			fn into_inner(self) -> $t {
				self.0
			}
		}
		impl $name {
			pub const DIV: $t = $div;
			pub const fn from_inner(i: $t) -> Self {
				Self(i)
			}
			pub const fn into_inner(self) -> $t {
				self.0
			}
			pub const fn from_u32(n: u32) -> Self {
				Self((n as $t) * $div)
			}
			pub const fn zero() -> Self {
				Self(0)
			}
			pub const fn one() -> Self {
				Self($div)
			}
			pub const fn from_rational(a: u128, b: u128) -> Self {
				Self((a * ($div as u128) / b) as $t)
			}
			pub const fn saturating_add(self, o: Self) -> Self {
				Self(self.0.saturating_add(o.0))
			}
			pub const fn saturating_sub(self, o: Self) -> Self {
				Self(self.0.saturating_sub(o.0))
			}
			pub fn saturating_from_rational<N: UniqueSaturatedInto<u128>, D: UniqueSaturatedInto<u128>>(n: N, d: D) -> Self {
				let (n, d) = (n.unique_saturated_into(), d.unique_saturated_into());
				Self(crate::mul_div(n, $div as u128, d).and_then(|x| x.try_into().ok()).unwrap_or(<$t>::MAX))
			}
			pub fn saturating_from_integer<N: UniqueSaturatedInto<u128>>(n: N) -> Self {
				Self::saturating_from_rational(n, 1u128)
			}
			pub const fn into_perbill(self) -> Perbill {
				if self.0 <= 0 { return Perbill::zero(); }
				if self.0 as u128 >= $div as u128 { return Perbill::one(); }
				Perbill::from_parts((self.0 as u128 * 1_000_000_000 / $div as u128) as u32)
			}
			pub fn into_clamped_perthing<P: PerThing>(self) -> P
			where
				P::Inner: TryFrom<u128>,
			{
				if self.0 <= 0 as $t {
					return P::zero();
				}
				let acc: u128 = P::ACCURACY.into();
				let v = crate::mul_div(self.0 as u128, acc, $div as u128).unwrap_or(u128::MAX).min(acc);
				P::from_parts(v.try_into().ok().unwrap())
			}
		}
		impl From<Perbill> for $name {
			fn from(p: Perbill) -> Self {
				Self(((p.deconstruct() as u128) * ($div as u128) / 1_000_000_000) as $t)
			}
		}
	};
}
fixed!(FixedI64, i64, 1_000_000_000);
fixed!(FixedU64, u64, 1_000_000_000);
fixed!(FixedI128, i128, 1_000_000_000_000_000_000);
fixed!(FixedU128, u128, 1_000_000_000_000_000_000);
