use crate::mul_div_rem;
use crate::traits::{Bounded, One, Saturating, UniqueSaturatedFrom, UniqueSaturatedInto, Zero};
use parity_scale_codec::{CompactAs, Decode, Encode, MaxEncodedLen};
use scale_info::TypeInfo;

#[derive(Copy, Clone, PartialEq, Eq, Debug)]
pub enum Rounding {
	Up,
	Down,
	NearestPrefUp,
	NearestPrefDown,
}
#[derive(Copy, Clone, PartialEq, Eq, Debug)]
pub enum SignedRounding {
	High,
	Low,
	NearestPrefHigh,
	NearestPrefLow,
	Major,
	Minor,
	NearestPrefMajor,
	NearestPrefMinor,
}

pub type InnerOf<P> = <P as PerThing>::Inner;
pub type UpperOf<P> = <P as PerThing>::Upper;

pub trait PerThing:
	Sized + Saturating + Copy + Default + Eq + PartialEq + Ord + PartialOrd + Bounded + std::fmt::Debug + Send + Sync
{
	type Inner: Copy + Into<u128>;
	type Upper;
	const ACCURACY: Self::Inner;
	fn deconstruct(self) -> Self::Inner;
	fn from_parts(parts: Self::Inner) -> Self;
	fn zero() -> Self;
	fn is_zero(&self) -> bool;
	fn one() -> Self;
	fn is_one(&self) -> bool;
	fn from_percent(x: Self::Inner) -> Self;
	fn from_rational<N: UniqueSaturatedInto<u128> + Clone>(p: N, q: N) -> Self;
	fn mul_floor<N: UniqueSaturatedInto<u128> + UniqueSaturatedFrom<u128>>(self, b: N) -> N;
	fn mul_ceil<N: UniqueSaturatedInto<u128> + UniqueSaturatedFrom<u128>>(self, b: N) -> N;
	fn left_from_one(self) -> Self;
}

macro_rules! per_thing {
	($name:ident, $max:expr, $t:ty, $up:ty) => {
		#[derive(
			Clone, Copy, Default, PartialEq, Eq, PartialOrd, Ord, Hash, Encode, Decode, MaxEncodedLen, TypeInfo, CompactAs,
			serde::Serialize, serde::Deserialize,
		)]
		pub struct $name($t);
		impl std::fmt::Debug for $name {
			fn fmt(&self, f: &mut std::fmt::Formatter<'_>) -> std::fmt::Result {
				write!(f, "{}({}/{})", stringify!($name), self.0, $max as $t)
			}
		}
		impl $name {
			pub const ACCURACY_: $t = $max;
			pub const fn deconstruct(self) -> $t {
				self.0
			}
			pub const fn from_parts(p: $t) -> Self {
				if p > $max {
					Self($max)
				} else {
					Self(p)
				}
			}
			pub const fn from_percent(p: $t) -> Self {
				let p = if p > 100 { 100 } else { p };
				Self(((p as $up) * ($max as $up) / 100) as $t)
			}
			pub const fn one() -> Self {
				Self($max)
			}
			pub const fn zero() -> Self {
				Self(0)
			}
			pub const fn is_zero(&self) -> bool {
				self.0 == 0
			}
			pub const fn is_one(&self) -> bool {
				self.0 == $max
			}
			pub fn from_rational<N: UniqueSaturatedInto<u128>>(p: N, q: N) -> Self {
				Self::from_rational_with_rounding(p, q, Rounding::Down).unwrap_or(Self($max))
			}
			pub fn from_rational_with_rounding<N: UniqueSaturatedInto<u128>>(p: N, q: N, r: Rounding) -> Result<Self, ()> {
				let (p, q): (u128, u128) = (p.unique_saturated_into(), q.unique_saturated_into());
				if q == 0 || p > q {
					return Err(());
				}
				let v = crate::multiply_by_rational_with_rounding(p, $max as u128, q, r).ok_or(())?;
				Ok(Self(v as $t))
			}
			fn mul_with<N: UniqueSaturatedInto<u128> + UniqueSaturatedFrom<u128>>(self, b: N, r: Rounding) -> N {
				let b: u128 = b.unique_saturated_into();
				N::unique_saturated_from(
					crate::multiply_by_rational_with_rounding(b, self.0 as u128, $max as u128, r).expect("part <= whole"),
				)
			}
			pub fn mul_floor<N: UniqueSaturatedInto<u128> + UniqueSaturatedFrom<u128>>(self, b: N) -> N {
				self.mul_with(b, Rounding::Down)
			}
			pub fn mul_ceil<N: UniqueSaturatedInto<u128> + UniqueSaturatedFrom<u128>>(self, b: N) -> N {
				self.mul_with(b, Rounding::Up)
			}
			fn recip<N: UniqueSaturatedInto<u128> + UniqueSaturatedFrom<u128>>(self, b: N, r: Rounding) -> N {
				let b: u128 = b.unique_saturated_into();
				let v = if self.0 == 0 { if b == 0 { Some(0) } else { None } } else {
					crate::multiply_by_rational_with_rounding(b, $max as u128, self.0 as u128, r)
				};
				N::unique_saturated_from(v.unwrap_or(u128::MAX))
			}
			pub fn saturating_reciprocal_mul<N: UniqueSaturatedInto<u128> + UniqueSaturatedFrom<u128>>(self, b: N) -> N {
				self.recip(b, Rounding::NearestPrefUp)
			}
			pub fn saturating_reciprocal_mul_floor<N: UniqueSaturatedInto<u128> + UniqueSaturatedFrom<u128>>(self, b: N) -> N {
				self.recip(b, Rounding::Down)
			}
			pub fn saturating_reciprocal_mul_ceil<N: UniqueSaturatedInto<u128> + UniqueSaturatedFrom<u128>>(self, b: N) -> N {
				self.recip(b, Rounding::Up)
			}
			pub const fn left_from_one(self) -> Self {
				Self($max - self.0)
			}
			pub fn square(self) -> Self {
				self * self
			}
			pub fn int_div(self, b: Self) -> $t {
				self.0 / b.0
			}
			pub fn saturating_add(self, o: Self) -> Self {
				Self::from_parts(self.0.saturating_add(o.0))
			}
			pub fn saturating_sub(self, o: Self) -> Self {
				Self(self.0.saturating_sub(o.0))
			}
			pub fn saturating_mul(self, o: Self) -> Self {
				self * o
			}
			pub fn saturating_div(self, o: Self, r: Rounding) -> Self {
				Self::from_rational_with_rounding(self.0 as u128, o.0 as u128, r).unwrap_or(Self($max))
			}
			pub fn from_float(x: f64) -> Self {
				Self((x.clamp(0., 1.) * ($max as f64)) as $t)
			}
			pub fn to_float(self) -> f64 {
				self.0 as f64 / ($max as f64)
			}
		}
		impl PerThing for $name {
			type Inner = $t;
			type Upper = $up;
			const ACCURACY: $t = $max;
			fn deconstruct(self) -> $t {
				self.0
			}
			fn from_parts(p: $t) -> Self {
				Self::from_parts(p)
			}
			fn zero() -> Self {
				Self(0)
			}
			fn is_zero(&self) -> bool {
				self.0 == 0
			}
			fn one() -> Self {
				Self($max)
			}
			fn is_one(&self) -> bool {
				self.0 == $max
			}
			fn from_percent(x: $t) -> Self {
				Self::from_percent(x)
			}
			fn from_rational<N: UniqueSaturatedInto<u128> + Clone>(p: N, q: N) -> Self {
				Self::from_rational(p, q)
			}
			fn mul_floor<N: UniqueSaturatedInto<u128> + UniqueSaturatedFrom<u128>>(self, b: N) -> N {
				Self::mul_floor(self, b)
			}
			fn mul_ceil<N: UniqueSaturatedInto<u128> + UniqueSaturatedFrom<u128>>(self, b: N) -> N {
				Self::mul_ceil(self, b)
			}
			fn left_from_one(self) -> Self {
				Self::left_from_one(self)
			}
		}
		impl Saturating for $name {
			fn saturating_add(self, o: Self) -> Self {
				Self::from_parts(self.0.saturating_add(o.0))
			}
			fn saturating_sub(self, o: Self) -> Self {
				Self(self.0.saturating_sub(o.0))
			}
			fn saturating_mul(self, o: Self) -> Self {
				self * o
			}
			fn saturating_pow(self, exp: usize) -> Self {
				let mut r = Self($max);
				for _ in 0..exp {
					r = r * self;
				}
				r
			}
		}
		impl Bounded for $name {
			fn min_value() -> Self {
				Self(0)
			}
			fn max_value() -> Self {
				Self($max)
			}
		}
		impl std::ops::Add for $name {
			type Output = Self;
			fn add(self, o: Self) -> Self {
				Self::from_parts(self.0 + o.0)
			}
		}
		impl std::ops::Sub for $name {
			type Output = Self;
			fn sub(self, o: Self) -> Self {
				Self(self.0 - o.0)
			}
		}
		impl std::ops::Div for $name {
			type Output = Self;
			fn div(self, o: Self) -> Self {
				Self::from_rational(self.0 as u128, o.0 as u128)
			}
		}
		impl<N: UniqueSaturatedInto<u128> + UniqueSaturatedFrom<u128>> std::ops::Mul<N> for $name {
			type Output = N;
			fn mul(self, b: N) -> N {
				self.mul_with(b, Rounding::NearestPrefDown)
			}
		}
		impl TryFrom<u128> for $name {
			type Error = ();
			fn try_from(p: u128) -> Result<Self, ()> {
				if p <= $max as u128 { Ok(Self(p as $t)) } else { Err(()) }
			}
		}
		impl From<$name> for u128 {
			fn from(p: $name) -> u128 {
				p.0 as u128
			}
		}
	};
}
per_thing!(Percent, 100u8, u8, u16);
per_thing!(PerU16, 65535u16, u16, u32);
per_thing!(Permill, 1_000_000u32, u32, u64);
per_thing!(Perbill, 1_000_000_000u32, u32, u64);
per_thing!(Perquintill, 1_000_000_000_000_000_000u64, u64, u128);

const _: fn() = || {
	let _ = mul_div_rem;
	let _ = <u32 as Zero>::zero;
	let _ = <u32 as One>::one;
};
