//! Stand-in for sp-weights.
use parity_scale_codec::{CompactAs, Decode, Encode, MaxEncodedLen};
use scale_info::TypeInfo;
use sp_arithmetic::traits::{BaseArithmetic, SaturatedConversion, Unsigned};
use sp_arithmetic::Perbill;
use smallvec::SmallVec;
use sp_core::Get;
use std::ops::{Add, AddAssign, Div, Mul, Sub, SubAssign};

pub mod constants {
	pub const WEIGHT_REF_TIME_PER_SECOND: u64 = 1_000_000_000_000;
	pub const WEIGHT_REF_TIME_PER_MILLIS: u64 = 1_000_000_000;
	pub const WEIGHT_REF_TIME_PER_MICROS: u64 = 1_000_000;
	pub const WEIGHT_REF_TIME_PER_NANOS: u64 = 1_000;
	pub const WEIGHT_PROOF_SIZE_PER_MB: u64 = 1024 * 1024;
	pub const WEIGHT_PROOF_SIZE_PER_KB: u64 = 1024;
	pub struct ExtrinsicBaseWeight;
	impl sp_core::Get<crate::Weight> for ExtrinsicBaseWeight {
		fn get() -> crate::Weight {
			crate::Weight::from_parts(108_157_000, 0)
		}
	}
	impl ExtrinsicBaseWeight {
		pub fn get() -> crate::Weight {
			crate::Weight::from_parts(108_157_000, 0)
		}
	}
	pub struct BlockExecutionWeight;
	impl sp_core::Get<crate::Weight> for BlockExecutionWeight {
		fn get() -> crate::Weight {
			crate::Weight::from_parts(453_383_000, 0)
		}
	}
	pub struct RocksDbWeight;
	impl sp_core::Get<crate::RuntimeDbWeight> for RocksDbWeight {
		fn get() -> crate::RuntimeDbWeight {
			crate::RuntimeDbWeight { read: 25_000_000, write: 100_000_000 }
		}
	}
	impl RocksDbWeight {
		pub fn get() -> crate::RuntimeDbWeight {
			crate::RuntimeDbWeight { read: 25_000_000, write: 100_000_000 }
		}
	}
}

#[derive(
	Encode, Decode, MaxEncodedLen, TypeInfo, Eq, PartialEq, Copy, Clone, Debug, Default, Hash, serde::Serialize, serde::Deserialize,
)]
pub struct Weight {
	#[codec(compact)]
	ref_time: u64,
	#[codec(compact)]
	proof_size: u64,
}
#[derive(Encode, Decode, MaxEncodedLen, TypeInfo, Eq, PartialEq, Copy, Clone, Debug, Default, CompactAs)]
pub struct OldWeight(pub u64);

impl Weight {
	pub const MAX: Weight = Weight { ref_time: u64::MAX, proof_size: u64::MAX };
	pub const fn zero() -> Self {
		Self { ref_time: 0, proof_size: 0 }
	}
	pub const fn from_parts(ref_time: u64, proof_size: u64) -> Self {
		Self { ref_time, proof_size }
	}
	pub const fn from_ref_time(ref_time: u64) -> Self {
		Self { ref_time, proof_size: 0 }
	}
	pub const fn from_proof_size(proof_size: u64) -> Self {
		Self { ref_time: 0, proof_size }
	}
	pub const fn from_all(v: u64) -> Self {
		Self { ref_time: v, proof_size: v }
	}
	pub const fn ref_time(&self) -> u64 {
		self.ref_time
	}
	pub const fn proof_size(&self) -> u64 {
		self.proof_size
	}
	pub fn ref_time_mut(&mut self) -> &mut u64 {
		&mut self.ref_time
	}
	pub fn proof_size_mut(&mut self) -> &mut u64 {
		&mut self.proof_size
	}
	pub const fn set_ref_time(mut self, c: u64) -> Self {
		self.ref_time = c;
		self
	}
	pub const fn set_proof_size(mut self, c: u64) -> Self {
		self.proof_size = c;
		self
	}
	pub const fn is_zero(&self) -> bool {
		self.ref_time == 0 && self.proof_size == 0
	}
	pub const fn saturating_add(self, o: Self) -> Self {
		Self { ref_time: self.ref_time.saturating_add(o.ref_time), proof_size: self.proof_size.saturating_add(o.proof_size) }
	}
	pub const fn saturating_sub(self, o: Self) -> Self {
		Self { ref_time: self.ref_time.saturating_sub(o.ref_time), proof_size: self.proof_size.saturating_sub(o.proof_size) }
	}
	pub const fn saturating_mul(self, s: u64) -> Self {
		Self { ref_time: self.ref_time.saturating_mul(s), proof_size: self.proof_size.saturating_mul(s) }
	}
	pub const fn saturating_div(self, s: u64) -> Self {
		Self { ref_time: self.ref_time / s, proof_size: self.proof_size / s }
	}
	pub fn saturating_accrue(&mut self, o: Self) {
		*self = self.saturating_add(o);
	}
	pub fn saturating_reduce(&mut self, o: Self) {
		*self = self.saturating_sub(o);
	}
	pub fn checked_add(&self, o: &Self) -> Option<Self> {
		Some(Self { ref_time: self.ref_time.checked_add(o.ref_time)?, proof_size: self.proof_size.checked_add(o.proof_size)? })
	}
	pub fn checked_sub(&self, o: &Self) -> Option<Self> {
		Some(Self { ref_time: self.ref_time.checked_sub(o.ref_time)?, proof_size: self.proof_size.checked_sub(o.proof_size)? })
	}
	pub fn checked_mul(&self, s: u64) -> Option<Self> {
		Some(Self { ref_time: self.ref_time.checked_mul(s)?, proof_size: self.proof_size.checked_mul(s)? })
	}
	pub const fn mul(self, s: u64) -> Self {
		Self { ref_time: self.ref_time * s, proof_size: self.proof_size * s }
	}
	pub const fn div(self, s: u64) -> Self {
		Self { ref_time: self.ref_time / s, proof_size: self.proof_size / s }
	}
	pub const fn add_ref_time(self, s: u64) -> Self {
		Self { ref_time: self.ref_time + s, proof_size: self.proof_size }
	}
	pub fn min(self, o: Self) -> Self {
		Self { ref_time: self.ref_time.min(o.ref_time), proof_size: self.proof_size.min(o.proof_size) }
	}
	pub fn max(self, o: Self) -> Self {
		Self { ref_time: self.ref_time.max(o.ref_time), proof_size: self.proof_size.max(o.proof_size) }
	}
	pub const fn all_gt(self, o: Self) -> bool {
		self.ref_time > o.ref_time && self.proof_size > o.proof_size
	}
	pub const fn any_gt(self, o: Self) -> bool {
		self.ref_time > o.ref_time || self.proof_size > o.proof_size
	}
	pub const fn all_gte(self, o: Self) -> bool {
		self.ref_time >= o.ref_time && self.proof_size >= o.proof_size
	}
	pub const fn any_gte(self, o: Self) -> bool {
		self.ref_time >= o.ref_time || self.proof_size >= o.proof_size
	}
	pub const fn all_lt(self, o: Self) -> bool {
		self.ref_time < o.ref_time && self.proof_size < o.proof_size
	}
	pub const fn any_lt(self, o: Self) -> bool {
		self.ref_time < o.ref_time || self.proof_size < o.proof_size
	}
	pub const fn all_lte(self, o: Self) -> bool {
		self.ref_time <= o.ref_time && self.proof_size <= o.proof_size
	}
	pub const fn any_lte(self, o: Self) -> bool {
		self.ref_time <= o.ref_time || self.proof_size <= o.proof_size
	}
}
impl Add for Weight {
	type Output = Self;
	fn add(self, o: Self) -> Self {
		Self { ref_time: self.ref_time + o.ref_time, proof_size: self.proof_size + o.proof_size }
	}
}
impl Sub for Weight {
	type Output = Self;
	fn sub(self, o: Self) -> Self {
		Self { ref_time: self.ref_time - o.ref_time, proof_size: self.proof_size - o.proof_size }
	}
}
impl AddAssign for Weight {
	fn add_assign(&mut self, o: Self) {
		*self = *self + o;
	}
}
impl SubAssign for Weight {
	fn sub_assign(&mut self, o: Self) {
		*self = *self - o;
	}
}
macro_rules! wmul { ($($t:ty),*) => { $(impl Mul<$t> for Weight { type Output = Self; fn mul(self, s: $t) -> Self { Self { ref_time: self.ref_time * s as u64, proof_size: self.proof_size * s as u64 } } }
impl Div<$t> for Weight { type Output = Self; fn div(self, s: $t) -> Self { Self { ref_time: self.ref_time / s as u64, proof_size: self.proof_size / s as u64 } } })* } }
wmul!(u8, u16, u32, u64);
impl Mul<Weight> for Perbill {
	type Output = Weight;
	fn mul(self, w: Weight) -> Weight {
		Weight { ref_time: self * w.ref_time, proof_size: self * w.proof_size }
	}
}
impl From<u64> for Weight {
	fn from(x: u64) -> Self {
		Self::from_parts(x, 0)
	}
}

#[derive(Clone, Copy, Debug, Default, Eq, PartialEq, Encode, Decode, TypeInfo)]
pub struct RuntimeDbWeight {
	pub read: u64,
	pub write: u64,
}
impl RuntimeDbWeight {
	pub const fn reads(self, r: u64) -> Weight {
		Weight::from_parts(self.read.saturating_mul(r), 0)
	}
	pub const fn writes(self, w: u64) -> Weight {
		Weight::from_parts(self.write.saturating_mul(w), 0)
	}
	pub const fn reads_writes(self, r: u64, w: u64) -> Weight {
		Weight::from_parts(self.read.saturating_mul(r).saturating_add(self.write.saturating_mul(w)), 0)
	}
}

/// One coefficient and its position in the polynomial.
#[derive(Clone, Debug, TypeInfo)]
pub struct WeightToFeeCoefficient<Balance> {
	pub coeff_integer: Balance,
	pub coeff_frac: Perbill,
	pub negative: bool,
	pub degree: u8,
}
impl<Balance> WeightToFeeCoefficient<Balance>
where
	Balance: BaseArithmetic + From<u32> + Copy + Unsigned,
{
	fn saturating_eval(&self, mut result: Balance, x: Balance) -> Balance {
		let power = sp_arithmetic::traits::Saturating::saturating_pow(x, self.degree.into());
		let frac = self.coeff_frac * power;
		let integer = sp_arithmetic::traits::Saturating::saturating_mul(self.coeff_integer, power);
		if self.negative {
			result = sp_arithmetic::traits::Saturating::saturating_sub(result, frac);
			result = sp_arithmetic::traits::Saturating::saturating_sub(result, integer);
		} else {
			result = sp_arithmetic::traits::Saturating::saturating_add(result, frac);
			result = sp_arithmetic::traits::Saturating::saturating_add(result, integer);
		}
		result
	}
}
pub type WeightToFeeCoefficients<T> = SmallVec<[WeightToFeeCoefficient<T>; 4]>;
pub struct FeePolynomial<Balance> {
	coefficients: SmallVec<[WeightToFeeCoefficient<Balance>; 4]>,
}
impl<Balance> From<WeightToFeeCoefficients<Balance>> for FeePolynomial<Balance> {
	fn from(coefficients: WeightToFeeCoefficients<Balance>) -> Self {
		Self { coefficients }
	}
}
impl<Balance> FeePolynomial<Balance>
where
	Balance: BaseArithmetic + From<u32> + Copy + Unsigned,
{
	/// Takes the reference time, or the whole weight (of which it takes the reference time).
	pub fn eval(&self, x: impl RefTime) -> Balance {
		let x: Balance = Balance::saturated_from(x.ref_time_of());
		self.coefficients.iter().fold(Balance::from(0u32), |acc, c| c.saturating_eval(acc, x))
	}
}
pub trait WeightToFee {
	type Balance: BaseArithmetic + From<u32> + Copy + Unsigned;
	fn weight_to_fee(weight: &Weight) -> Self::Balance;
}
pub trait WeightToFeePolynomial {
	type Balance: BaseArithmetic + From<u32> + Copy + Unsigned;
	fn polynomial() -> WeightToFeeCoefficients<Self::Balance>;
}
impl<T> WeightToFee for T
where
	T: WeightToFeePolynomial,
{
	type Balance = <Self as WeightToFeePolynomial>::Balance;
	fn weight_to_fee(weight: &Weight) -> Self::Balance {
		let poly: FeePolynomial<Self::Balance> = Self::polynomial().into();
		poly.eval(*weight)
	}
}
pub struct IdentityFee<T>(std::marker::PhantomData<T>);
impl<T: BaseArithmetic + From<u32> + Copy + Unsigned> WeightToFee for IdentityFee<T> {
	type Balance = T;
	fn weight_to_fee(w: &Weight) -> T {
		T::saturated_from(w.ref_time())
	}
}
pub struct ConstantMultiplier<T, M>(std::marker::PhantomData<(T, M)>);
impl<T: BaseArithmetic + From<u32> + Copy + Unsigned, M: Get<T>> WeightToFee for ConstantMultiplier<T, M> {
	type Balance = T;
	fn weight_to_fee(w: &Weight) -> T {
		sp_arithmetic::traits::Saturating::saturating_mul(T::saturated_from(w.ref_time()), M::get())
	}
}
#[derive(Encode, Decode, MaxEncodedLen, TypeInfo, Eq, PartialEq, Copy, Clone, Debug)]
pub enum WeightMeterState {}

#[derive(Debug, Clone)]
pub struct WeightMeter {
	consumed: Weight,
	limit: Weight,
}
impl WeightMeter {
	pub fn new() -> Self {
		Self { consumed: Weight::zero(), limit: Weight::MAX }
	}
	pub fn with_limit(limit: Weight) -> Self {
		Self { consumed: Weight::zero(), limit }
	}
	pub fn consumed(&self) -> Weight {
		self.consumed
	}
	pub fn try_consume(&mut self, w: Weight) -> Result<(), ()> {
		let c = self.consumed.checked_add(&w).ok_or(())?;
		if c.any_gt(self.limit) {
			return Err(());
		}
		self.consumed = c;
		Ok(())
	}
}

pub trait RefTime {
	fn ref_time_of(self) -> u64;
}
impl RefTime for Weight {
	fn ref_time_of(self) -> u64 {
		self.ref_time()
	}
}
impl RefTime for u64 {
	fn ref_time_of(self) -> u64 {
		self
	}
}
