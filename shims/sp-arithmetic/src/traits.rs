pub use num_traits::{
	checked_pow, ops::checked::{CheckedAdd, CheckedDiv, CheckedMul, CheckedNeg, CheckedRem, CheckedShl, CheckedShr, CheckedSub},
	Bounded, One, Signed, Unsigned, Zero,
};
use crate::ArithmeticError;
use std::ops::{Add, AddAssign, Div, DivAssign, Mul, MulAssign, Rem, RemAssign, Shl, Shr, Sub, SubAssign};

/// Integers that can stand in as any other integer, saturating.
pub trait Int: Copy {
	fn as_i(self) -> (bool, u128);
	fn from_i(neg: bool, abs: u128) -> Self;
	fn fits(neg: bool, abs: u128) -> bool;
}
macro_rules! int_u { ($($t:ty),*) => { $(impl Int for $t {
	fn as_i(self) -> (bool, u128) { (false, self as u128) }
	fn from_i(neg: bool, abs: u128) -> Self { if neg { 0 } else if abs > <$t>::MAX as u128 { <$t>::MAX } else { abs as $t } }
	fn fits(neg: bool, abs: u128) -> bool { (!neg || abs == 0) && abs <= <$t>::MAX as u128 }
})* } }
macro_rules! int_i { ($($t:ty),*) => { $(impl Int for $t {
	fn as_i(self) -> (bool, u128) { (self < 0, self.unsigned_abs() as u128) }
	fn from_i(neg: bool, abs: u128) -> Self {
		if neg { if abs >= <$t>::MIN.unsigned_abs() as u128 { <$t>::MIN } else { -(abs as $t) } }
		else if abs > <$t>::MAX as u128 { <$t>::MAX } else { abs as $t }
	}
	fn fits(neg: bool, abs: u128) -> bool { if neg { abs <= <$t>::MIN.unsigned_abs() as u128 } else { abs <= <$t>::MAX as u128 } }
})* } }
int_u!(u8, u16, u32, u64, u128, usize);
int_i!(i8, i16, i32, i64, i128, isize);

pub trait UniqueSaturatedFrom<T: Sized>: Sized {
	fn unique_saturated_from(t: T) -> Self;
}
pub trait UniqueSaturatedInto<T: Sized>: Sized {
	fn unique_saturated_into(self) -> T;
}
impl<T: Sized, S: TryFrom<T> + Bounded + Sized> UniqueSaturatedFrom<T> for S {
	fn unique_saturated_from(t: T) -> Self {
		S::try_from(t).unwrap_or_else(|_| Bounded::max_value())
	}
}
impl<T: Bounded + Sized, S: TryInto<T> + Sized> UniqueSaturatedInto<T> for S {
	fn unique_saturated_into(self) -> T {
		self.try_into().unwrap_or_else(|_| Bounded::max_value())
	}
}

pub trait SaturatedConversion {
	fn saturated_from<T>(t: T) -> Self
	where
		Self: UniqueSaturatedFrom<T>,
	{
		<Self as UniqueSaturatedFrom<T>>::unique_saturated_from(t)
	}
	fn saturated_into<T>(self) -> T
	where
		Self: UniqueSaturatedInto<T>,
	{
		<Self as UniqueSaturatedInto<T>>::unique_saturated_into(self)
	}
}
impl<T: Sized> SaturatedConversion for T {}

pub trait Saturating {
	fn saturating_add(self, rhs: Self) -> Self;
	fn saturating_sub(self, rhs: Self) -> Self;
	fn saturating_mul(self, rhs: Self) -> Self;
	fn saturating_pow(self, exp: usize) -> Self;
	fn saturating_less_one(self) -> Self
	where
		Self: One + Sized,
	{
		self.saturating_sub(One::one())
	}
	fn saturating_plus_one(self) -> Self
	where
		Self: One + Sized,
	{
		self.saturating_add(One::one())
	}
	fn saturating_inc(&mut self)
	where
		Self: One + Sized,
	{
		let mut o = Self::one();
		std::mem::swap(&mut o, self);
		*self = o.saturating_add(One::one());
	}
	fn saturating_dec(&mut self)
	where
		Self: One + Sized,
	{
		let mut o = Self::one();
		std::mem::swap(&mut o, self);
		*self = o.saturating_sub(One::one());
	}
	fn saturating_accrue(&mut self, amount: Self)
	where
		Self: One + Sized,
	{
		let mut o = Self::one();
		std::mem::swap(&mut o, self);
		*self = o.saturating_add(amount);
	}
	fn saturating_reduce(&mut self, amount: Self)
	where
		Self: One + Sized,
	{
		let mut o = Self::one();
		std::mem::swap(&mut o, self);
		*self = o.saturating_sub(amount);
	}
}
impl<T: Clone + Zero + One + PartialOrd + CheckedMul + Bounded + num_traits::Saturating> Saturating for T {
	fn saturating_add(self, o: Self) -> Self {
		<Self as num_traits::Saturating>::saturating_add(self, o)
	}
	fn saturating_sub(self, o: Self) -> Self {
		<Self as num_traits::Saturating>::saturating_sub(self, o)
	}
	fn saturating_mul(self, o: Self) -> Self {
		self.checked_mul(&o).unwrap_or_else(|| {
			if (self < T::zero()) != (o < T::zero()) {
				Bounded::min_value()
			} else {
				Bounded::max_value()
			}
		})
	}
	fn saturating_pow(self, exp: usize) -> Self {
		let neg = self < T::zero() && exp % 2 != 0;
		checked_pow(self, exp).unwrap_or_else(|| if neg { Bounded::min_value() } else { Bounded::max_value() })
	}
}

pub trait IntegerSquareRoot {}
impl<T> IntegerSquareRoot for T {}

pub trait BaseArithmetic:
	From<u8> + Zero + One + IntegerSquareRoot
	+ Add<Self, Output = Self> + AddAssign<Self> + Sub<Self, Output = Self> + SubAssign<Self>
	+ Mul<Self, Output = Self> + MulAssign<Self> + Div<Self, Output = Self> + DivAssign<Self>
	+ Rem<Self, Output = Self> + RemAssign<Self> + Shl<u32, Output = Self> + Shr<u32, Output = Self>
	+ CheckedShl + CheckedShr + CheckedAdd + CheckedSub + CheckedMul + CheckedDiv + CheckedRem
	+ EnsureAdd + EnsureSub + EnsureMul + EnsureDiv
	+ Saturating + PartialOrd<Self> + Ord + Bounded + Sized + parity_scale_codec::HasCompact
	+ TryFrom<u8> + TryInto<u8> + TryFrom<u16> + TryInto<u16> + TryFrom<u32> + TryInto<u32>
	+ TryFrom<u64> + TryInto<u64> + TryFrom<u128> + TryInto<u128> + TryFrom<usize> + TryInto<usize>
	+ UniqueSaturatedFrom<u8> + UniqueSaturatedInto<u8> + UniqueSaturatedFrom<u16> + UniqueSaturatedInto<u16>
	+ UniqueSaturatedFrom<u32> + UniqueSaturatedInto<u32> + UniqueSaturatedFrom<u64> + UniqueSaturatedInto<u64>
	+ UniqueSaturatedFrom<u128> + UniqueSaturatedInto<u128>
{
}
impl<
		T: From<u8> + Zero + One + IntegerSquareRoot
			+ Add<Self, Output = Self> + AddAssign<Self> + Sub<Self, Output = Self> + SubAssign<Self>
			+ Mul<Self, Output = Self> + MulAssign<Self> + Div<Self, Output = Self> + DivAssign<Self>
			+ Rem<Self, Output = Self> + RemAssign<Self> + Shl<u32, Output = Self> + Shr<u32, Output = Self>
			+ CheckedShl + CheckedShr + CheckedAdd + CheckedSub + CheckedMul + CheckedDiv + CheckedRem
			+ EnsureAdd + EnsureSub + EnsureMul + EnsureDiv
			+ Saturating + PartialOrd<Self> + Ord + Bounded + Sized + parity_scale_codec::HasCompact
			+ TryFrom<u8> + TryInto<u8> + TryFrom<u16> + TryInto<u16> + TryFrom<u32> + TryInto<u32>
			+ TryFrom<u64> + TryInto<u64> + TryFrom<u128> + TryInto<u128> + TryFrom<usize> + TryInto<usize>
			+ UniqueSaturatedFrom<u8> + UniqueSaturatedInto<u8> + UniqueSaturatedFrom<u16> + UniqueSaturatedInto<u16>
			+ UniqueSaturatedFrom<u32> + UniqueSaturatedInto<u32> + UniqueSaturatedFrom<u64> + UniqueSaturatedInto<u64>
			+ UniqueSaturatedFrom<u128> + UniqueSaturatedInto<u128>,
	> BaseArithmetic for T
{
}
pub trait AtLeast8Bit: BaseArithmetic + From<u8> {}
impl<T: BaseArithmetic + From<u8>> AtLeast8Bit for T {}
pub trait AtLeast16Bit: BaseArithmetic + From<u16> {}
impl<T: BaseArithmetic + From<u16>> AtLeast16Bit for T {}
pub trait AtLeast32Bit: BaseArithmetic + From<u16> + From<u32> {}
impl<T: BaseArithmetic + From<u16> + From<u32>> AtLeast32Bit for T {}
pub trait AtLeast8BitUnsigned: AtLeast8Bit + Unsigned {}
impl<T: AtLeast8Bit + Unsigned> AtLeast8BitUnsigned for T {}
pub trait AtLeast16BitUnsigned: AtLeast16Bit + Unsigned {}
impl<T: AtLeast16Bit + Unsigned> AtLeast16BitUnsigned for T {}
pub trait AtLeast32BitUnsigned: AtLeast32Bit + Unsigned {}
impl<T: AtLeast32Bit + Unsigned> AtLeast32BitUnsigned for T {}

pub trait EnsureAdd: EnsureAddAssign {
	fn ensure_add(mut self, v: Self) -> Result<Self, ArithmeticError> {
		self.ensure_add_assign(v)?;
		Ok(self)
	}
}
pub trait EnsureAddAssign: Sized {
	fn ensure_add_assign(&mut self, v: Self) -> Result<(), ArithmeticError>;
}
impl<T: CheckedAdd + PartialOrd + Zero + Copy> EnsureAddAssign for T {
	fn ensure_add_assign(&mut self, v: Self) -> Result<(), ArithmeticError> {
		*self = self.checked_add(&v).ok_or(ArithmeticError::Overflow)?;
		Ok(())
	}
}
impl<T: EnsureAddAssign> EnsureAdd for T {}
pub trait EnsureSub: EnsureSubAssign {
	fn ensure_sub(mut self, v: Self) -> Result<Self, ArithmeticError> {
		self.ensure_sub_assign(v)?;
		Ok(self)
	}
}
pub trait EnsureSubAssign: Sized {
	fn ensure_sub_assign(&mut self, v: Self) -> Result<(), ArithmeticError>;
}
impl<T: CheckedSub + PartialOrd + Zero + Copy> EnsureSubAssign for T {
	fn ensure_sub_assign(&mut self, v: Self) -> Result<(), ArithmeticError> {
		*self = self.checked_sub(&v).ok_or(ArithmeticError::Underflow)?;
		Ok(())
	}
}
impl<T: EnsureSubAssign> EnsureSub for T {}
pub trait EnsureMul: EnsureMulAssign {
	fn ensure_mul(mut self, v: Self) -> Result<Self, ArithmeticError> {
		self.ensure_mul_assign(v)?;
		Ok(self)
	}
}
pub trait EnsureMulAssign: Sized {
	fn ensure_mul_assign(&mut self, v: Self) -> Result<(), ArithmeticError>;
}
impl<T: CheckedMul + PartialOrd + Zero + Copy> EnsureMulAssign for T {
	fn ensure_mul_assign(&mut self, v: Self) -> Result<(), ArithmeticError> {
		*self = self.checked_mul(&v).ok_or(ArithmeticError::Overflow)?;
		Ok(())
	}
}
impl<T: EnsureMulAssign> EnsureMul for T {}
pub trait EnsureDiv: EnsureDivAssign {
	fn ensure_div(mut self, v: Self) -> Result<Self, ArithmeticError> {
		self.ensure_div_assign(v)?;
		Ok(self)
	}
}
pub trait EnsureDivAssign: Sized {
	fn ensure_div_assign(&mut self, v: Self) -> Result<(), ArithmeticError>;
}
impl<T: CheckedDiv + PartialOrd + Zero + Copy> EnsureDivAssign for T {
	fn ensure_div_assign(&mut self, v: Self) -> Result<(), ArithmeticError> {
		*self = self.checked_div(&v).ok_or(ArithmeticError::DivisionByZero)?;
		Ok(())
	}
}
impl<T: EnsureDivAssign> EnsureDiv for T {}
pub trait EnsureOp: EnsureAdd + EnsureSub + EnsureMul + EnsureDiv {}
impl<T: EnsureAdd + EnsureSub + EnsureMul + EnsureDiv> EnsureOp for T {}
