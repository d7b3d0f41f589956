use std::marker::PhantomData;
use parity_scale_codec::{Decode, Encode, FullCodec, HasCompact, MaxEncodedLen};
use scale_info::TypeInfo;
use sp_runtime::traits::AtLeast32BitUnsigned;
use sp_runtime::{ArithmeticError, DispatchError, TokenError};
use std::fmt::Debug;

#[derive(Copy, Clone, Eq, PartialEq, Debug)]
pub enum Precision {
	Exact,
	BestEffort,
}
#[derive(Copy, Clone, Eq, PartialEq, Debug)]
pub enum Preservation {
	Expendable,
	Protect,
	Preserve,
}
#[derive(Copy, Clone, Eq, PartialEq, Debug)]
pub enum Fortitude {
	Polite,
	Force,
}
#[derive(Copy, Clone, Eq, PartialEq, Debug, Encode, Decode, TypeInfo, MaxEncodedLen)]
pub enum Restriction {
	Free,
	OnHold,
}
#[derive(Copy, Clone, Eq, PartialEq, Debug)]
pub enum Provenance {
	Minted,
	Extant,
}
#[derive(Copy, Clone, Eq, PartialEq, Debug)]
pub enum ExistenceRequirement {
	KeepAlive,
	AllowDeath,
}
#[derive(Copy, Clone, Eq, PartialEq, Debug)]
pub enum WithdrawConsequence<Balance> {
	BalanceLow,
	WouldDie,
	UnknownAsset,
	Underflow,
	Overflow,
	Frozen,
	ReducedToZero(Balance),
	Success,
}
impl<Balance: sp_runtime::traits::Zero> WithdrawConsequence<Balance> {
	pub fn into_result(self, keep_nonzero: bool) -> Result<Balance, DispatchError> {
		use WithdrawConsequence::*;
		match self {
			BalanceLow => Err(TokenError::FundsUnavailable.into()),
			WouldDie => Err(TokenError::OnlyProvider.into()),
			UnknownAsset => Err(TokenError::UnknownAsset.into()),
			Underflow => Err(ArithmeticError::Underflow.into()),
			Overflow => Err(ArithmeticError::Overflow.into()),
			Frozen => Err(TokenError::Frozen.into()),
			ReducedToZero(_) if keep_nonzero => Err(TokenError::NotExpendable.into()),
			ReducedToZero(r) => Ok(r),
			Success => Ok(sp_runtime::traits::Zero::zero()),
		}
	}
}
#[derive(Copy, Clone, Eq, PartialEq, Debug)]
pub enum DepositConsequence {
	BelowMinimum,
	CannotCreate,
	UnknownAsset,
	Overflow,
	Success,
	Blocked,
}
impl DepositConsequence {
	pub fn into_result(self) -> Result<(), DispatchError> {
		use DepositConsequence::*;
		Err(match self {
			BelowMinimum => TokenError::BelowMinimum.into(),
			CannotCreate => TokenError::CannotCreate.into(),
			UnknownAsset => TokenError::UnknownAsset.into(),
			Overflow => ArithmeticError::Overflow.into(),
			Blocked => TokenError::Blocked.into(),
			Success => return Ok(()),
		})
	}
}
pub trait AssetId: FullCodec + Clone + Eq + PartialEq + Debug + TypeInfo + MaxEncodedLen {}
impl<T: FullCodec + Clone + Eq + PartialEq + Debug + TypeInfo + MaxEncodedLen> AssetId for T {}
pub trait ConversionToAssetBalance<InBalance, AssetId, AssetBalance> {
	type Error;
	fn to_asset_balance(balance: InBalance, asset_id: AssetId) -> Result<AssetBalance, Self::Error>;
}
pub trait Balance:
	AtLeast32BitUnsigned + FullCodec + HasCompact + Copy + Default + Debug + TypeInfo + MaxEncodedLen + Send + Sync + 'static
{
}
impl<T: AtLeast32BitUnsigned + FullCodec + HasCompact + Copy + Default + Debug + TypeInfo + MaxEncodedLen + Send + Sync + 'static> Balance for T {}

/// An account plus a balance to settle; the stand-in only needs the names.
macro_rules! token_traits {
	($m:ident; $($asset:ident $AssetId:ident)?) => {
		pub mod $m {
			use super::*;
			use super::{DepositConsequence, Fortitude::{self, *}, Precision::{self, *}, Preservation::{self, *}, Provenance::{self, *}, Restriction, WithdrawConsequence};
			use sp_runtime::{DispatchResult, traits::{CheckedAdd, CheckedSub, Saturating, Zero}};
			pub use hold::{Inspect as InspectHold, Mutate as MutateHold, Unbalanced as UnbalancedHold, Balanced as BalancedHold};
			pub use freeze::{Inspect as InspectFreeze, Mutate as MutateFreeze};

			pub trait Inspect<AccountId>: Sized {
				$(type $AssetId: super::AssetId;)?
				type Balance: super::Balance;
				fn total_issuance($($asset: Self::$AssetId)?) -> Self::Balance;
				fn active_issuance($($asset: Self::$AssetId)?) -> Self::Balance { Self::total_issuance($($asset)?) }
				fn minimum_balance($($asset: Self::$AssetId)?) -> Self::Balance;
				fn total_balance($($asset: Self::$AssetId,)? who: &AccountId) -> Self::Balance;
				fn balance($($asset: Self::$AssetId,)? who: &AccountId) -> Self::Balance;
				fn reducible_balance($($asset: Self::$AssetId,)? who: &AccountId, preservation: Preservation, force: Fortitude) -> Self::Balance;
				fn can_deposit($($asset: Self::$AssetId,)? who: &AccountId, amount: Self::Balance, provenance: Provenance) -> DepositConsequence;
				fn can_withdraw($($asset: Self::$AssetId,)? who: &AccountId, amount: Self::Balance) -> WithdrawConsequence<Self::Balance>;
				$(fn asset_exists($asset: Self::$AssetId) -> bool;)?
			}
			pub trait Unbalanced<AccountId>: Inspect<AccountId> {
				fn write_balance($($asset: Self::$AssetId,)? who: &AccountId, amount: Self::Balance) -> Result<Option<Self::Balance>, DispatchError>;
				fn set_total_issuance($($asset: Self::$AssetId,)? amount: Self::Balance);
				fn decrease_balance($($asset: Self::$AssetId,)? who: &AccountId, mut amount: Self::Balance, precision: Precision, preservation: Preservation, force: Fortitude) -> Result<Self::Balance, DispatchError> {
					let old_balance = Self::balance($($asset.clone(),)? who);
					let reducible = Self::reducible_balance($($asset.clone(),)? who, preservation, force);
					match precision {
						BestEffort => amount = amount.min(reducible),
						Exact => if reducible < amount { return Err(TokenError::FundsUnavailable.into()) },
					}
					let new_balance = old_balance.checked_sub(&amount).ok_or(TokenError::FundsUnavailable)?;
					Self::write_balance($($asset,)? who, new_balance)?;
					Ok(old_balance.saturating_sub(new_balance))
				}
				fn increase_balance($($asset: Self::$AssetId,)? who: &AccountId, amount: Self::Balance, precision: Precision) -> Result<Self::Balance, DispatchError> {
					let old_balance = Self::balance($($asset.clone(),)? who);
					let new_balance = if let BestEffort = precision { old_balance.saturating_add(amount) } else { old_balance.checked_add(&amount).ok_or(ArithmeticError::Overflow)? };
					if new_balance == old_balance { return Ok(Zero::zero()) }
					Self::write_balance($($asset,)? who, new_balance)?;
					Ok(new_balance.saturating_sub(old_balance))
				}
			}
			pub trait Mutate<AccountId: Eq>: Inspect<AccountId> + Unbalanced<AccountId> {
				fn mint_into($($asset: Self::$AssetId,)? who: &AccountId, amount: Self::Balance) -> Result<Self::Balance, DispatchError> {
					Self::can_deposit($($asset.clone(),)? who, amount, Minted).into_result()?;
					let actual = Self::increase_balance($($asset.clone(),)? who, amount, Exact)?;
					let ti = Self::total_issuance($($asset.clone())?);
					Self::set_total_issuance($($asset,)? ti.saturating_add(actual));
					Ok(actual)
				}
				fn burn_from($($asset: Self::$AssetId,)? who: &AccountId, amount: Self::Balance, preservation: Preservation, precision: Precision, force: Fortitude) -> Result<Self::Balance, DispatchError> {
					let actual = Self::decrease_balance($($asset.clone(),)? who, amount, precision, preservation, force)?;
					let ti = Self::total_issuance($($asset.clone())?);
					Self::set_total_issuance($($asset,)? ti.saturating_sub(actual));
					Ok(actual)
				}
				fn shelve($($asset: Self::$AssetId,)? who: &AccountId, amount: Self::Balance) -> Result<Self::Balance, DispatchError> {
					Self::burn_from($($asset,)? who, amount, Expendable, Exact, Polite)
				}
				fn restore($($asset: Self::$AssetId,)? who: &AccountId, amount: Self::Balance) -> Result<Self::Balance, DispatchError> {
					Self::mint_into($($asset,)? who, amount)
				}
				fn transfer($($asset: Self::$AssetId,)? source: &AccountId, dest: &AccountId, amount: Self::Balance, preservation: Preservation) -> Result<Self::Balance, DispatchError> {
					Self::can_withdraw($($asset.clone(),)? source, amount).into_result(preservation != Expendable)?;
					Self::can_deposit($($asset.clone(),)? dest, amount, Extant).into_result()?;
					if source == dest { return Ok(amount) }
					Self::decrease_balance($($asset.clone(),)? source, amount, BestEffort, preservation, Polite)?;
					let _ = Self::increase_balance($($asset,)? dest, amount, BestEffort);
					Ok(amount)
				}
				fn set_balance($($asset: Self::$AssetId,)? who: &AccountId, amount: Self::Balance) -> Self::Balance {
					let b = Self::balance($($asset.clone(),)? who);
					if b > amount {
						let _ = Self::burn_from($($asset.clone(),)? who, b.saturating_sub(amount), Expendable, BestEffort, Force);
					} else {
						let _ = Self::mint_into($($asset.clone(),)? who, amount.saturating_sub(b));
					}
					Self::balance($($asset,)? who)
				}
			}
			/// Money in flight: `Credit` was taken and must be put somewhere, `Debt` was given and must be taken.
			pub type Credit<AccountId, B> = Imbalance<$(<B as Inspect<AccountId>>::$AssetId,)? <B as Inspect<AccountId>>::Balance, <B as Balanced<AccountId>>::OnDropCredit, <B as Balanced<AccountId>>::OnDropDebt>;
			pub type Debt<AccountId, B> = Imbalance<$(<B as Inspect<AccountId>>::$AssetId,)? <B as Inspect<AccountId>>::Balance, <B as Balanced<AccountId>>::OnDropDebt, <B as Balanced<AccountId>>::OnDropCredit>;
			pub trait Balanced<AccountId>: Inspect<AccountId> + Unbalanced<AccountId> {
				type OnDropDebt: HandleImbalanceDrop<$(Self::$AssetId,)? Self::Balance>;
				type OnDropCredit: HandleImbalanceDrop<$(Self::$AssetId,)? Self::Balance>;
				fn rescind($($asset: Self::$AssetId,)? amount: Self::Balance) -> Debt<AccountId, Self> {
					let ti = Self::total_issuance($($asset.clone())?);
					let gone = ti.min(amount);
					Self::set_total_issuance($($asset.clone(),)? ti - gone);
					Imbalance::new($($asset,)? gone)
				}
				fn issue($($asset: Self::$AssetId,)? amount: Self::Balance) -> Credit<AccountId, Self> {
					let ti = Self::total_issuance($($asset.clone())?);
					let new = ti.saturating_add(amount);
					Self::set_total_issuance($($asset.clone(),)? new);
					Imbalance::new($($asset,)? new - ti)
				}
				fn deposit($($asset: Self::$AssetId,)? who: &AccountId, value: Self::Balance, precision: Precision) -> Result<Debt<AccountId, Self>, DispatchError> {
					let increase = Self::increase_balance($($asset.clone(),)? who, value, precision)?;
					Ok(Imbalance::new($($asset,)? increase))
				}
				fn withdraw($($asset: Self::$AssetId,)? who: &AccountId, value: Self::Balance, precision: Precision, preservation: Preservation, fortitude: Fortitude) -> Result<Credit<AccountId, Self>, DispatchError> {
					let decrease = Self::decrease_balance($($asset.clone(),)? who, value, precision, preservation, fortitude)?;
					Ok(Imbalance::new($($asset,)? decrease))
				}
				fn resolve(who: &AccountId, credit: Credit<AccountId, Self>) -> Result<(), Credit<AccountId, Self>> {
					let v = credit.peek();
					$(let $asset = credit.asset();)?
					if !Self::can_deposit($($asset.clone(),)? who, v, Provenance::Extant).into_result().is_ok() {
						return Err(credit)
					}
					match Self::increase_balance($($asset,)? who, v, Exact) {
						Err(_) => Err(credit),
						Ok(_) => { std::mem::forget(credit); Ok(()) }
					}
				}
				fn settle(who: &AccountId, debt: Debt<AccountId, Self>, preservation: Preservation) -> Result<Credit<AccountId, Self>, Debt<AccountId, Self>> {
					let amount = debt.peek();
					$(let $asset = debt.asset();)?
					match Self::decrease_balance($($asset.clone(),)? who, amount, Exact, preservation, Polite) {
						Err(_) => Err(debt),
						Ok(_) => { std::mem::forget(debt); Ok(Imbalance::new($($asset,)? Zero::zero())) }
					}
				}
			}
			pub trait HandleImbalanceDrop<$($AssetId,)? Balance> {
				fn handle($($asset: $AssetId,)? amount: Balance);
			}
			pub struct IncreaseIssuance<AccountId, U>(PhantomData<(AccountId, U)>);
			impl<AccountId, U: Unbalanced<AccountId>> HandleImbalanceDrop<$(U::$AssetId,)? U::Balance> for IncreaseIssuance<AccountId, U> {
				fn handle($($asset: U::$AssetId,)? amount: U::Balance) {
					let ti = U::total_issuance($($asset.clone())?);
					U::set_total_issuance($($asset,)? ti.saturating_add(amount))
				}
			}
			pub struct DecreaseIssuance<AccountId, U>(PhantomData<(AccountId, U)>);
			impl<AccountId, U: Unbalanced<AccountId>> HandleImbalanceDrop<$(U::$AssetId,)? U::Balance> for DecreaseIssuance<AccountId, U> {
				fn handle($($asset: U::$AssetId,)? amount: U::Balance) {
					let ti = U::total_issuance($($asset.clone())?);
					U::set_total_issuance($($asset,)? ti.saturating_sub(amount))
				}
			}
			pub struct Imbalance<$($AssetId: super::AssetId,)? B: super::Balance, OnDrop: HandleImbalanceDrop<$($AssetId,)? B>, Opposite: HandleImbalanceDrop<$($AssetId,)? B>> {
				$($asset: $AssetId,)?
				amount: B,
				_p: PhantomData<(OnDrop, Opposite)>,
			}
			impl<$($AssetId: super::AssetId,)? B: super::Balance, OnDrop: HandleImbalanceDrop<$($AssetId,)? B>, Opposite: HandleImbalanceDrop<$($AssetId,)? B>> Drop for Imbalance<$($AssetId,)? B, OnDrop, Opposite> {
				fn drop(&mut self) {
					if !self.amount.is_zero() {
						OnDrop::handle($(self.$asset.clone(),)? self.amount)
					}
				}
			}
			impl<$($AssetId: super::AssetId,)? B: super::Balance, OnDrop: HandleImbalanceDrop<$($AssetId,)? B>, Opposite: HandleImbalanceDrop<$($AssetId,)? B>> Imbalance<$($AssetId,)? B, OnDrop, Opposite> {
				pub(crate) fn new($($asset: $AssetId,)? amount: B) -> Self {
					Self { $($asset,)? amount, _p: PhantomData }
				}
				pub fn peek(&self) -> B {
					self.amount
				}
				$(pub fn asset(&self) -> $AssetId {
					self.$asset.clone()
				})?
				pub fn split(self, amount: B) -> (Self, Self) {
					let first = self.amount.min(amount);
					let second = self.amount - first;
					$(let $asset = self.$asset.clone();)?
					std::mem::forget(self);
					(Self::new($($asset.clone(),)? first), Self::new($($asset,)? second))
				}
			}

			pub mod hold {
				use super::*;
				pub trait Inspect<AccountId>: super::Inspect<AccountId> {
					type Reason: Encode + TypeInfo + 'static;
					fn total_balance_on_hold($($asset: Self::$AssetId,)? who: &AccountId) -> Self::Balance;
					fn balance_on_hold($($asset: Self::$AssetId,)? reason: &Self::Reason, who: &AccountId) -> Self::Balance;
					fn reducible_total_balance_on_hold($($asset: Self::$AssetId,)? who: &AccountId, _force: Fortitude) -> Self::Balance {
						Self::total_balance_on_hold($($asset,)? who)
					}
					fn hold_available($($asset: Self::$AssetId,)? _reason: &Self::Reason, _who: &AccountId) -> bool { $(let _ = $asset;)? true }
					fn ensure_can_hold($($asset: Self::$AssetId,)? reason: &Self::Reason, who: &AccountId, amount: Self::Balance) -> DispatchResult {
						if !Self::hold_available($($asset.clone(),)? reason, who) { return Err(TokenError::CannotCreateHold.into()) }
						if amount > Self::reducible_balance($($asset,)? who, Protect, Force) { return Err(TokenError::FundsUnavailable.into()) }
						Ok(())
					}
					fn can_hold($($asset: Self::$AssetId,)? reason: &Self::Reason, who: &AccountId, amount: Self::Balance) -> bool {
						Self::ensure_can_hold($($asset,)? reason, who, amount).is_ok()
					}
				}
				pub trait Unbalanced<AccountId>: Inspect<AccountId> {
					fn set_balance_on_hold($($asset: Self::$AssetId,)? reason: &Self::Reason, who: &AccountId, amount: Self::Balance) -> DispatchResult;
					fn decrease_balance_on_hold($($asset: Self::$AssetId,)? reason: &Self::Reason, who: &AccountId, mut amount: Self::Balance, precision: Precision) -> Result<Self::Balance, DispatchError> {
						let old = Self::balance_on_hold($($asset.clone(),)? reason, who);
						if let BestEffort = precision { amount = amount.min(old) }
						let new = old.checked_sub(&amount).ok_or(TokenError::FundsUnavailable)?;
						Self::set_balance_on_hold($($asset,)? reason, who, new)?;
						Ok(amount)
					}
					fn increase_balance_on_hold($($asset: Self::$AssetId,)? reason: &Self::Reason, who: &AccountId, amount: Self::Balance, precision: Precision) -> Result<Self::Balance, DispatchError> {
						let old = Self::balance_on_hold($($asset.clone(),)? reason, who);
						let new = if let BestEffort = precision { old.saturating_add(amount) } else { old.checked_add(&amount).ok_or(ArithmeticError::Overflow)? };
						let amount = new.saturating_sub(old);
						if !amount.is_zero() { Self::set_balance_on_hold($($asset,)? reason, who, new)?; }
						Ok(amount)
					}
				}
				pub trait Mutate<AccountId>: Inspect<AccountId> + super::Unbalanced<AccountId> + Unbalanced<AccountId> {
					fn hold($($asset: Self::$AssetId,)? reason: &Self::Reason, who: &AccountId, amount: Self::Balance) -> DispatchResult {
						Self::ensure_can_hold($($asset.clone(),)? reason, who, amount)?;
						Self::decrease_balance($($asset.clone(),)? who, amount, Exact, Protect, Force)?;
						Self::increase_balance_on_hold($($asset,)? reason, who, amount, BestEffort)?;
						Ok(())
					}
					fn release($($asset: Self::$AssetId,)? reason: &Self::Reason, who: &AccountId, amount: Self::Balance, precision: Precision) -> Result<Self::Balance, DispatchError> {
						if Self::can_deposit($($asset.clone(),)? who, amount, Extant) != DepositConsequence::Success { return Err(TokenError::CannotCreate.into()) }
						let amount = Self::decrease_balance_on_hold($($asset.clone(),)? reason, who, amount, precision)?;
						Self::increase_balance($($asset,)? who, amount, BestEffort)
					}
					fn set_on_hold($($asset: Self::$AssetId,)? reason: &Self::Reason, who: &AccountId, amount: Self::Balance) -> DispatchResult {
						let current = Self::balance_on_hold($($asset.clone(),)? reason, who);
						if current < amount {
							Self::hold($($asset,)? reason, who, amount.saturating_sub(current))
						} else if current > amount {
							Self::release($($asset,)? reason, who, current.saturating_sub(amount), BestEffort).map(|_| ())
						} else {
							Ok(())
						}
					}
					fn release_all($($asset: Self::$AssetId,)? reason: &Self::Reason, who: &AccountId, precision: Precision) -> Result<Self::Balance, DispatchError> {
						let all = Self::balance_on_hold($($asset.clone(),)? reason, who);
						Self::release($($asset,)? reason, who, all, precision)
					}
					fn burn_held($($asset: Self::$AssetId,)? reason: &Self::Reason, who: &AccountId, mut amount: Self::Balance, precision: Precision, force: Fortitude) -> Result<Self::Balance, DispatchError> {
						let liquid = Self::reducible_total_balance_on_hold($($asset.clone(),)? who, force);
						if let BestEffort = precision { amount = amount.min(liquid) }
						if amount > liquid { return Err(TokenError::Frozen.into()) }
						let amount = Self::decrease_balance_on_hold($($asset.clone(),)? reason, who, amount, precision)?;
						let ti = Self::total_issuance($($asset.clone())?).saturating_sub(amount);
						Self::set_total_issuance($($asset,)? ti);
						Ok(amount)
					}
					fn transfer_on_hold($($asset: Self::$AssetId,)? reason: &Self::Reason, source: &AccountId, dest: &AccountId, mut amount: Self::Balance, precision: Precision, mode: Restriction, force: Fortitude) -> Result<Self::Balance, DispatchError> {
						let have = Self::balance_on_hold($($asset.clone(),)? reason, source);
						let liquid = Self::reducible_total_balance_on_hold($($asset.clone(),)? source, force);
						if let BestEffort = precision { amount = amount.min(liquid).min(have) }
						if amount > liquid { return Err(TokenError::Frozen.into()) }
						if amount > have { return Err(TokenError::FundsUnavailable.into()) }
						Self::can_deposit($($asset.clone(),)? dest, amount, Extant).into_result()?;
						if mode == Restriction::OnHold && !Self::hold_available($($asset.clone(),)? reason, dest) { return Err(TokenError::CannotCreateHold.into()) }
						let amount = Self::decrease_balance_on_hold($($asset.clone(),)? reason, source, amount, precision)?;
						if mode == Restriction::OnHold {
							Self::increase_balance_on_hold($($asset,)? reason, dest, amount, precision)
						} else {
							Self::increase_balance($($asset,)? dest, amount, precision)
						}
					}
					fn transfer_and_hold($($asset: Self::$AssetId,)? reason: &Self::Reason, source: &AccountId, dest: &AccountId, amount: Self::Balance, precision: Precision, expendability: Preservation, force: Fortitude) -> Result<Self::Balance, DispatchError> {
						if !Self::hold_available($($asset.clone(),)? reason, dest) { return Err(TokenError::CannotCreateHold.into()) }
						if Self::can_deposit($($asset.clone(),)? dest, amount, Extant) != DepositConsequence::Success { return Err(TokenError::CannotCreate.into()) }
						let actual = Self::decrease_balance($($asset.clone(),)? source, amount, precision, expendability, force)?;
						Self::increase_balance_on_hold($($asset,)? reason, dest, actual, precision)?;
						Ok(actual)
					}
				}
				pub trait Balanced<AccountId>: super::Balanced<AccountId> + Unbalanced<AccountId> {}
			}
			pub mod freeze {
				use super::*;
				pub trait Inspect<AccountId>: super::Inspect<AccountId> {
					type Id: Encode + TypeInfo + 'static;
					fn balance_frozen($($asset: Self::$AssetId,)? id: &Self::Id, who: &AccountId) -> Self::Balance;
					fn balance_freezable($($asset: Self::$AssetId,)? who: &AccountId) -> Self::Balance { Self::total_balance($($asset,)? who) }
					fn can_freeze($($asset: Self::$AssetId,)? id: &Self::Id, who: &AccountId) -> bool;
				}
				pub trait Mutate<AccountId>: Inspect<AccountId> {
					fn set_freeze($($asset: Self::$AssetId,)? id: &Self::Id, who: &AccountId, amount: Self::Balance) -> DispatchResult;
					fn extend_freeze($($asset: Self::$AssetId,)? id: &Self::Id, who: &AccountId, amount: Self::Balance) -> DispatchResult;
					fn thaw($($asset: Self::$AssetId,)? id: &Self::Id, who: &AccountId) -> DispatchResult;
					fn set_frozen($($asset: Self::$AssetId,)? id: &Self::Id, who: &AccountId, amount: Self::Balance, fortitude: Fortitude) -> DispatchResult {
						let force = fortitude == Force;
						if !(force || Self::balance_freezable($($asset.clone(),)? who) >= amount) { return Err(TokenError::FundsUnavailable.into()) }
						Self::set_freeze($($asset,)? id, who, amount)
					}
					fn ensure_frozen($($asset: Self::$AssetId,)? id: &Self::Id, who: &AccountId, amount: Self::Balance, fortitude: Fortitude) -> DispatchResult {
						let force = fortitude == Force;
						if !(force || Self::balance_freezable($($asset.clone(),)? who) >= amount) { return Err(TokenError::FundsUnavailable.into()) }
						Self::extend_freeze($($asset,)? id, who, amount)
					}
					fn decrease_frozen($($asset: Self::$AssetId,)? id: &Self::Id, who: &AccountId, amount: Self::Balance) -> DispatchResult {
						let a = Self::balance_frozen($($asset.clone(),)? id, who).checked_sub(&amount).ok_or(ArithmeticError::Underflow)?;
						Self::set_freeze($($asset,)? id, who, a)
					}
					fn increase_frozen($($asset: Self::$AssetId,)? id: &Self::Id, who: &AccountId, amount: Self::Balance) -> DispatchResult {
						let a = Self::balance_frozen($($asset.clone(),)? id, who).checked_add(&amount).ok_or(ArithmeticError::Overflow)?;
						Self::set_frozen($($asset,)? id, who, a, Polite)
					}
				}
			}
			token_traits!(@extra $($AssetId)?);
		}
	};
	(@extra $AssetId:ident) => {
		pub trait Create<AccountId>: Inspect<AccountId> {
			fn create(id: Self::$AssetId, admin: AccountId, is_sufficient: bool, min_balance: Self::Balance) -> DispatchResult;
		}
		pub trait Destroy<AccountId>: Inspect<AccountId> {}
		pub mod metadata {}
		pub mod roles {}
	};
	(@extra) => {
		pub struct HoldConsideration<A, F, R, D, Fp = crate::traits::Footprint>(PhantomData<(A, F, R, D, Fp)>);
		pub struct ItemOf<F, A, AccountId>(PhantomData<(F, A, AccountId)>);
	};
}
token_traits!(fungible;);
token_traits!(fungibles; asset AssetId);

pub mod nonfungibles_v2 {
	use crate::Parameter;
	use sp_runtime::{DispatchError, DispatchResult};

	pub trait Inspect<AccountId> {
		type ItemId: Parameter;
		type CollectionId: Parameter;
		fn owner(collection: &Self::CollectionId, item: &Self::ItemId) -> Option<AccountId>;
		fn collection_owner(_collection: &Self::CollectionId) -> Option<AccountId> {
			None
		}
		fn attribute(_c: &Self::CollectionId, _i: &Self::ItemId, _key: &[u8]) -> Option<Vec<u8>> {
			None
		}
		fn system_attribute(_c: &Self::CollectionId, _i: Option<&Self::ItemId>, _key: &[u8]) -> Option<Vec<u8>> {
			None
		}
		fn collection_attribute(_c: &Self::CollectionId, _key: &[u8]) -> Option<Vec<u8>> {
			None
		}
		fn can_transfer(_c: &Self::CollectionId, _i: &Self::ItemId) -> bool {
			true
		}
	}
	pub trait InspectEnumerable<AccountId>: Inspect<AccountId> {
		type OwnedIterator: Iterator<Item = (Self::CollectionId, Self::ItemId)>;
		type OwnedInCollectionIterator: Iterator<Item = Self::ItemId>;
		fn owned(who: &AccountId) -> Self::OwnedIterator;
		fn owned_in_collection(collection: &Self::CollectionId, who: &AccountId) -> Self::OwnedInCollectionIterator;
	}
	pub trait Create<AccountId, CollectionConfig>: Inspect<AccountId> {
		fn create_collection(who: &AccountId, admin: &AccountId, config: &CollectionConfig) -> Result<Self::CollectionId, DispatchError>;
		fn create_collection_with_id(
			collection: Self::CollectionId,
			who: &AccountId,
			admin: &AccountId,
			config: &CollectionConfig,
		) -> Result<(), DispatchError>;
	}
	pub trait Mutate<AccountId, ItemConfig>: Inspect<AccountId> {
		fn mint_into(
			_collection: &Self::CollectionId,
			_item: &Self::ItemId,
			_who: &AccountId,
			_config: &ItemConfig,
			_deposit_collection_owner: bool,
		) -> DispatchResult {
			Err(sp_runtime::TokenError::Unsupported.into())
		}
		fn burn(_c: &Self::CollectionId, _i: &Self::ItemId, _maybe: Option<&AccountId>) -> DispatchResult {
			Err(sp_runtime::TokenError::Unsupported.into())
		}
		fn set_attribute(_c: &Self::CollectionId, _i: &Self::ItemId, _k: &[u8], _v: &[u8]) -> DispatchResult {
			Err(sp_runtime::TokenError::Unsupported.into())
		}
		fn set_item_metadata(_who: Option<&AccountId>, _c: &Self::CollectionId, _i: &Self::ItemId, _d: &[u8]) -> DispatchResult {
			Err(sp_runtime::TokenError::Unsupported.into())
		}
	}
	pub trait Transfer<AccountId>: Inspect<AccountId> {
		fn transfer(collection: &Self::CollectionId, item: &Self::ItemId, destination: &AccountId) -> DispatchResult;
		fn disable_transfer(_c: &Self::CollectionId, _i: &Self::ItemId) -> DispatchResult {
			Err(sp_runtime::TokenError::Unsupported.into())
		}
		fn enable_transfer(_c: &Self::CollectionId, _i: &Self::ItemId) -> DispatchResult {
			Err(sp_runtime::TokenError::Unsupported.into())
		}
	}
	pub trait Trading<AccountId, ItemPrice>: Inspect<AccountId> {
		fn buy_item(collection: &Self::CollectionId, item: &Self::ItemId, buyer: &AccountId, bid_price: &ItemPrice) -> DispatchResult;
		fn set_price(
			collection: &Self::CollectionId,
			item: &Self::ItemId,
			sender: &AccountId,
			price: Option<ItemPrice>,
			whitelisted_buyer: Option<AccountId>,
		) -> DispatchResult;
		fn item_price(collection: &Self::CollectionId, item: &Self::ItemId) -> Option<ItemPrice>;
	}
}
pub mod nonfungible_v2 {
	use super::nonfungibles_v2 as nfs;
	use std::marker::PhantomData;
	pub struct ItemOf<F, A, AccountId>(PhantomData<(F, A, AccountId)>);
	pub trait Mutate<AccountId, ItemConfig, ItemId> {
		fn mint_into(item: &ItemId, who: &AccountId, config: &ItemConfig, deposit: bool) -> sp_runtime::DispatchResult;
	}
	impl<F: nfs::Mutate<AccountId, C>, A: sp_core::Get<F::CollectionId>, AccountId, C> Mutate<AccountId, C, F::ItemId> for ItemOf<F, A, AccountId> {
		fn mint_into(item: &F::ItemId, who: &AccountId, config: &C, deposit: bool) -> sp_runtime::DispatchResult {
			F::mint_into(&A::get(), item, who, config, deposit)
		}
	}
}

pub mod imbalance {
	use super::*;
	/// Puts what is left over into the account.
	pub struct ResolveTo<A, F>(PhantomData<(A, F)>);
	impl<AccountId, A: crate::traits::TypedGet<Type = AccountId>, F: fungible::Balanced<AccountId>> crate::traits::OnUnbalanced<fungible::Credit<AccountId, F>> for ResolveTo<A, F> {
		fn on_nonzero_unbalanced(credit: fungible::Credit<AccountId, F>) {
			let _ = F::resolve(&A::get(), credit).map_err(drop);
		}
	}
	pub struct ResolveAssetTo<A, F>(PhantomData<(A, F)>);
	impl<AccountId, A: crate::traits::TypedGet<Type = AccountId>, F: fungibles::Balanced<AccountId>> crate::traits::OnUnbalanced<fungibles::Credit<AccountId, F>> for ResolveAssetTo<A, F> {
		fn on_nonzero_unbalanced(credit: fungibles::Credit<AccountId, F>) {
			let _ = F::resolve(&A::get(), credit).map_err(drop);
		}
	}
}
pub use imbalance::{ResolveAssetTo, ResolveTo};
pub mod pay {
	use super::*;
	pub struct PayFromAccount<F, A>(PhantomData<(F, A)>);
	pub struct PayAssetFromAccount<F, A>(PhantomData<(F, A)>);
}
pub use pay::{PayAssetFromAccount, PayFromAccount};
pub struct UnityAssetBalanceConversion;
