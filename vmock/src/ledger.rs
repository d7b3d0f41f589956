//! An exact ledger of one or many assets: free, held by reason, frozen by id. Nothing is ever
//! burnt or minted behind the caller's back (no dust removal).
//!
//! `Ledger` is the many-asset face and `Native` the single-asset one (asset `NATIVE`).
use crate::kv;
use frame_support::traits::tokens::{
	fungible, fungibles, DepositConsequence, Fortitude, Precision, Preservation, Provenance, WithdrawConsequence,
};
use parity_scale_codec::{Decode, Encode, FullCodec, MaxEncodedLen};
use scale_info::TypeInfo;
use sp_runtime::{DispatchError, DispatchResult, TokenError};
use std::cell::Cell;
use std::fmt::Debug;
use std::marker::PhantomData;

pub type Balance = u128;

thread_local! {
	static FAIL_AT: Cell<Option<u32>> = const { Cell::new(None) };
	static TICKS: Cell<u32> = const { Cell::new(0) };
}
/// The n-th change from now on fails (0: the next one).
pub fn fail_at(n: Option<u32>) {
	FAIL_AT.with(|f| f.set(n));
	TICKS.with(|t| t.set(0));
}
/// How many changes were tried since `fail_at`.
pub fn ticks() -> u32 {
	TICKS.with(|t| t.get())
}
/// Counts a change, which fails if it is the one asked for.
pub fn tick() -> DispatchResult {
	let n = TICKS.with(|t| t.replace(t.get() + 1));
	if FAIL_AT.with(|f| f.get()) == Some(n) {
		return Err(DispatchError::Other("injected"));
	}
	Ok(())
}

#[derive(Clone, Default, Debug, PartialEq, Eq, Encode, Decode)]
pub struct Asset {
	pub issuance: Balance,
	pub min: Balance,
}
/// The state of one account in one asset.
#[derive(Clone, Default, Debug, PartialEq, Eq, Encode, Decode)]
pub struct Account {
	pub free: Balance,
	pub holds: Vec<(Vec<u8>, Balance)>,
	pub freezes: Vec<(Vec<u8>, Balance)>,
	pub blocked: bool,
}
impl Account {
	pub fn held(&self) -> Balance {
		self.holds.iter().map(|h| h.1).sum()
	}
	pub fn frozen(&self) -> Balance {
		self.freezes.iter().map(|h| h.1).max().unwrap_or(0)
	}
	pub fn total(&self) -> Balance {
		self.free + self.held()
	}
}

pub fn asset_key(a: &[u8]) -> Vec<u8> {
	kv::key("asset", a.to_vec())
}
fn maker_key(a: &[u8]) -> Vec<u8> {
	kv::key("maker", a.to_vec())
}
fn account_key(a: &[u8], who: &[u8]) -> Vec<u8> {
	kv::key("account", (a.to_vec(), who.to_vec()))
}
pub fn asset_of(a: &impl Encode) -> Option<Asset> {
	kv::get(&asset_key(&a.encode()))
}
pub fn set_asset(a: &impl Encode, v: &Asset) {
	kv::put(&asset_key(&a.encode()), v)
}
/// Whom a created asset belongs to, and whether having some of it is enough to exist.
pub fn maker_of(a: &impl Encode) -> Option<(Vec<u8>, bool)> {
	kv::get(&maker_key(&a.encode()))
}
pub fn account_of(a: &impl Encode, who: &impl Encode) -> Account {
	kv::get(&account_key(&a.encode(), &who.encode())).unwrap_or_default()
}
pub fn set_account(a: &impl Encode, who: &impl Encode, v: &Account) {
	kv::put(&account_key(&a.encode(), &who.encode()), v)
}
/// Every account of every asset: (asset, account, state), as encoded keys.
pub fn all_accounts() -> Vec<(Vec<u8>, Vec<u8>, Account)> {
	let p = b"mock:account:".to_vec();
	sp_io::storage::scan(&p)
		.into_iter()
		.map(|(k, v)| {
			let (a, w) = <(Vec<u8>, Vec<u8>)>::decode(&mut &k[p.len()..]).expect("HARNESS-BUG: ledger key");
			(a, w, Account::decode(&mut &v[..]).expect("HARNESS-BUG: ledger value"))
		})
		.collect()
}
/// Creates money out of nothing: set-up only.
pub fn endow(a: &impl Encode, who: &impl Encode, amount: Balance) {
	let mut s = asset_of(a).expect("HARNESS-BUG: asset exists");
	s.issuance += amount;
	set_asset(a, &s);
	let mut x = account_of(a, who);
	x.free += amount;
	set_account(a, who, &x);
}

pub struct Ledger<AccountId, AssetId, HoldReason, FreezeId>(PhantomData<(AccountId, AssetId, HoldReason, FreezeId)>);
/// Like `Ledger`, for the asset given by `A`.
pub struct Native<AccountId, A, HoldReason, FreezeId>(PhantomData<(AccountId, A, HoldReason, FreezeId)>);

pub mod core_ops {
	use super::*;
	pub fn reducible(a: &[u8], who: &[u8], p: Preservation, f: Fortitude) -> Balance {
		let (s, x) = load(a, who);
		if x.blocked && f == Fortitude::Polite {
			return 0;
		}
		let untouchable = if f == Fortitude::Force { 0 } else { x.frozen().saturating_sub(x.held()) };
		let floor = match p {
			Preservation::Expendable => untouchable,
			_ => untouchable.max(s.min),
		};
		x.free.saturating_sub(floor)
	}
	pub fn load(a: &[u8], who: &[u8]) -> (Asset, Account) {
		(kv::get(&asset_key(a)).unwrap_or_default(), kv::get(&account_key(a, who)).unwrap_or_default())
	}
	pub fn store(a: &[u8], who: &[u8], x: &Account) {
		kv::put(&account_key(a, who), x)
	}
	pub fn exists(a: &[u8]) -> bool {
		sp_io::storage::exists(&asset_key(a))
	}
	pub fn can_deposit(a: &[u8], who: &[u8], amount: Balance, p: Provenance) -> DepositConsequence {
		if !exists(a) {
			return DepositConsequence::UnknownAsset;
		}
		if amount == 0 {
			return DepositConsequence::Success;
		}
		let (s, x) = load(a, who);
		if p == Provenance::Minted && s.issuance.checked_add(amount).is_none() {
			return DepositConsequence::Overflow;
		}
		if x.total().checked_add(amount).is_none() {
			return DepositConsequence::Overflow;
		}
		if x.blocked {
			return DepositConsequence::Blocked;
		}
		if x.total() == 0 && amount < s.min {
			return DepositConsequence::BelowMinimum;
		}
		DepositConsequence::Success
	}
	pub fn can_withdraw(a: &[u8], who: &[u8], amount: Balance) -> WithdrawConsequence<Balance> {
		if !exists(a) {
			return WithdrawConsequence::UnknownAsset;
		}
		if amount == 0 {
			return WithdrawConsequence::Success;
		}
		let (s, x) = load(a, who);
		if x.blocked {
			return WithdrawConsequence::Frozen;
		}
		let Some(rest) = x.free.checked_sub(amount) else { return WithdrawConsequence::BalanceLow };
		if rest < x.frozen().saturating_sub(x.held()) {
			return WithdrawConsequence::Frozen;
		}
		if rest < s.min {
			return WithdrawConsequence::ReducedToZero(rest);
		}
		WithdrawConsequence::Success
	}
	pub fn decrease(a: &[u8], who: &[u8], mut amount: Balance, pr: Precision, p: Preservation, f: Fortitude) -> Result<Balance, DispatchError> {
		tick()?;
		let (_, mut x) = load(a, who);
		let r = reducible(a, who, p, f);
		match pr {
			Precision::BestEffort => amount = amount.min(r),
			Precision::Exact if r < amount => return Err(TokenError::FundsUnavailable.into()),
			Precision::Exact => {}
		}
		x.free = x.free.checked_sub(amount).ok_or(TokenError::FundsUnavailable)?;
		store(a, who, &x);
		Ok(amount)
	}
	pub fn held(a: &[u8], who: &[u8], reason: &[u8]) -> Balance {
		load(a, who).1.holds.iter().find(|h| h.0 == reason).map_or(0, |h| h.1)
	}
	pub fn set_held(a: &[u8], who: &[u8], reason: &[u8], amount: Balance) {
		let (_, mut x) = load(a, who);
		x.holds.retain(|h| h.0 != reason);
		if amount > 0 {
			x.holds.push((reason.to_vec(), amount));
			x.holds.sort();
		}
		store(a, who, &x);
	}
	pub fn decrease_held(a: &[u8], who: &[u8], reason: &[u8], mut amount: Balance, pr: Precision) -> Result<Balance, DispatchError> {
		tick()?;
		let old = held(a, who, reason);
		if pr == Precision::BestEffort {
			amount = amount.min(old)
		}
		let new = old.checked_sub(amount).ok_or(TokenError::FundsUnavailable)?;
		set_held(a, who, reason, new);
		Ok(amount)
	}
	pub fn set_freeze(a: &[u8], who: &[u8], id: &[u8], amount: Balance) {
		let (_, mut x) = load(a, who);
		x.freezes.retain(|h| h.0 != id);
		if amount > 0 {
			x.freezes.push((id.to_vec(), amount));
			x.freezes.sort();
		}
		store(a, who, &x);
	}
	pub fn frozen(a: &[u8], who: &[u8], id: &[u8]) -> Balance {
		load(a, who).1.freezes.iter().find(|h| h.0 == id).map_or(0, |h| h.1)
	}
}

/// Gives `$t` the faces of the ledger.
#[macro_export]
macro_rules! implement_ledger {
	($m:ident, [$($g:tt)*], $t:ty, [$($bound:tt)*], account $Acc:ty, reason $Hold:ty, freeze $Freeze:ty, ($($asset:ident)?) $(, assoc $AssetId:ident = $at:ty)?, enc $enc:expr) => {
		$crate::implement_ledger!(@money $m, [$($g)*], $t, [$($bound)*], account $Acc, ($($asset)?) $(, assoc $AssetId = $at)?, enc $enc);
		$crate::implement_ledger!(@hold $m, [$($g)*], $t, [$($bound)*], account $Acc, reason $Hold, ($($asset)?), enc $enc);
		$crate::implement_ledger!(@freeze $m, [$($g)*], $t, [$($bound)*], account $Acc, freeze $Freeze, ($($asset)?), enc $enc);
	};
	(@money $m:ident, [$($g:tt)*], $t:ty, [$($bound:tt)*], account $Acc:ty, ($($asset:ident)?) $(, assoc $AssetId:ident = $at:ty)?, enc $enc:expr) => {
		impl<$($g)*> $m::Inspect<$Acc> for $t where $($bound)* {
			$(type $AssetId = $at;)?
			type Balance = u128;
			fn total_issuance($($asset: Self::AssetId)?) -> u128 { let a = $enc; $crate::ledger::core_ops::load(&a, &[]).0.issuance }
			fn minimum_balance($($asset: Self::AssetId)?) -> u128 { let a = $enc; $crate::ledger::core_ops::load(&a, &[]).0.min }
			fn total_balance($($asset: Self::AssetId,)? who: &$Acc) -> u128 { let a = $enc; $crate::ledger::core_ops::load(&a, &who.encode()).1.total() }
			fn balance($($asset: Self::AssetId,)? who: &$Acc) -> u128 { let a = $enc; $crate::ledger::core_ops::load(&a, &who.encode()).1.free }
			fn reducible_balance($($asset: Self::AssetId,)? who: &$Acc, p: $crate::frame_support::traits::tokens::Preservation, f: $crate::frame_support::traits::tokens::Fortitude) -> u128 { let a = $enc; $crate::ledger::core_ops::reducible(&a, &who.encode(), p, f) }
			fn can_deposit($($asset: Self::AssetId,)? who: &$Acc, amount: u128, p: $crate::frame_support::traits::tokens::Provenance) -> $crate::frame_support::traits::tokens::DepositConsequence { let a = $enc; $crate::ledger::core_ops::can_deposit(&a, &who.encode(), amount, p) }
			fn can_withdraw($($asset: Self::AssetId,)? who: &$Acc, amount: u128) -> $crate::frame_support::traits::tokens::WithdrawConsequence<u128> { let a = $enc; $crate::ledger::core_ops::can_withdraw(&a, &who.encode(), amount) }
			$(fn asset_exists($asset: Self::AssetId) -> bool { let a = $enc; $crate::ledger::core_ops::exists(&a) })?
		}
		impl<$($g)*> $m::Unbalanced<$Acc> for $t where $($bound)* {
			fn write_balance($($asset: Self::AssetId,)? who: &$Acc, amount: u128) -> Result<Option<u128>, $crate::sp_runtime::DispatchError> {
				let a = $enc;
				let (_, mut x) = $crate::ledger::core_ops::load(&a, &who.encode());
				x.free = amount;
				$crate::ledger::core_ops::store(&a, &who.encode(), &x);
				Ok(None)
			}
			fn set_total_issuance($($asset: Self::AssetId,)? amount: u128) {
				let a = $enc;
				let (mut s, _) = $crate::ledger::core_ops::load(&a, &[]);
				s.issuance = amount;
				$crate::kv::put(&$crate::ledger::asset_key(&a), &s);
			}
			fn decrease_balance($($asset: Self::AssetId,)? who: &$Acc, amount: u128, pr: $crate::frame_support::traits::tokens::Precision, p: $crate::frame_support::traits::tokens::Preservation, f: $crate::frame_support::traits::tokens::Fortitude) -> Result<u128, $crate::sp_runtime::DispatchError> {
				let a = $enc;
				$crate::ledger::core_ops::decrease(&a, &who.encode(), amount, pr, p, f)
			}
		}
		impl<$($g)*> $m::Mutate<$Acc> for $t where $($bound)* {}
		impl<$($g)*> $m::Balanced<$Acc> for $t where $($bound)* {
			type OnDropDebt = $m::IncreaseIssuance<$Acc, Self>;
			type OnDropCredit = $m::DecreaseIssuance<$Acc, Self>;
		}
	};
	(@hold $m:ident, [$($g:tt)*], $t:ty, [$($bound:tt)*], account $Acc:ty, reason $Hold:ty, ($($asset:ident)?), enc $enc:expr) => {
		impl<$($g)*> $m::hold::Inspect<$Acc> for $t where $($bound)* {
			type Reason = $Hold;
			fn total_balance_on_hold($($asset: Self::AssetId,)? who: &$Acc) -> u128 { let a = $enc; $crate::ledger::core_ops::load(&a, &who.encode()).1.held() }
			fn balance_on_hold($($asset: Self::AssetId,)? reason: &$Hold, who: &$Acc) -> u128 { let a = $enc; $crate::ledger::core_ops::held(&a, &who.encode(), &reason.encode()) }
		}
		impl<$($g)*> $m::hold::Unbalanced<$Acc> for $t where $($bound)* {
			fn set_balance_on_hold($($asset: Self::AssetId,)? reason: &$Hold, who: &$Acc, amount: u128) -> $crate::sp_runtime::DispatchResult {
				let a = $enc;
				$crate::ledger::core_ops::set_held(&a, &who.encode(), &reason.encode(), amount);
				Ok(())
			}
			fn decrease_balance_on_hold($($asset: Self::AssetId,)? reason: &$Hold, who: &$Acc, amount: u128, pr: $crate::frame_support::traits::tokens::Precision) -> Result<u128, $crate::sp_runtime::DispatchError> {
				let a = $enc;
				$crate::ledger::core_ops::decrease_held(&a, &who.encode(), &reason.encode(), amount, pr)
			}
		}
		impl<$($g)*> $m::hold::Mutate<$Acc> for $t where $($bound)* {}
		impl<$($g)*> $m::hold::Balanced<$Acc> for $t where $($bound)* {}
	};
	(@freeze $m:ident, [$($g:tt)*], $t:ty, [$($bound:tt)*], account $Acc:ty, freeze $Freeze:ty, ($($asset:ident)?), enc $enc:expr) => {
		impl<$($g)*> $m::freeze::Inspect<$Acc> for $t where $($bound)* {
			type Id = $Freeze;
			fn balance_frozen($($asset: Self::AssetId,)? id: &$Freeze, who: &$Acc) -> u128 { let a = $enc; $crate::ledger::core_ops::frozen(&a, &who.encode(), &id.encode()) }
			fn can_freeze($($asset: Self::AssetId,)? _id: &$Freeze, _who: &$Acc) -> bool { $(let _ = $asset;)? true }
		}
		impl<$($g)*> $m::freeze::Mutate<$Acc> for $t where $($bound)* {
			fn set_freeze($($asset: Self::AssetId,)? id: &$Freeze, who: &$Acc, amount: u128) -> $crate::sp_runtime::DispatchResult {
				$crate::ledger::tick()?;
				let a = $enc;
				$crate::ledger::core_ops::set_freeze(&a, &who.encode(), &id.encode(), amount);
				Ok(())
			}
			fn extend_freeze($($asset: Self::AssetId,)? id: &$Freeze, who: &$Acc, amount: u128) -> $crate::sp_runtime::DispatchResult {
				$crate::ledger::tick()?;
				let a = $enc;
				let now = $crate::ledger::core_ops::frozen(&a, &who.encode(), &id.encode());
				$crate::ledger::core_ops::set_freeze(&a, &who.encode(), &id.encode(), now.max(amount));
				Ok(())
			}
			fn thaw($($asset: Self::AssetId,)? id: &$Freeze, who: &$Acc) -> $crate::sp_runtime::DispatchResult {
				$crate::ledger::tick()?;
				let a = $enc;
				$crate::ledger::core_ops::set_freeze(&a, &who.encode(), &id.encode(), 0);
				Ok(())
			}
		}
	};
}
implement_ledger!(
	fungibles,
	[AccountId, AssetId, HoldReason, FreezeId],
	Ledger<AccountId, AssetId, HoldReason, FreezeId>,
	[
		AccountId: Encode + Eq,
		AssetId: FullCodec + Clone + Eq + Debug + TypeInfo + MaxEncodedLen,
		HoldReason: Encode + TypeInfo + 'static,
		FreezeId: Encode + TypeInfo + 'static
	],
	account AccountId, reason HoldReason, freeze FreezeId, (asset), assoc AssetId = AssetId, enc asset.encode()
);
implement_ledger!(
	fungible,
	[AccountId, A, HoldReason, FreezeId],
	Native<AccountId, A, HoldReason, FreezeId>,
	[
		AccountId: Encode + Eq,
		A: frame_support::traits::TypedGet,
		A::Type: Encode,
		HoldReason: Encode + TypeInfo + 'static,
		FreezeId: Encode + TypeInfo + 'static
	],
	account AccountId, reason HoldReason, freeze FreezeId, (), enc <A as frame_support::traits::TypedGet>::get().encode()
);
impl<AccountId, AssetId, HoldReason, FreezeId> fungibles::Create<AccountId> for Ledger<AccountId, AssetId, HoldReason, FreezeId>
where
	AccountId: Encode + Eq,
	AssetId: FullCodec + Clone + Eq + Debug + TypeInfo + MaxEncodedLen,
	HoldReason: Encode + TypeInfo + 'static,
	FreezeId: Encode + TypeInfo + 'static,
{
	fn create(id: AssetId, admin: AccountId, sufficient: bool, min: Balance) -> DispatchResult {
		if asset_of(&id).is_some() {
			return Err(DispatchError::Other("asset in use"));
		}
		set_asset(&id, &Asset { issuance: 0, min });
		kv::put(&maker_key(&id.encode()), &(admin.encode(), sufficient));
		Ok(())
	}
}
