//! Balances and assets, on the exact ledger of `vmock`.

/// The key of the native token in the ledger. Assets are kept under their own encoded ids.
pub const NATIVE: &[u8; 6] = b"native";

pub mod pallet_balances {
	pub use pallet::*;
	pub mod weights {
		pub struct SubstrateWeight<T>(std::marker::PhantomData<T>);
	}
	#[derive(Clone, PartialEq, Eq, Default, Debug)]
	pub struct AccountData<Balance> {
		pub free: Balance,
	}
	#[frame_support::pallet]
	pub mod pallet {
		use frame_support::pallet_prelude::*;
		use frame_support::traits::fungible::{self, Mutate};
		use frame_support::traits::tokens::Preservation::{Expendable, Preserve};
		use frame_support::traits::tokens::{Fortitude, Precision};
		use frame_system::pallet_prelude::*;
		use sp_runtime::traits::StaticLookup;
		#[pallet::config]
		pub trait Config<I: 'static = ()>: frame_system::Config {
			type RuntimeEvent;
			type MaxLocks;
			type Balance;
			type DustRemoval;
			type ExistentialDeposit: Get<u128>;
			type AccountStore;
			type WeightInfo;
			type MaxReserves;
			type ReserveIdentifier;
			type RuntimeHoldReason: Encode + TypeInfo + 'static;
			type FreezeIdentifier: Encode + TypeInfo + 'static;
			type MaxFreezes;
			type RuntimeFreezeReason;
		}
		#[pallet::pallet]
		pub struct Pallet<T, I = ()>(_);
		#[pallet::event]
		pub enum Event<T: Config<I>, I: 'static = ()> {
			Nothing,
		}
		pub type AccountIdLookupOf<T> = <<T as frame_system::Config>::Lookup as StaticLookup>::Source;
		#[pallet::call]
		impl<T: Config<I>, I: 'static> Pallet<T, I> {
			#[pallet::call_index(0)]
			pub fn transfer_allow_death(origin: OriginFor<T>, dest: AccountIdLookupOf<T>, #[pallet::compact] value: u128) -> DispatchResult {
				let from = ensure_signed(origin)?;
				let dest = T::Lookup::lookup(dest)?;
				<Self as Mutate<T::AccountId>>::transfer(&from, &dest, value, Expendable).map(|_| ())
			}
			#[pallet::call_index(2)]
			pub fn force_transfer(
				origin: OriginFor<T>,
				source: AccountIdLookupOf<T>,
				dest: AccountIdLookupOf<T>,
				#[pallet::compact] value: u128,
			) -> DispatchResult {
				ensure_root(origin)?;
				let source = T::Lookup::lookup(source)?;
				let dest = T::Lookup::lookup(dest)?;
				<Self as Mutate<T::AccountId>>::transfer(&source, &dest, value, Expendable).map(|_| ())
			}
			#[pallet::call_index(3)]
			pub fn transfer_keep_alive(origin: OriginFor<T>, dest: AccountIdLookupOf<T>, #[pallet::compact] value: u128) -> DispatchResult {
				let from = ensure_signed(origin)?;
				let dest = T::Lookup::lookup(dest)?;
				<Self as Mutate<T::AccountId>>::transfer(&from, &dest, value, Preserve).map(|_| ())
			}
			#[pallet::call_index(4)]
			pub fn transfer_all(_origin: OriginFor<T>, _dest: AccountIdLookupOf<T>, _keep_alive: bool) -> DispatchResult {
				panic!("SHIM-UNSUPPORTED: pallet_balances::transfer_all")
			}
			#[pallet::call_index(5)]
			pub fn force_unreserve(_origin: OriginFor<T>, _who: AccountIdLookupOf<T>, _amount: u128) -> DispatchResult {
				panic!("SHIM-UNSUPPORTED: pallet_balances::force_unreserve")
			}
			#[pallet::call_index(6)]
			pub fn upgrade_accounts(_origin: OriginFor<T>, _who: Vec<T::AccountId>) -> DispatchResult {
				panic!("SHIM-UNSUPPORTED: pallet_balances::upgrade_accounts")
			}
			#[pallet::call_index(8)]
			pub fn force_set_balance(_origin: OriginFor<T>, _who: AccountIdLookupOf<T>, #[pallet::compact] _new_free: u128) -> DispatchResult {
				panic!("SHIM-UNSUPPORTED: pallet_balances::force_set_balance")
			}
			#[pallet::call_index(9)]
			pub fn force_adjust_total_issuance(_origin: OriginFor<T>) -> DispatchResult {
				panic!("SHIM-UNSUPPORTED: pallet_balances::force_adjust_total_issuance")
			}
			#[pallet::call_index(10)]
			pub fn burn(origin: OriginFor<T>, #[pallet::compact] value: u128, keep_alive: bool) -> DispatchResult {
				let from = ensure_signed(origin)?;
				let p = if keep_alive { Preserve } else { Expendable };
				<Self as Mutate<T::AccountId>>::burn_from(&from, value, p, Precision::Exact, Fortitude::Polite).map(|_| ())
			}
		}
		vmock::implement_ledger!(
			fungible, [T: Config<I>, I: 'static], Pallet<T, I>, [],
			account T::AccountId, reason T::RuntimeHoldReason, freeze T::FreezeIdentifier, (), enc crate::money::NATIVE.encode()
		);
		impl<T: Config<I>, I: 'static> Pallet<T, I> {
			pub fn free_balance(who: impl std::borrow::Borrow<T::AccountId>) -> u128 {
				<Self as fungible::Inspect<T::AccountId>>::balance(who.borrow())
			}
		}
		pub struct PositiveImbalance<T, I>(PhantomData<(T, I)>);
		pub struct NegativeImbalance<T, I>(PhantomData<(T, I)>);
		impl<T: Config<I>, I: 'static> frame_support::traits::Currency<T::AccountId> for Pallet<T, I> {
			type Balance = u128;
			type PositiveImbalance = PositiveImbalance<T, I>;
			type NegativeImbalance = NegativeImbalance<T, I>;
			fn free_balance(who: &T::AccountId) -> u128 {
				<Self as fungible::Inspect<T::AccountId>>::balance(who)
			}
			fn total_balance(who: &T::AccountId) -> u128 {
				<Self as fungible::Inspect<T::AccountId>>::total_balance(who)
			}
			fn minimum_balance() -> u128 {
				T::ExistentialDeposit::get()
			}
		}
	}
}

pub mod pallet_assets {
	pub use frame_support::instances::*;
	pub use pallet::*;
	pub mod weights {
		pub struct SubstrateWeight<T>(std::marker::PhantomData<T>);
	}
	/// Who may act on an asset.
	#[derive(Clone, PartialEq, Eq, Debug, parity_scale_codec::Encode, parity_scale_codec::Decode)]
	pub struct Roles<AccountId> {
		pub owner: AccountId,
		pub admin: AccountId,
	}
	#[frame_support::pallet]
	pub mod pallet {
		use super::Roles;
		use frame_support::pallet_prelude::*;
		use frame_support::traits::fungibles::{self, Mutate};
		use frame_support::traits::tokens::Preservation::{Expendable, Preserve};
		use frame_support::traits::tokens::{AssetId as AssetIdT, Fortitude, Precision};
		use frame_support::traits::EnsureOriginWithArg;
		use frame_system::pallet_prelude::*;
		use sp_runtime::traits::StaticLookup;
		use vmock::{kv, ledger};
		#[pallet::config]
		pub trait Config<I: 'static = ()>: frame_system::Config {
			type RuntimeEvent;
			type Balance;
			type AssetId: AssetIdT;
			type AssetIdParameter: Parameter + From<Self::AssetId> + Into<Self::AssetId>;
			type Currency;
			type CreateOrigin: EnsureOriginWithArg<Self::RuntimeOrigin, Self::AssetId, Success = Self::AccountId>;
			type ForceOrigin: EnsureOrigin<Self::RuntimeOrigin>;
			type AssetDeposit;
			type AssetAccountDeposit;
			type MetadataDepositBase;
			type MetadataDepositPerByte;
			type ApprovalDeposit;
			type StringLimit;
			type Freezer;
			type Extra;
			type WeightInfo: WeightInfo;
			type CallbackHandle;
			type RemoveItemsLimit;
			type MaxHolds;
			type RuntimeHoldReason: Encode + TypeInfo + 'static;
		}
		#[pallet::pallet]
		pub struct Pallet<T, I = ()>(_);
		#[pallet::event]
		pub enum Event<T: Config<I>, I: 'static = ()> {
			Nothing,
		}
		#[pallet::error]
		pub enum Error<T, I = ()> {
			NoPermission,
			Unknown,
			InUse,
			MinBalanceZero,
		}
		pub type AccountIdLookupOf<T> = <<T as frame_system::Config>::Lookup as StaticLookup>::Source;
		fn role_key<A: Encode>(a: &A) -> Vec<u8> {
			kv::key("asset roles", a)
		}
		macro_rules! unsupported {
			($n:ident) => {
				panic!(concat!("SHIM-UNSUPPORTED: pallet_assets::", stringify!($n)))
			};
		}
		#[pallet::call]
		impl<T: Config<I>, I: 'static> Pallet<T, I> {
			#[pallet::call_index(0)]
			pub fn create(origin: OriginFor<T>, id: T::AssetIdParameter, admin: AccountIdLookupOf<T>, min_balance: u128) -> DispatchResult {
				let id: T::AssetId = id.into();
				let owner = T::CreateOrigin::ensure_origin(origin, &id)?;
				let admin = T::Lookup::lookup(admin)?;
				ensure!(!Self::exists(&id), Error::<T, I>::InUse);
				ensure!(min_balance > 0, Error::<T, I>::MinBalanceZero);
				Self::do_create(id, owner, admin, min_balance)
			}
			#[pallet::call_index(1)]
			pub fn force_create(
				origin: OriginFor<T>,
				id: T::AssetIdParameter,
				owner: AccountIdLookupOf<T>,
				_is_sufficient: bool,
				#[pallet::compact] min_balance: u128,
			) -> DispatchResult {
				T::ForceOrigin::ensure_origin(origin)?;
				let owner = T::Lookup::lookup(owner)?;
				let id: T::AssetId = id.into();
				ensure!(!Self::exists(&id), Error::<T, I>::InUse);
				ensure!(min_balance > 0, Error::<T, I>::MinBalanceZero);
				Self::do_create(id, owner.clone(), owner, min_balance)
			}
			#[pallet::call_index(2)]
			pub fn start_destroy(_origin: OriginFor<T>, _id: T::AssetIdParameter) -> DispatchResult {
				unsupported!(start_destroy)
			}
			#[pallet::call_index(3)]
			pub fn destroy_accounts(_origin: OriginFor<T>, _id: T::AssetIdParameter) -> DispatchResult {
				unsupported!(destroy_accounts)
			}
			#[pallet::call_index(4)]
			pub fn destroy_approvals(_origin: OriginFor<T>, _id: T::AssetIdParameter) -> DispatchResult {
				unsupported!(destroy_approvals)
			}
			#[pallet::call_index(5)]
			pub fn finish_destroy(_origin: OriginFor<T>, _id: T::AssetIdParameter) -> DispatchResult {
				unsupported!(finish_destroy)
			}
			#[pallet::call_index(6)]
			pub fn mint(origin: OriginFor<T>, id: T::AssetIdParameter, beneficiary: AccountIdLookupOf<T>, #[pallet::compact] amount: u128) -> DispatchResult {
				let who = ensure_signed(origin)?;
				let beneficiary = T::Lookup::lookup(beneficiary)?;
				let id: T::AssetId = id.into();
				ensure!(Self::roles(&id).ok_or(Error::<T, I>::Unknown)?.admin == who, Error::<T, I>::NoPermission);
				<Self as Mutate<T::AccountId>>::mint_into(id, &beneficiary, amount).map(|_| ())
			}
			#[pallet::call_index(7)]
			pub fn burn(origin: OriginFor<T>, id: T::AssetIdParameter, who: AccountIdLookupOf<T>, #[pallet::compact] amount: u128) -> DispatchResult {
				let by = ensure_signed(origin)?;
				let who = T::Lookup::lookup(who)?;
				let id: T::AssetId = id.into();
				ensure!(Self::roles(&id).ok_or(Error::<T, I>::Unknown)?.admin == by, Error::<T, I>::NoPermission);
				<Self as Mutate<T::AccountId>>::burn_from(id, &who, amount, Expendable, Precision::BestEffort, Fortitude::Force).map(|_| ())
			}
			#[pallet::call_index(8)]
			pub fn transfer(origin: OriginFor<T>, id: T::AssetIdParameter, target: AccountIdLookupOf<T>, #[pallet::compact] amount: u128) -> DispatchResult {
				let from = ensure_signed(origin)?;
				let to = T::Lookup::lookup(target)?;
				<Self as Mutate<T::AccountId>>::transfer(id.into(), &from, &to, amount, Expendable).map(|_| ())
			}
			#[pallet::call_index(9)]
			pub fn transfer_keep_alive(
				origin: OriginFor<T>,
				id: T::AssetIdParameter,
				target: AccountIdLookupOf<T>,
				#[pallet::compact] amount: u128,
			) -> DispatchResult {
				let from = ensure_signed(origin)?;
				let to = T::Lookup::lookup(target)?;
				<Self as Mutate<T::AccountId>>::transfer(id.into(), &from, &to, amount, Preserve).map(|_| ())
			}
			#[pallet::call_index(10)]
			pub fn force_transfer(_origin: OriginFor<T>, _id: T::AssetIdParameter) -> DispatchResult {
				unsupported!(force_transfer)
			}
			#[pallet::call_index(11)]
			pub fn freeze(_origin: OriginFor<T>, _id: T::AssetIdParameter) -> DispatchResult {
				unsupported!(freeze)
			}
			#[pallet::call_index(12)]
			pub fn thaw(_origin: OriginFor<T>, _id: T::AssetIdParameter) -> DispatchResult {
				unsupported!(thaw)
			}
			#[pallet::call_index(13)]
			pub fn freeze_asset(_origin: OriginFor<T>, _id: T::AssetIdParameter) -> DispatchResult {
				unsupported!(freeze_asset)
			}
			#[pallet::call_index(14)]
			pub fn thaw_asset(_origin: OriginFor<T>, _id: T::AssetIdParameter) -> DispatchResult {
				unsupported!(thaw_asset)
			}
			#[pallet::call_index(15)]
			pub fn transfer_ownership(_origin: OriginFor<T>, _id: T::AssetIdParameter) -> DispatchResult {
				unsupported!(transfer_ownership)
			}
			#[pallet::call_index(16)]
			pub fn set_team(_origin: OriginFor<T>, _id: T::AssetIdParameter) -> DispatchResult {
				unsupported!(set_team)
			}
			#[pallet::call_index(17)]
			pub fn set_metadata(_origin: OriginFor<T>, _id: T::AssetIdParameter) -> DispatchResult {
				unsupported!(set_metadata)
			}
			#[pallet::call_index(18)]
			pub fn clear_metadata(_origin: OriginFor<T>, _id: T::AssetIdParameter) -> DispatchResult {
				unsupported!(clear_metadata)
			}
			#[pallet::call_index(19)]
			pub fn force_set_metadata(_origin: OriginFor<T>, _id: T::AssetIdParameter) -> DispatchResult {
				unsupported!(force_set_metadata)
			}
			#[pallet::call_index(20)]
			pub fn force_clear_metadata(_origin: OriginFor<T>, _id: T::AssetIdParameter) -> DispatchResult {
				unsupported!(force_clear_metadata)
			}
			#[pallet::call_index(21)]
			pub fn force_asset_status(_origin: OriginFor<T>, _id: T::AssetIdParameter) -> DispatchResult {
				unsupported!(force_asset_status)
			}
			#[pallet::call_index(22)]
			pub fn approve_transfer(_origin: OriginFor<T>, _id: T::AssetIdParameter) -> DispatchResult {
				unsupported!(approve_transfer)
			}
			#[pallet::call_index(23)]
			pub fn cancel_approval(_origin: OriginFor<T>, _id: T::AssetIdParameter) -> DispatchResult {
				unsupported!(cancel_approval)
			}
			#[pallet::call_index(24)]
			pub fn force_cancel_approval(_origin: OriginFor<T>, _id: T::AssetIdParameter) -> DispatchResult {
				unsupported!(force_cancel_approval)
			}
			#[pallet::call_index(25)]
			pub fn transfer_approved(_origin: OriginFor<T>, _id: T::AssetIdParameter) -> DispatchResult {
				unsupported!(transfer_approved)
			}
			#[pallet::call_index(26)]
			pub fn touch(_origin: OriginFor<T>, _id: T::AssetIdParameter) -> DispatchResult {
				unsupported!(touch)
			}
			#[pallet::call_index(27)]
			pub fn refund(_origin: OriginFor<T>, _id: T::AssetIdParameter, _allow_burn: bool) -> DispatchResult {
				unsupported!(refund)
			}
			#[pallet::call_index(28)]
			pub fn set_min_balance(_origin: OriginFor<T>, _id: T::AssetIdParameter) -> DispatchResult {
				unsupported!(set_min_balance)
			}
			#[pallet::call_index(29)]
			pub fn touch_other(_origin: OriginFor<T>, _id: T::AssetIdParameter) -> DispatchResult {
				unsupported!(touch_other)
			}
			#[pallet::call_index(30)]
			pub fn refund_other(_origin: OriginFor<T>, _id: T::AssetIdParameter) -> DispatchResult {
				unsupported!(refund_other)
			}
			#[pallet::call_index(31)]
			pub fn block(_origin: OriginFor<T>, _id: T::AssetIdParameter) -> DispatchResult {
				unsupported!(block)
			}
			#[pallet::call_index(32)]
			pub fn transfer_all(_origin: OriginFor<T>, _id: T::AssetIdParameter) -> DispatchResult {
				unsupported!(transfer_all)
			}
		}
		impl<T: Config<I>, I: 'static> Pallet<T, I> {
			fn exists(id: &T::AssetId) -> bool {
				ledger::asset_of(id).is_some()
			}
			pub fn account_balances(who: T::AccountId) -> Vec<(T::AssetId, u128)> {
				let (native, who) = (crate::money::NATIVE.encode(), who.encode());
				let of = |id: Vec<u8>| T::AssetId::decode(&mut &id[..]).expect("HARNESS-BUG: an asset's id");
				ledger::all_accounts().into_iter().filter(|(a, w, _)| *a != native && *w == who).map(|(a, _, x)| (of(a), x.free)).collect()
			}
			pub fn roles(id: &T::AssetId) -> Option<Roles<T::AccountId>> {
				kv::get(&role_key(id))
			}
			fn do_create(id: T::AssetId, owner: T::AccountId, admin: T::AccountId, min: u128) -> DispatchResult {
				ledger::set_asset(&id, &ledger::Asset { issuance: 0, min });
				kv::put(&role_key(&id), &Roles { owner, admin });
				Ok(())
			}
		}
		vmock::implement_ledger!(
			@money fungibles, [T: Config<I>, I: 'static], Pallet<T, I>, [],
			account T::AccountId, (asset), assoc AssetId = T::AssetId, enc asset.encode()
		);
		vmock::implement_ledger!(
			@hold fungibles, [T: Config<I>, I: 'static], Pallet<T, I>, [],
			account T::AccountId, reason T::RuntimeHoldReason, (asset), enc asset.encode()
		);
		impl<T: Config<I>, I: 'static> fungibles::Create<T::AccountId> for Pallet<T, I> {
			fn create(id: T::AssetId, admin: T::AccountId, _sufficient: bool, min: u128) -> DispatchResult {
				ensure!(!Self::exists(&id), Error::<T, I>::InUse);
				ensure!(min > 0, Error::<T, I>::MinBalanceZero);
				Self::do_create(id, admin.clone(), admin, min)
			}
		}
		/// At the rate of the minimum balances. (Every asset here is sufficient.)
		pub struct BalanceToAssetBalance<F, T, CON, I = ()>(PhantomData<(F, T, CON, I)>);
		impl<F, T, CON, I> frame_support::traits::tokens::ConversionToAssetBalance<u128, T::AssetId, u128> for BalanceToAssetBalance<F, T, CON, I>
		where
			F: frame_support::traits::fungible::Inspect<T::AccountId, Balance = u128>,
			T: Config<I>,
			I: 'static,
		{
			type Error = ();
			fn to_asset_balance(balance: u128, id: T::AssetId) -> Result<u128, ()> {
				let asset = ledger::asset_of(&id).ok_or(())?;
				let min = F::minimum_balance();
				if min == 0 {
					return Err(());
				}
				Ok(balance.checked_mul(asset.min).map_or(u128::MAX, |x| x / min))
			}
		}

		macro_rules! weight_info { ($($n:ident($($a:ident),*);)*) => { pub trait WeightInfo { $(fn $n($($a: u32),*) -> Weight;)* } impl WeightInfo for () { $(fn $n($($a: u32),*) -> Weight { Weight::zero() })* } } }
		weight_info! {
			create(); force_create(); start_destroy(); destroy_accounts(c); destroy_approvals(a); finish_destroy(); mint(); burn(); transfer();
			transfer_keep_alive(); force_transfer(); freeze(); thaw(); freeze_asset(); thaw_asset(); transfer_ownership(); set_team(); set_metadata(n, s);
			clear_metadata(); force_set_metadata(n, s); force_clear_metadata(); force_asset_status(); approve_transfer(); transfer_approved();
			cancel_approval(); force_cancel_approval(); set_min_balance(); touch(); touch_other(); refund(); refund_other(); block(); transfer_all();
		}
	}
}

pub mod pallet_assets_freezer {
	pub use frame_support::instances::*;
	pub use pallet::*;
	#[frame_support::pallet]
	pub mod pallet {
		use crate::pallet_assets;
		use frame_support::pallet_prelude::*;
		use frame_support::traits::fungibles;
		#[pallet::config]
		pub trait Config<I: 'static = ()>: frame_system::Config + pallet_assets::Config<I> {
			type RuntimeEvent;
			type RuntimeFreezeReason: Encode + TypeInfo + 'static;
		}
		#[pallet::pallet]
		pub struct Pallet<T, I = ()>(_);
		#[pallet::event]
		pub enum Event<T: Config<I>, I: 'static = ()> {
			Nothing,
		}
		vmock::implement_ledger!(
			@money fungibles, [T: Config<I>, I: 'static], Pallet<T, I>, [],
			account T::AccountId, (asset), assoc AssetId = <T as pallet_assets::Config<I>>::AssetId, enc asset.encode()
		);
		vmock::implement_ledger!(
			@freeze fungibles, [T: Config<I>, I: 'static], Pallet<T, I>, [],
			account T::AccountId, freeze T::RuntimeFreezeReason, (asset), enc asset.encode()
		);
	}
}
