//! Governance: tasks, preimages, memberships, referenda and their tracks, the collective, pass.
//! State is kept by `vmock::kv`, one tag for each instance.
use parity_scale_codec::{Decode, Encode};
use vmock::kv;

fn tag<I: 'static>(what: &str) -> String {
	format!("{what}<{}>", std::any::type_name::<I>())
}
fn all<K: Decode, V: Decode>(tag: &str) -> Vec<(K, V)> {
	let prefix = kv::key(tag, ());
	sp_io::storage::scan(&prefix)
		.into_iter()
		.map(|(k, v)| {
			(
				K::decode(&mut &k[prefix.len()..]).expect("HARNESS-BUG: key"),
				V::decode(&mut &v[..]).expect("HARNESS-BUG: value"),
			)
		})
		.collect()
}
fn once<K: Encode, V: Encode>(tag: &str, k: K, v: &V) -> sp_runtime::DispatchResult {
	let key = kv::key(tag, k);
	if sp_io::storage::exists(&key) {
		return Err(sp_runtime::DispatchError::Other("taken"));
	}
	kv::put(&key, v);
	Ok(())
}

pub mod pallet_scheduler {
	pub use pallet::*;
	pub mod weights {
		pub struct SubstrateWeight<T>(std::marker::PhantomData<T>);
	}
	#[frame_support::pallet]
	pub mod pallet {
		use frame_support::pallet_prelude::*;
		use frame_support::traits::schedule::{v3, DispatchTime, Period, Priority};
		use frame_support::traits::{Bounded, EnsureOrigin, OriginTrait, StorePreimage};
		use frame_support::Parameter;
		use frame_system::pallet_prelude::*;
		use parity_scale_codec::Codec;
		use sp_runtime::traits::Dispatchable;
		#[pallet::config]
		pub trait Config: frame_system::Config {
			type RuntimeEvent;
			type RuntimeOrigin: OriginTrait<PalletsOrigin = Self::PalletsOrigin> + From<Self::PalletsOrigin>;
			type PalletsOrigin: Codec + Clone + Eq + TypeInfo + MaxEncodedLen + Into<<Self as frame_system::Config>::RuntimeOrigin>;
			type RuntimeCall: Parameter + Dispatchable<RuntimeOrigin = <Self as frame_system::Config>::RuntimeOrigin>;
			type MaximumWeight: Get<Weight>;
			type ScheduleOrigin: EnsureOrigin<<Self as frame_system::Config>::RuntimeOrigin>;
			type OriginPrivilegeCmp: frame_support::traits::PrivilegeCmp<Self::PalletsOrigin>;
			type MaxScheduledPerBlock: Get<u32>;
			type WeightInfo;
			type Preimages: StorePreimage;
		}
		#[pallet::pallet]
		pub struct Pallet<T>(_);
		#[pallet::event]
		pub enum Event<T: Config> {
			Nothing,
		}
		#[pallet::call]
		impl<T: Config> Pallet<T> {
			#[pallet::call_index(0)]
			pub fn schedule(
				origin: OriginFor<T>,
				when: BlockNumberFor<T>,
				_maybe_periodic: Option<Period<BlockNumberFor<T>>>,
				_priority: Priority,
				_call: Box<<T as Config>::RuntimeCall>,
			) -> DispatchResult {
				T::ScheduleOrigin::ensure_origin(origin)?;
				let _ = when;
				panic!("SHIM-UNSUPPORTED: pallet_scheduler::schedule")
			}
			#[pallet::call_index(1)]
			pub fn cancel(origin: OriginFor<T>, _when: BlockNumberFor<T>, _index: u32) -> DispatchResult {
				T::ScheduleOrigin::ensure_origin(origin)?;
				panic!("SHIM-UNSUPPORTED: pallet_scheduler::cancel")
			}
		}
		type Inner<T> = vmock::scheduler::Scheduler<T, <T as Config>::RuntimeCall, <T as Config>::PalletsOrigin>;
		impl<T: Config> Pallet<T> {
			/// Runs what is due.
			pub fn run_due() -> Vec<(vmock::scheduler::Task, Result<(), DispatchError>)> {
				Inner::<T>::run_due()
			}
		}
		impl<T: Config> v3::Named<BlockNumberFor<T>, <T as Config>::RuntimeCall, T::PalletsOrigin> for Pallet<T> {
			type Address = (u64, u32);
			type Hasher = T::Hashing;
			fn schedule_named(
				id: v3::TaskName,
				when: DispatchTime<BlockNumberFor<T>>,
				p: Option<Period<BlockNumberFor<T>>>,
				priority: Priority,
				origin: T::PalletsOrigin,
				call: Bounded<<T as Config>::RuntimeCall, T::Hashing>,
			) -> Result<(u64, u32), DispatchError> {
				<Inner<T> as v3::Named<_, _, _>>::schedule_named(id, when, p, priority, origin, call)
			}
			fn cancel_named(id: v3::TaskName) -> Result<(), DispatchError> {
				<Inner<T> as v3::Named<_, _, _>>::cancel_named(id)
			}
			fn reschedule_named(id: v3::TaskName, when: DispatchTime<BlockNumberFor<T>>) -> Result<(u64, u32), DispatchError> {
				<Inner<T> as v3::Named<_, _, _>>::reschedule_named(id, when)
			}
			fn next_dispatch_time(id: v3::TaskName) -> Result<BlockNumberFor<T>, DispatchError> {
				<Inner<T> as v3::Named<_, _, _>>::next_dispatch_time(id)
			}
		}
		impl<T: Config> v3::Anon<BlockNumberFor<T>, <T as Config>::RuntimeCall, T::PalletsOrigin> for Pallet<T> {
			type Address = (u64, u32);
			type Hasher = T::Hashing;
			fn schedule(
				when: DispatchTime<BlockNumberFor<T>>,
				p: Option<Period<BlockNumberFor<T>>>,
				priority: Priority,
				origin: T::PalletsOrigin,
				call: Bounded<<T as Config>::RuntimeCall, T::Hashing>,
			) -> Result<(u64, u32), DispatchError> {
				<Inner<T> as v3::Anon<_, _, _>>::schedule(when, p, priority, origin, call)
			}
			fn cancel(a: (u64, u32)) -> Result<(), DispatchError> {
				<Inner<T> as v3::Anon<_, _, _>>::cancel(a)
			}
			fn reschedule(a: (u64, u32), when: DispatchTime<BlockNumberFor<T>>) -> Result<(u64, u32), DispatchError> {
				<Inner<T> as v3::Anon<_, _, _>>::reschedule(a, when)
			}
			fn next_dispatch_time(a: (u64, u32)) -> Result<BlockNumberFor<T>, DispatchError> {
				<Inner<T> as v3::Anon<_, _, _>>::next_dispatch_time(a)
			}
		}
	}
}

pub mod pallet_preimage {
	pub use pallet::*;
	pub mod weights {
		pub struct SubstrateWeight<T>(std::marker::PhantomData<T>);
	}
	#[frame_support::pallet]
	pub mod pallet {
		use frame_support::pallet_prelude::*;
		use frame_support::traits::{FetchResult, QueryPreimage, StorePreimage};
		use frame_system::pallet_prelude::*;
		use std::borrow::Cow;
		#[pallet::config]
		pub trait Config: frame_system::Config {
			type RuntimeEvent;
			type WeightInfo;
			type Currency;
			type ManagerOrigin;
			type Consideration;
		}
		#[pallet::pallet]
		pub struct Pallet<T>(_);
		#[pallet::event]
		pub enum Event<T: Config> {
			Nothing,
		}
		#[pallet::composite_enum]
		pub enum HoldReason {
			Preimage,
		}
		#[pallet::call]
		impl<T: Config> Pallet<T> {
			#[pallet::call_index(0)]
			pub fn note_preimage(origin: OriginFor<T>, bytes: Vec<u8>) -> DispatchResult {
				ensure_signed(origin)?;
				<Self as StorePreimage>::note(Cow::Owned(bytes)).map(|_| ())
			}
			#[pallet::call_index(1)]
			pub fn unnote_preimage(_origin: OriginFor<T>, _hash: T::Hash) -> DispatchResult {
				panic!("SHIM-UNSUPPORTED: pallet_preimage::unnote_preimage")
			}
		}
		type Inner<T> = vmock::preimages::Preimages<<T as frame_system::Config>::Hashing>;
		impl<T: Config> QueryPreimage for Pallet<T> {
			type H = T::Hashing;
			fn len(hash: &T::Hash) -> Option<u32> {
				Inner::<T>::len(hash)
			}
			fn fetch(hash: &T::Hash, len: Option<u32>) -> FetchResult {
				Inner::<T>::fetch(hash, len)
			}
			fn is_requested(hash: &T::Hash) -> bool {
				Inner::<T>::is_requested(hash)
			}
			fn request(_: &T::Hash) {}
			fn unrequest(_: &T::Hash) {}
		}
		impl<T: Config> StorePreimage for Pallet<T> {
			const MAX_LENGTH: usize = 4 << 20;
			fn note(bytes: Cow<[u8]>) -> Result<T::Hash, DispatchError> {
				Inner::<T>::note(bytes)
			}
		}
	}
}

pub mod pallet_nfts {
	pub use ::pallet_nfts::*;
	pub use frame_support::instances::*;
	pub use pallet::*;
	pub mod weights {
		pub struct SubstrateWeight<T>(std::marker::PhantomData<T>);
	}
	#[frame_support::pallet]
	pub mod pallet {
		use super::super::{all, once, tag};
		use ::pallet_nfts::{CollectionConfig, ItemConfig};
		use fc_traits_memberships::{GenericRank, Inspect, Manager, Rank};
		use frame_support::pallet_prelude::*;
		use frame_support::traits::nonfungibles_v2 as nfs;
		use frame_support::traits::{EnsureOrigin, EnsureOriginWithArg};
		use frame_support::Parameter;
		use frame_system::pallet_prelude::*;
		use sp_runtime::traits::StaticLookup;
		use vmock::kv;
		#[pallet::config]
		pub trait Config<I: 'static = ()>: frame_system::Config {
			type RuntimeEvent;
			type CollectionId: Parameter + MaxEncodedLen + Copy + Ord;
			type ItemId: Parameter + MaxEncodedLen + Copy + Ord;
			type Currency;
			type ForceOrigin: EnsureOrigin<Self::RuntimeOrigin>;
			type CreateOrigin: EnsureOriginWithArg<Self::RuntimeOrigin, Self::CollectionId, Success = Self::AccountId>;
			type Locker;
			type CollectionDeposit: Get<u128>;
			type ItemDeposit: Get<u128>;
			type MetadataDepositBase: Get<u128>;
			type AttributeDepositBase: Get<u128>;
			type DepositPerByte: Get<u128>;
			type StringLimit: Get<u32>;
			type KeyLimit: Get<u32>;
			type ValueLimit: Get<u32>;
			type ApprovalsLimit: Get<u32>;
			type ItemAttributesApprovalsLimit: Get<u32>;
			type MaxTips: Get<u32>;
			type MaxDeadlineDuration: Get<BlockNumberFor<Self>>;
			type MaxAttributesPerCall: Get<u32>;
			type Features: Get<::pallet_nfts::PalletFeatures>;
			type OffchainSignature;
			type OffchainPublic;
			type WeightInfo;
		}
		#[pallet::pallet]
		pub struct Pallet<T, I = ()>(_);
		#[pallet::event]
		pub enum Event<T: Config<I>, I: 'static = ()> {
			Nothing,
		}
		#[pallet::call]
		impl<T: Config<I>, I: 'static> Pallet<T, I> {
			#[pallet::call_index(0)]
			pub fn create(_origin: OriginFor<T>, _admin: <T::Lookup as StaticLookup>::Source) -> DispatchResult {
				panic!("SHIM-UNSUPPORTED: pallet_nfts::create")
			}
			#[pallet::call_index(1)]
			pub fn force_create(origin: OriginFor<T>, _owner: <T::Lookup as StaticLookup>::Source) -> DispatchResult {
				T::ForceOrigin::ensure_origin(origin)?;
				panic!("SHIM-UNSUPPORTED: pallet_nfts::force_create")
			}
			#[pallet::call_index(3)]
			pub fn mint(_origin: OriginFor<T>, _collection: T::CollectionId, _item: T::ItemId) -> DispatchResult {
				panic!("SHIM-UNSUPPORTED: pallet_nfts::mint")
			}
			#[pallet::call_index(5)]
			pub fn burn(_origin: OriginFor<T>, _collection: T::CollectionId, _item: T::ItemId) -> DispatchResult {
				panic!("SHIM-UNSUPPORTED: pallet_nfts::burn")
			}
			#[pallet::call_index(6)]
			pub fn transfer(
				_origin: OriginFor<T>,
				_collection: T::CollectionId,
				_item: T::ItemId,
				_dest: <T::Lookup as StaticLookup>::Source,
			) -> DispatchResult {
				panic!("SHIM-UNSUPPORTED: pallet_nfts::transfer")
			}
		}
		#[derive(Clone, Debug, PartialEq, Eq, Encode, Decode)]
		pub struct Item<A> {
			pub owner: A,
			pub price: Option<(u128, Option<A>)>,
			pub rank: u8,
		}
		type ItemOf<T> = Item<<T as frame_system::Config>::AccountId>;
		impl<T: Config<I>, I: 'static> Pallet<T, I> {
			pub fn items() -> Vec<((T::CollectionId, T::ItemId), ItemOf<T>)> {
				all(&tag::<I>("item"))
			}
			pub fn collections() -> Vec<(T::CollectionId, T::AccountId)> {
				all(&tag::<I>("collection"))
			}
			fn key(c: &T::CollectionId, i: &T::ItemId) -> Vec<u8> {
				kv::key(&tag::<I>("item"), (c, i))
			}
			fn item(c: &T::CollectionId, i: &T::ItemId) -> Result<ItemOf<T>, DispatchError> {
				kv::get(&Self::key(c, i)).ok_or(DispatchError::Other("unknown item"))
			}
		}
		impl<T: Config<I>, I: 'static> nfs::Inspect<T::AccountId> for Pallet<T, I> {
			type ItemId = T::ItemId;
			type CollectionId = T::CollectionId;
			fn owner(c: &T::CollectionId, i: &T::ItemId) -> Option<T::AccountId> {
				Self::item(c, i).ok().map(|x| x.owner)
			}
			fn collection_owner(c: &T::CollectionId) -> Option<T::AccountId> {
				kv::get(&kv::key(&tag::<I>("collection"), c))
			}
		}
		impl<T: Config<I>, I: 'static, P, B, X> nfs::Create<T::AccountId, CollectionConfig<P, B, X>> for Pallet<T, I> {
			fn create_collection(_: &T::AccountId, _: &T::AccountId, _: &CollectionConfig<P, B, X>) -> Result<T::CollectionId, DispatchError> {
				panic!("SHIM-UNSUPPORTED: collections without a given identifier")
			}
			fn create_collection_with_id(c: T::CollectionId, who: &T::AccountId, _admin: &T::AccountId, _: &CollectionConfig<P, B, X>) -> DispatchResult {
				once(&tag::<I>("collection"), c, who)
			}
		}
		impl<T: Config<I>, I: 'static, X> nfs::Mutate<T::AccountId, X> for Pallet<T, I> {
			fn mint_into(c: &T::CollectionId, i: &T::ItemId, who: &T::AccountId, _: &X, _: bool) -> DispatchResult {
				once(&tag::<I>("item"), (c, i), &Item { owner: who.clone(), price: None, rank: 0 })
			}
		}
		impl<T: Config<I>, I: 'static> nfs::Trading<T::AccountId, u128> for Pallet<T, I> {
			fn buy_item(_: &T::CollectionId, _: &T::ItemId, _: &T::AccountId, _: &u128) -> DispatchResult {
				panic!("SHIM-UNSUPPORTED: buying")
			}
			fn set_price(c: &T::CollectionId, i: &T::ItemId, sender: &T::AccountId, price: Option<u128>, to: Option<T::AccountId>) -> DispatchResult {
				let mut it = Self::item(c, i)?;
				if it.owner != *sender {
					return Err(DispatchError::Other("not the owner"));
				}
				it.price = price.map(|p| (p, to));
				kv::put(&Self::key(c, i), &it);
				Ok(())
			}
			fn item_price(c: &T::CollectionId, i: &T::ItemId) -> Option<u128> {
				Self::item(c, i).ok()?.price.map(|p| p.0)
			}
		}
		// Memberships: items of a collection. Those not handed out yet are in another collection.
		impl<T: Config<I>, I: 'static> Inspect<T::AccountId> for Pallet<T, I> {
			type Group = T::CollectionId;
			type Membership = T::ItemId;
			fn user_memberships(who: &T::AccountId, maybe_group: Option<T::CollectionId>) -> Box<dyn Iterator<Item = (T::CollectionId, T::ItemId)>> {
				let who = who.clone();
				Box::new(
					Self::items()
						.into_iter()
						.filter(move |(k, it)| it.owner == who && maybe_group.map_or(true, |g| g == k.0))
						.map(|(k, _)| k),
				)
			}
			fn check_membership(who: &T::AccountId, m: &T::ItemId) -> Option<T::CollectionId> {
				Self::items().into_iter().find(|(k, it)| k.1 == *m && it.owner == *who).map(|x| x.0 .0)
			}
			fn members_total(group: &T::CollectionId) -> u32 {
				Self::items().iter().filter(|x| x.0 .0 == *group).count() as u32
			}
		}
		impl<T: Config<I>, I: 'static> Manager<T::AccountId, ItemConfig> for Pallet<T, I> {
			fn assign(group: &T::CollectionId, m: &T::ItemId, who: &T::AccountId) -> Result<(), DispatchError> {
				let (k, _) = Self::items().into_iter().find(|(k, _)| k.1 == *m && k.0 != *group).ok_or(DispatchError::Other("unknown membership"))?;
				once(&tag::<I>("item"), (group, m), &Item { owner: who.clone(), price: None, rank: 0 })?;
				kv::put(&kv::key(&tag::<I>("source"), (group, m)), &k.0);
				sp_io::storage::clear(&Self::key(&k.0, m));
				Ok(())
			}
			fn release(group: &T::CollectionId, m: &T::ItemId) -> Result<(), DispatchError> {
				Self::item(group, m)?;
				let from: T::CollectionId = kv::take(&kv::key(&tag::<I>("source"), (group, m))).ok_or(DispatchError::Other("was not handed out"))?;
				let owner = <Self as nfs::Inspect<T::AccountId>>::collection_owner(group).ok_or(DispatchError::Other("unknown collection"))?;
				sp_io::storage::clear(&Self::key(group, m));
				once(&tag::<I>("item"), (&from, m), &Item { owner, price: None, rank: 0 })
			}
		}
		impl<T: Config<I>, I: 'static> Rank<T::AccountId, ItemConfig> for Pallet<T, I> {
			fn rank_of(group: &T::CollectionId, m: &T::ItemId) -> Option<GenericRank> {
				Self::item(group, m).ok().map(|x| GenericRank(x.rank))
			}
			fn set_rank(group: &T::CollectionId, m: &T::ItemId, rank: impl Into<GenericRank>) -> Result<(), DispatchError> {
				let mut it = Self::item(group, m)?;
				it.rank = rank.into().into();
				kv::put(&Self::key(group, m), &it);
				Ok(())
			}
			fn ranks_total(group: &T::CollectionId) -> u32 {
				Self::items().iter().filter(|x| x.0 .0 == *group).map(|x| x.1.rank as u32).sum()
			}
		}
	}
}

pub mod pallet_referenda {
	pub use ::pallet_referenda::*;
	pub use frame_support::instances::*;
	pub use pallet::{TrackInfoOf, *};
	pub mod weights {
		pub struct SubstrateWeight<T>(std::marker::PhantomData<T>);
	}
	pub type ReferendumIndex = u32;
	#[frame_support::pallet]
	pub mod pallet {
		use super::super::{all, tag};
		use ::pallet_referenda::TracksInfo;
		use frame_support::pallet_prelude::*;
		use frame_support::traits::schedule::DispatchTime;
		use frame_support::traits::{Bounded, Currency, EnsureOrigin, EnsureOriginWithArg, OriginTrait, PollStatus, Polling, QueryPreimage, StorePreimage, VoteTally};
		use frame_support::Parameter;
		use frame_system::pallet_prelude::*;
		use vmock::kv;
		pub type BalanceOf<T, I = ()> = <<T as Config<I>>::Currency as Currency<<T as frame_system::Config>::AccountId>>::Balance;
		pub type PalletsOriginOf<T> = <<T as frame_system::Config>::RuntimeOrigin as OriginTrait>::PalletsOrigin;
		pub type TrackIdOf<T, I = ()> = <<T as Config<I>>::Tracks as TracksInfo<BalanceOf<T, I>, BlockNumberFor<T>>>::Id;
		pub type TrackInfoOf<T, I = ()> = ::pallet_referenda::TrackInfo<BalanceOf<T, I>, BlockNumberFor<T>>;
		pub type VotesOf<T, I = ()> = <T as Config<I>>::Votes;
		pub type TallyOf<T, I = ()> = <T as Config<I>>::Tally;
		pub type BoundedCallOf<T, I = ()> = Bounded<<T as Config<I>>::RuntimeCall, <T as frame_system::Config>::Hashing>;
		#[pallet::config]
		pub trait Config<I: 'static = ()>: frame_system::Config {
			type RuntimeCall: Parameter;
			type RuntimeEvent;
			type WeightInfo;
			type Scheduler;
			type Currency: Currency<Self::AccountId>;
			type SubmitOrigin: EnsureOriginWithArg<Self::RuntimeOrigin, PalletsOriginOf<Self>, Success = Self::AccountId>;
			type CancelOrigin: EnsureOrigin<Self::RuntimeOrigin>;
			type KillOrigin: EnsureOrigin<Self::RuntimeOrigin>;
			type Slash;
			type Votes: Parameter + Ord + Copy + parity_scale_codec::HasCompact + MaxEncodedLen;
			type Tally: VoteTally<Self::Votes, TrackIdOf<Self, I>> + Clone + parity_scale_codec::Codec + Eq + core::fmt::Debug + TypeInfo + MaxEncodedLen;
			type SubmissionDeposit: Get<BalanceOf<Self, I>>;
			type MaxQueued: Get<u32>;
			type UndecidingTimeout: Get<BlockNumberFor<Self>>;
			type AlarmInterval: Get<BlockNumberFor<Self>>;
			type Tracks: TracksInfo<BalanceOf<Self, I>, BlockNumberFor<Self>, RuntimeOrigin = PalletsOriginOf<Self>>;
			type Preimages: QueryPreimage<H = Self::Hashing> + StorePreimage;
		}
		#[pallet::pallet]
		pub struct Pallet<T, I = ()>(_);
		#[pallet::event]
		pub enum Event<T: Config<I>, I: 'static = ()> {
			Nothing,
		}
		#[pallet::error]
		pub enum Error<T, I = ()> {
			NotOngoing,
			NoTrack,
		}
		#[derive(Clone, Debug, PartialEq, Eq, Encode, Decode)]
		pub struct Status<A, Tr, Ta> {
			pub track: Tr,
			pub submitter: A,
			pub tally: Ta,
			/// When it ended and how, if it did.
			pub ended: Option<(u64, bool)>,
			pub proposal: Vec<u8>,
		}
		pub type StatusOf<T, I> = Status<<T as frame_system::Config>::AccountId, TrackIdOf<T, I>, TallyOf<T, I>>;
		#[pallet::call]
		impl<T: Config<I>, I: 'static> Pallet<T, I> {
			#[pallet::call_index(0)]
			pub fn submit(
				origin: OriginFor<T>,
				proposal_origin: Box<PalletsOriginOf<T>>,
				proposal: BoundedCallOf<T, I>,
				_enactment_moment: DispatchTime<BlockNumberFor<T>>,
			) -> DispatchResult {
				let proposal_origin = *proposal_origin;
				let submitter = T::SubmitOrigin::ensure_origin(origin, &proposal_origin)?;
				let track = T::Tracks::track_for(&proposal_origin).map_err(|_| Error::<T, I>::NoTrack)?;
				let index = Self::count();
				kv::put(&kv::key(&tag::<I>("referenda"), ()), &(index + 1));
				let status = Status { track, submitter, tally: T::Tally::new(track), ended: None, proposal: proposal.encode() };
				kv::put(&kv::key(&tag::<I>("referendum"), index), &status);
				Ok(())
			}
			#[pallet::call_index(3)]
			pub fn cancel(origin: OriginFor<T>, index: u32) -> DispatchResult {
				T::CancelOrigin::ensure_origin(origin)?;
				Self::end(index, false)
			}
			#[pallet::call_index(4)]
			pub fn kill(origin: OriginFor<T>, index: u32) -> DispatchResult {
				T::KillOrigin::ensure_origin(origin)?;
				Self::end(index, false)
			}
			#[pallet::call_index(1)]
			pub fn place_decision_deposit(_origin: OriginFor<T>, _index: u32) -> DispatchResult {
				panic!("SHIM-UNSUPPORTED: pallet_referenda::place_decision_deposit")
			}
			#[pallet::call_index(2)]
			pub fn refund_decision_deposit(_origin: OriginFor<T>, _index: u32) -> DispatchResult {
				panic!("SHIM-UNSUPPORTED: pallet_referenda::refund_decision_deposit")
			}
			#[pallet::call_index(5)]
			pub fn nudge_referendum(_origin: OriginFor<T>, _index: u32) -> DispatchResult {
				panic!("SHIM-UNSUPPORTED: pallet_referenda::nudge_referendum")
			}
		}
		impl<T: Config<I>, I: 'static> Pallet<T, I> {
			pub fn count() -> u32 {
				kv::get(&kv::key(&tag::<I>("referenda"), ())).unwrap_or(0)
			}
			pub fn status(index: u32) -> Option<StatusOf<T, I>> {
				kv::get(&kv::key(&tag::<I>("referendum"), index))
			}
			pub fn statuses() -> Vec<(u32, StatusOf<T, I>)> {
				all(&tag::<I>("referendum"))
			}
			/// Ends it one way or the other.
			pub fn end(index: u32, approved: bool) -> DispatchResult {
				let mut s = Self::status(index).filter(|s| s.ended.is_none()).ok_or(Error::<T, I>::NotOngoing)?;
				let now = frame_system::Pallet::<T>::block_number();
				s.ended = Some((sp_runtime::traits::SaturatedConversion::saturated_into(now), approved));
				kv::put(&kv::key(&tag::<I>("referendum"), index), &s);
				Ok(())
			}
		}
		impl<T: Config<I>, I: 'static> Polling<T::Tally> for Pallet<T, I>
		where
			TrackIdOf<T, I>: Parameter + Member,
		{
			type Index = u32;
			type Votes = T::Votes;
			type Class = TrackIdOf<T, I>;
			type Moment = BlockNumberFor<T>;
			fn classes() -> Vec<Self::Class> {
				T::Tracks::tracks().map(|t| t.id).collect()
			}
			fn as_ongoing(index: u32) -> Option<(T::Tally, Self::Class)> {
				Self::status(index).filter(|s| s.ended.is_none()).map(|s| (s.tally, s.track))
			}
			fn access_poll<R>(index: u32, f: impl FnOnce(PollStatus<&mut T::Tally, Self::Moment, Self::Class>) -> R) -> R {
				Self::try_access_poll(index, |s| Ok(f(s))).unwrap_or_else(|_| panic!("HARNESS-BUG: a poll"))
			}
			fn try_access_poll<R>(
				index: u32,
				f: impl FnOnce(PollStatus<&mut T::Tally, Self::Moment, Self::Class>) -> Result<R, DispatchError>,
			) -> Result<R, DispatchError> {
				match Self::status(index) {
					None => f(PollStatus::None),
					Some(Status { ended: Some((at, ok)), .. }) => f(PollStatus::Completed(sp_runtime::traits::SaturatedConversion::saturated_into(at), ok)),
					Some(mut s) => {
						let r = f(PollStatus::Ongoing(&mut s.tally, s.track))?;
						kv::put(&kv::key(&tag::<I>("referendum"), index), &s);
						Ok(r)
					}
				}
			}
		}
	}
}

pub mod pallet_referenda_tracks {
	pub use super::pallet_referenda::TrackIdOf;
	pub use frame_support::instances::*;
	pub use pallet::*;
	pub mod weights {
		pub struct SubstrateWeight<T>(std::marker::PhantomData<T>);
		impl<T> super::WeightInfo for SubstrateWeight<T> {}
	}
	pub trait WeightInfo {}
	impl WeightInfo for () {}
	#[frame_support::pallet]
	pub mod pallet {
		use super::super::pallet_referenda::{BalanceOf, PalletsOriginOf, TrackInfoOf};
		use super::super::{all, once, tag};
		use ::pallet_referenda::{Track, TracksInfo};
		use fc_traits_tracks::MutateTracks;
		use frame_support::pallet_prelude::*;
		use frame_support::traits::{EnsureOrigin, EnsureOriginWithArg};
		use frame_support::Parameter;
		use frame_system::pallet_prelude::*;
		use std::borrow::Cow;
		use vmock::kv;
		#[pallet::config]
		pub trait Config<I: 'static = ()>: frame_system::Config + super::super::pallet_referenda::Config<I> {
			type RuntimeEvent;
			type TrackId: Parameter + Member + Copy + MaxEncodedLen + Ord;
			type MaxTracks: Get<u32>;
			type AdminOrigin: EnsureOrigin<Self::RuntimeOrigin>;
			type UpdateOrigin: EnsureOriginWithArg<Self::RuntimeOrigin, Self::TrackId>;
			type WeightInfo;
		}
		#[pallet::pallet]
		pub struct Pallet<T, I = ()>(_);
		#[pallet::event]
		pub enum Event<T: Config<I>, I: 'static = ()> {
			Nothing,
		}
		#[pallet::call]
		impl<T: Config<I>, I: 'static> Pallet<T, I> {
			#[pallet::call_index(0)]
			pub fn insert(origin: OriginFor<T>, id: T::TrackId, info: TrackInfoOf<T, I>, pallet_origin: Box<PalletsOriginOf<T>>) -> DispatchResult {
				T::AdminOrigin::ensure_origin(origin)?;
				<Self as MutateTracks<BalanceOf<T, I>, BlockNumberFor<T>>>::insert(id, info, *pallet_origin)
			}
			#[pallet::call_index(1)]
			pub fn update(origin: OriginFor<T>, id: T::TrackId, info: TrackInfoOf<T, I>) -> DispatchResult {
				T::UpdateOrigin::ensure_origin(origin, &id)?;
				<Self as MutateTracks<BalanceOf<T, I>, BlockNumberFor<T>>>::update(id, info)
			}
			#[pallet::call_index(2)]
			pub fn remove(origin: OriginFor<T>, id: T::TrackId, pallet_origin: Box<PalletsOriginOf<T>>) -> DispatchResult {
				T::AdminOrigin::ensure_origin(origin)?;
				<Self as MutateTracks<BalanceOf<T, I>, BlockNumberFor<T>>>::remove(id, *pallet_origin)
			}
		}
		impl<T: Config<I>, I: 'static> Pallet<T, I> {
			/// All tracks, each with the origin it is for.
			pub fn tracks_with_origins() -> Vec<(T::TrackId, (TrackInfoOf<T, I>, PalletsOriginOf<T>))> {
				all(&tag::<I>("track"))
			}
		}
		impl<T: Config<I>, I: 'static> TracksInfo<BalanceOf<T, I>, BlockNumberFor<T>> for Pallet<T, I> {
			type Id = T::TrackId;
			type RuntimeOrigin = PalletsOriginOf<T>;
			fn tracks() -> impl Iterator<Item = Cow<'static, Track<T::TrackId, BalanceOf<T, I>, BlockNumberFor<T>>>> {
				let mut tracks = Self::tracks_with_origins();
				tracks.sort_by_key(|t| t.0);
				tracks.into_iter().map(|(id, (info, _))| Cow::Owned(Track { id, info }))
			}
			fn track_for(o: &PalletsOriginOf<T>) -> Result<T::TrackId, ()> {
				Self::tracks_with_origins().into_iter().find(|x| x.1 .1 == *o).map(|x| x.0).ok_or(())
			}
		}
		impl<T: Config<I>, I: 'static> MutateTracks<BalanceOf<T, I>, BlockNumberFor<T>> for Pallet<T, I> {
			type Id = T::TrackId;
			type RuntimeOrigin = PalletsOriginOf<T>;
			fn insert(id: T::TrackId, info: TrackInfoOf<T, I>, origin: PalletsOriginOf<T>) -> DispatchResult {
				if Self::tracks_with_origins().len() as u32 >= T::MaxTracks::get() {
					return Err(DispatchError::Other("MaxTracksExceeded"));
				}
				once(&tag::<I>("track"), id, &(info, origin))
			}
			fn update(id: T::TrackId, info: TrackInfoOf<T, I>) -> DispatchResult {
				let key = kv::key(&tag::<I>("track"), id);
				let (_, o) = kv::get::<(TrackInfoOf<T, I>, PalletsOriginOf<T>)>(&key).ok_or(DispatchError::Other("TrackIdNotFound"))?;
				kv::put(&key, &(info, o));
				Ok(())
			}
			fn remove(id: T::TrackId, origin: PalletsOriginOf<T>) -> DispatchResult {
				let key = kv::key(&tag::<I>("track"), id);
				let (_, o) = kv::get::<(TrackInfoOf<T, I>, PalletsOriginOf<T>)>(&key).ok_or(DispatchError::Other("TrackIdNotFound"))?;
				if o != origin {
					return Err(DispatchError::Other("TrackIdNotFound"));
				}
				sp_io::storage::clear(&key);
				Ok(())
			}
		}
	}
}

pub mod pallet_ranked_collective {
	pub use frame_support::instances::*;
	pub use pallet::*;
	pub mod weights {
		pub struct SubstrateWeight<T>(std::marker::PhantomData<T>);
	}
	pub type Rank = u16;
	pub type Votes = u32;
	pub type MemberIndex = u32;
	/// One vote for the lowest rank that may vote, two for the next, …
	pub struct Linear;
	pub struct Unit;
	pub struct Geometric;
	pub trait EnsureRanked {}
	#[derive(Clone, Debug, PartialEq, Eq, parity_scale_codec::Encode, parity_scale_codec::Decode, parity_scale_codec::MaxEncodedLen, scale_info::TypeInfo)]
	#[scale_info(skip_type_params(T, I, M))]
	#[codec(mel_bound())]
	pub struct Tally<T, I, M> {
		pub bare_ayes: u32,
		pub ayes: u32,
		pub nays: u32,
		#[codec(skip)]
		pub _of: std::marker::PhantomData<(T, I, M)>,
	}
	pub type TallyOf<T, I = ()> = Tally<T, I, Pallet<T, I>>;
	impl<T: Clone + Eq + std::fmt::Debug, I: Clone + Eq + std::fmt::Debug, M, C> frame_support::traits::VoteTally<u32, C> for Tally<T, I, M> {
		fn new(_: C) -> Self {
			Self { bare_ayes: 0, ayes: 0, nays: 0, _of: Default::default() }
		}
		fn ayes(&self, _: C) -> u32 {
			self.bare_ayes
		}
		fn support(&self, _: C) -> sp_runtime::Perbill {
			panic!("SHIM-UNSUPPORTED: the collective's support")
		}
		fn approval(&self, _: C) -> sp_runtime::Perbill {
			sp_runtime::Perbill::from_rational(self.ayes, 1.max(self.ayes + self.nays))
		}
	}
	#[frame_support::pallet]
	pub mod pallet {
		use super::super::{all, once, tag};
		use frame_support::pallet_prelude::*;
		use frame_support::traits::{EnsureOrigin, RankedMembers};
		use frame_system::pallet_prelude::*;
		use sp_runtime::traits::StaticLookup;
		use vmock::kv;
		#[pallet::config]
		pub trait Config<I: 'static = ()>: frame_system::Config {
			type WeightInfo;
			type RuntimeEvent;
			type AddOrigin: EnsureOrigin<Self::RuntimeOrigin>;
			type RemoveOrigin: EnsureOrigin<Self::RuntimeOrigin, Success = u16>;
			type PromoteOrigin: EnsureOrigin<Self::RuntimeOrigin, Success = u16>;
			type DemoteOrigin: EnsureOrigin<Self::RuntimeOrigin, Success = u16>;
			type ExchangeOrigin: EnsureOrigin<Self::RuntimeOrigin>;
			type Polls;
			type MinRankOfClass: sp_runtime::traits::Convert<u16, u16>;
			type MemberSwappedHandler;
			type VoteWeight;
			type MaxMemberCount;
		}
		#[pallet::pallet]
		pub struct Pallet<T, I = ()>(_);
		#[pallet::event]
		pub enum Event<T: Config<I>, I: 'static = ()> {
			Nothing,
		}
		#[pallet::error]
		pub enum Error<T, I = ()> {
			NoPermission,
		}
		type Source<T> = <<T as frame_system::Config>::Lookup as StaticLookup>::Source;
		#[pallet::call]
		impl<T: Config<I>, I: 'static> Pallet<T, I> {
			#[pallet::call_index(0)]
			pub fn add_member(origin: OriginFor<T>, who: Source<T>) -> DispatchResult {
				T::AddOrigin::ensure_origin(origin)?;
				<Self as RankedMembers>::induct(&T::Lookup::lookup(who)?)
			}
			#[pallet::call_index(1)]
			pub fn promote_member(origin: OriginFor<T>, who: Source<T>) -> DispatchResult {
				let max = T::PromoteOrigin::ensure_origin(origin)?;
				let who = T::Lookup::lookup(who)?;
				let rank = Self::rank_of(&who).ok_or(DispatchError::Other("NotMember"))?;
				ensure!(max > rank, Error::<T, I>::NoPermission);
				<Self as RankedMembers>::promote(&who)
			}
			#[pallet::call_index(2)]
			pub fn demote_member(origin: OriginFor<T>, who: Source<T>) -> DispatchResult {
				let max = T::DemoteOrigin::ensure_origin(origin)?;
				let who = T::Lookup::lookup(who)?;
				let rank = Self::rank_of(&who).ok_or(DispatchError::Other("NotMember"))?;
				ensure!(max >= rank, Error::<T, I>::NoPermission);
				<Self as RankedMembers>::demote(&who)
			}
			#[pallet::call_index(3)]
			pub fn remove_member(origin: OriginFor<T>, who: Source<T>, min_rank: u16) -> DispatchResult {
				let max = T::RemoveOrigin::ensure_origin(origin)?;
				let who = T::Lookup::lookup(who)?;
				let rank = Self::rank_of(&who).ok_or(DispatchError::Other("NotMember"))?;
				ensure!(min_rank >= rank && max >= rank, Error::<T, I>::NoPermission);
				sp_io::storage::clear(&kv::key(&tag::<I>("seat"), who));
				Ok(())
			}
			#[pallet::call_index(4)]
			pub fn vote(_origin: OriginFor<T>, _poll: u32, _aye: bool) -> DispatchResult {
				panic!("SHIM-UNSUPPORTED: pallet_ranked_collective::vote")
			}
		}
		impl<T: Config<I>, I: 'static> Pallet<T, I> {
			pub fn seats() -> Vec<(T::AccountId, u16)> {
				all(&tag::<I>("seat"))
			}
			pub fn rank_of(who: &T::AccountId) -> Option<u16> {
				kv::get(&kv::key(&tag::<I>("seat"), who))
			}
		}
		impl<T: Config<I>, I: 'static> RankedMembers for Pallet<T, I> {
			type AccountId = T::AccountId;
			type Rank = u16;
			fn min_rank() -> u16 {
				0
			}
			fn rank_of(who: &T::AccountId) -> Option<u16> {
				Self::rank_of(who)
			}
			fn induct(who: &T::AccountId) -> DispatchResult {
				once(&tag::<I>("seat"), who, &0u16)
			}
			fn promote(who: &T::AccountId) -> DispatchResult {
				let r = Self::rank_of(who).ok_or(DispatchError::Other("NotMember"))?;
				kv::put(&kv::key(&tag::<I>("seat"), who), &(r + 1));
				Ok(())
			}
			fn demote(who: &T::AccountId) -> DispatchResult {
				match Self::rank_of(who).ok_or(DispatchError::Other("NotMember"))? {
					0 => sp_io::storage::clear(&kv::key(&tag::<I>("seat"), who)),
					r => kv::put(&kv::key(&tag::<I>("seat"), who), &(r - 1)),
				}
				Ok(())
			}
		}
	}
}

pub mod pallet_pass {
	pub use pallet::*;
	pub mod weights {
		pub struct SubstrateWeight<T>(std::marker::PhantomData<T>);
	}
	pub type SubstrateWeight<T> = weights::SubstrateWeight<T>;
	pub trait WeightInfo {}
	impl WeightInfo for () {}
	impl<T> WeightInfo for weights::SubstrateWeight<T> {}
	/// Whoever signs with the key of a session acts, and pays, for the owner of the session.
	pub struct ChargeTransactionToPassAccount<E, R, I>(pub E, std::marker::PhantomData<(R, I)>);
	impl<E, R, I> ChargeTransactionToPassAccount<E, R, I> {
		pub fn new(e: E) -> Self {
			Self(e, Default::default())
		}
	}
	impl<E, R, I> From<E> for ChargeTransactionToPassAccount<E, R, I> {
		fn from(e: E) -> Self {
			Self(e, Default::default())
		}
	}
	impl<E: Clone, R, I> Clone for ChargeTransactionToPassAccount<E, R, I> {
		fn clone(&self) -> Self {
			Self(self.0.clone(), Default::default())
		}
	}
	impl<E: parity_scale_codec::Encode, R, I> parity_scale_codec::Encode for ChargeTransactionToPassAccount<E, R, I> {
		fn encode_to<O: parity_scale_codec::Output + ?Sized>(&self, o: &mut O) {
			self.0.encode_to(o)
		}
	}
	impl<E: parity_scale_codec::Decode, R, I> parity_scale_codec::Decode for ChargeTransactionToPassAccount<E, R, I> {
		fn decode<P: parity_scale_codec::Input>(i: &mut P) -> Result<Self, parity_scale_codec::Error> {
			E::decode(i).map(Self::new)
		}
	}
	/// Set-up only: the owner of the session with the given key.
	pub fn set_session<A: parity_scale_codec::Encode>(key: &A, owner: &A) {
		vmock::kv::put(&vmock::kv::key("session", key), owner)
	}
	impl<E, R: Config<I>, I: 'static> sp_runtime::traits::SignedExtension for ChargeTransactionToPassAccount<E, R, I>
	where
		E: sp_runtime::traits::SignedExtension<AccountId = R::AccountId, Call = <R as frame_system::Config>::RuntimeCall>,
	{
		const IDENTIFIER: &'static str = E::IDENTIFIER;
		crate::plain::passes_on! { R, E, |who| vmock::kv::get(&vmock::kv::key("session", who)).unwrap_or_else(|| who.clone()) }
	}
	pub struct PassAuthenticate<T, I = ()>(std::marker::PhantomData<(T, I)>);
	#[frame_support::pallet]
	pub mod pallet {
		use frame_support::pallet_prelude::*;
		use frame_support::traits::{EnsureOriginWithArg, MapSuccess};
		use frame_system::pallet_prelude::*;
		use sp_runtime::traits::Morph;
		#[pallet::config]
		pub trait Config<I: 'static = ()>: frame_system::Config {
			type RuntimeEvent;
			type RuntimeCall: frame_support::Parameter;
			type Currency;
			type WeightInfo;
			type Authenticator;
			type PalletsOrigin;
			type PalletId: Get<frame_support::PalletId>;
			type MaxSessionDuration: Get<BlockNumberFor<Self>>;
			type RegisterOrigin: EnsureOriginWithArg<Self::RuntimeOrigin, [u8; 32], Success = Option<DepositInformation<Self, I>>>;
			type Scheduler;
		}
		#[pallet::pallet]
		pub struct Pallet<T, I = ()>(_);
		#[pallet::event]
		pub enum Event<T: Config<I>, I: 'static = ()> {
			Nothing,
		}
		/// Who pays for a registration, how much, and to whom.
		pub struct DepositInformation<T: Config<I>, I: 'static = ()> {
			pub source: T::AccountId,
			pub amount: u128,
			pub dest: T::AccountId,
			pub of: PhantomData<I>,
		}
		#[pallet::call]
		impl<T: Config<I>, I: 'static> Pallet<T, I> {
			#[pallet::call_index(0)]
			pub fn register(_origin: OriginFor<T>, _user: [u8; 32]) -> DispatchResult {
				panic!("SHIM-UNSUPPORTED: pallet_pass::register")
			}
			#[pallet::call_index(4)]
			pub fn dispatch(_origin: OriginFor<T>, _call: Box<<T as Config<I>>::RuntimeCall>) -> DispatchResult {
				panic!("SHIM-UNSUPPORTED: pallet_pass::dispatch")
			}
		}
		/// The signer pays the amount to the destination.
		pub struct PaymentForRegister<T, Amount, Dest>(PhantomData<(T, Amount, Dest)>);
		impl<T: Config, Amount: Get<u128>, Dest: Get<T::AccountId>> Morph<T::AccountId> for PaymentForRegister<T, Amount, Dest> {
			type Outcome = Option<DepositInformation<T>>;
			fn morph(source: T::AccountId) -> Self::Outcome {
				Some(DepositInformation { source, amount: Amount::get(), dest: Dest::get(), of: PhantomData })
			}
		}
		pub type EnsureSignedPays<T, Amount, Dest> =
			MapSuccess<frame_system::EnsureSigned<<T as frame_system::Config>::AccountId>, PaymentForRegister<T, Amount, Dest>>;
	}
}
