//! Stand-in for frame-system: blocks, events, origins and the calls of the system module.
extern crate self as frame_system;

#[doc(hidden)]
pub mod __private {
	pub use frame_support;
	pub use parity_scale_codec as codec;
	pub use scale_info;
	pub use sp_core;
	pub use sp_runtime;
}
mod events;
mod extensions;
mod origins;
mod runtime;

pub use frame_support::dispatch::RawOrigin;
pub use extensions::*;
pub use origins::*;
pub use pallet::*;

use frame_support::traits::{Contains, Get, OriginTrait};
use frame_support::Parameter;
use parity_scale_codec::{Decode, Encode, MaxEncodedLen};
use sp_runtime::traits::{BadOrigin, BlockNumberProvider, Member};

pub type Origin<T> = RawOrigin<<T as Config>::AccountId>;

pub mod pallet_prelude {
	pub use crate::{ensure_none, ensure_root, ensure_signed, ensure_signed_or_root};
	pub type OriginFor<T> = <T as crate::Config>::RuntimeOrigin;
	pub type BlockNumberFor<T> = <T as crate::Config>::BlockNumber;
	pub type HeaderFor<T> = std::marker::PhantomData<T>;
	pub type RuntimeCallFor<T> = <T as crate::Config>::RuntimeCall;
	pub type ExtrinsicFor<T> = std::marker::PhantomData<T>;
}
pub use pallet_prelude::BlockNumberFor;

#[derive(Clone, Copy, PartialEq, Eq, Debug, Encode, Decode)]
pub enum Phase {
	ApplyExtrinsic(u32),
	Finalization,
	Initialization,
}
#[derive(Clone, PartialEq, Eq, Debug)]
pub struct EventRecord<E, H> {
	pub phase: Phase,
	pub event: E,
	pub topics: Vec<H>,
}
#[derive(Clone, Copy, PartialEq, Eq, Debug)]
pub enum IncRefStatus {
	Created,
	Existed,
}
#[derive(Clone, Copy, PartialEq, Eq, Debug)]
pub enum DecRefStatus {
	Reaped,
	Exists,
}

#[frame_support::pallet]
pub mod pallet {
	use super::*;
	use frame_support::pallet_prelude::*;
	use frame_system::pallet_prelude::*;

	#[pallet::config]
	pub trait Config: 'static + Eq + Clone {
		type RuntimeEvent: Member + From<Event<Self>>;
		type BaseCallFilter: Contains<Self::RuntimeCall>;
		type RuntimeOrigin: Into<Result<RawOrigin<Self::AccountId>, Self::RuntimeOrigin>>
			+ From<RawOrigin<Self::AccountId>>
			+ Clone
			+ std::fmt::Debug
			+ OriginTrait<Call = Self::RuntimeCall, AccountId = Self::AccountId>;
		type RuntimeCall: Parameter
			+ sp_runtime::traits::Dispatchable<RuntimeOrigin = Self::RuntimeOrigin>
			+ From<Call<Self>>
			+ frame_support::dispatch::GetDispatchInfo;
		type Nonce: Parameter + Member + Default + Copy + MaxEncodedLen;
		type Hash: Parameter + Member + Copy + Default + std::hash::Hash + Ord + AsRef<[u8]> + AsMut<[u8]> + MaxEncodedLen;
		type Hashing: sp_runtime::traits::Hash<Output = Self::Hash>;
		type AccountId: Parameter
			+ Member
			+ sp_runtime::traits::MaybeSerializeDeserialize
			+ sp_runtime::traits::MaybeDisplay
			+ Ord
			+ MaxEncodedLen;
		type Lookup: sp_runtime::traits::StaticLookup<Target = Self::AccountId>;
		type BlockNumber: Parameter
			+ Member
			+ sp_runtime::traits::AtLeast32BitUnsigned
			+ parity_scale_codec::HasCompact
			+ std::hash::Hash
			+ Copy
			+ Default
			+ MaxEncodedLen;
		type DbWeight: Get<frame_support::weights::RuntimeDbWeight>;
	}

	#[pallet::pallet]
	pub struct Pallet<T>(_);

	#[pallet::error]
	pub enum Error<T> {
		InvalidSpecName,
		SpecVersionNeedsToIncrease,
		CallFiltered,
	}

	#[pallet::event]
	pub enum Event<T: Config> {
		Remarked { sender: T::AccountId, hash: T::Hash },
		NewAccount { account: T::AccountId },
		KilledAccount { account: T::AccountId },
	}

	#[pallet::call]
	impl<T: Config> Pallet<T> {
		#[pallet::call_index(0)]
		#[pallet::weight(Weight::from_parts(1, 0))]
		pub fn remark(_origin: OriginFor<T>, remark: Vec<u8>) -> DispatchResultWithPostInfo {
			let _ = remark;
			Ok(().into())
		}
		#[pallet::call_index(1)]
		#[pallet::weight((Weight::from_parts(1, 0), frame_support::dispatch::DispatchClass::Operational))]
		pub fn set_heap_pages(origin: OriginFor<T>, pages: u64) -> DispatchResultWithPostInfo {
			ensure_root(origin)?;
			sp_io::storage::set(b":heappages", &pages.encode());
			Ok(().into())
		}
		#[pallet::call_index(7)]
		#[pallet::weight(Weight::from_parts(1, 0))]
		pub fn remark_with_event(origin: OriginFor<T>, remark: Vec<u8>) -> DispatchResultWithPostInfo {
			let sender = ensure_signed(origin)?;
			let hash = <T::Hashing as sp_runtime::traits::Hash>::hash(&remark);
			Self::deposit_event(Event::<T>::Remarked { sender, hash });
			Ok(().into())
		}
	}

	#[pallet::storage]
	pub type Number<T: Config> = StorageValue<_, BlockNumberFor<T>, ValueQuery>;
	#[pallet::storage]
	pub type BlockHash<T: Config> = StorageMap<_, Twox64Concat, BlockNumberFor<T>, T::Hash, ValueQuery>;
	#[pallet::storage]
	pub type Providers<T: Config> = StorageMap<_, Blake2_128Concat, T::AccountId, u32, ValueQuery>;
	#[pallet::storage]
	pub type Consumers<T: Config> = StorageMap<_, Blake2_128Concat, T::AccountId, u32, ValueQuery>;
	#[pallet::storage]
	pub type ExtrinsicIndex<T: Config> = StorageValue<_, u32, OptionQuery>;
}

impl<T: Config> Pallet<T> {
	/// The number of the next transaction of the account.
	pub fn account_nonce(who: impl std::borrow::Borrow<T::AccountId>) -> T::Nonce
	where
		T::Nonce: TryFrom<u64>,
	{
		nonce_of::<T>(who.borrow()).try_into().unwrap_or_else(|_| panic!("HARNESS-BUG: a number beyond the largest"))
	}
	pub fn block_number() -> BlockNumberFor<T> {
		Number::<T>::get()
	}
	pub fn current_block_number() -> BlockNumberFor<T> {
		Number::<T>::get()
	}
	pub fn set_block_number(n: BlockNumberFor<T>) {
		Number::<T>::put(n)
	}
	pub fn extrinsic_index() -> Option<u32> {
		ExtrinsicIndex::<T>::get()
	}
	pub fn set_extrinsic_index(i: u32) {
		ExtrinsicIndex::<T>::put(i)
	}
	pub fn block_hash<K: parity_scale_codec::EncodeLike<BlockNumberFor<T>>>(n: K) -> T::Hash {
		BlockHash::<T>::get(n)
	}
	pub fn account_exists(who: &T::AccountId) -> bool {
		Self::providers(who) > 0
	}
	pub fn providers(who: &T::AccountId) -> u32 {
		Providers::<T>::get(who)
	}
	pub fn inc_providers(who: &T::AccountId) -> IncRefStatus {
		Providers::<T>::mutate(who, |n| {
			*n = n.saturating_add(1);
			if *n == 1 {
				IncRefStatus::Created
			} else {
				IncRefStatus::Existed
			}
		})
	}
	pub fn dec_providers(who: &T::AccountId) -> Result<DecRefStatus, sp_runtime::DispatchError> {
		let n = Providers::<T>::get(who);
		if n <= 1 {
			if Consumers::<T>::get(who) > 0 {
				return Err(sp_runtime::DispatchError::ConsumerRemaining);
			}
			Providers::<T>::remove(who);
			return Ok(DecRefStatus::Reaped);
		}
		Providers::<T>::insert(who, n - 1);
		Ok(DecRefStatus::Exists)
	}
	pub fn inc_consumers(who: &T::AccountId) -> Result<(), sp_runtime::DispatchError> {
		if Providers::<T>::get(who) == 0 {
			return Err(sp_runtime::DispatchError::NoProviders);
		}
		Consumers::<T>::mutate(who, |n| *n += 1);
		Ok(())
	}
	pub fn dec_consumers(who: &T::AccountId) {
		Consumers::<T>::mutate(who, |n| *n = n.saturating_sub(1));
	}
	pub fn deposit_event(event: impl Into<T::RuntimeEvent>) {
		events::push(event.into())
	}
	pub fn deposit_event_indexed(_topics: &[T::Hash], event: T::RuntimeEvent) {
		events::push(event)
	}
	pub fn events() -> Vec<EventRecord<T::RuntimeEvent, T::Hash>> {
		events::all::<T::RuntimeEvent>()
			.into_iter()
			.map(|event| EventRecord { phase: Phase::ApplyExtrinsic(0), event, topics: vec![] })
			.collect()
	}
	pub fn reset_events() {
		events::reset()
	}
	pub fn read_events_no_consensus() -> impl Iterator<Item = Box<EventRecord<T::RuntimeEvent, T::Hash>>> {
		Self::events().into_iter().map(Box::new)
	}
}
impl<T: Config> BlockNumberProvider for Pallet<T>
where
	T::BlockNumber: parity_scale_codec::EncodeLike,
{
	type BlockNumber = T::BlockNumber;
	fn current_block_number() -> T::BlockNumber {
		Self::block_number()
	}
}

pub fn ensure_signed<OuterOrigin, AccountId>(o: OuterOrigin) -> Result<AccountId, BadOrigin>
where
	OuterOrigin: Into<Result<RawOrigin<AccountId>, OuterOrigin>>,
{
	match o.into() {
		Ok(RawOrigin::Signed(t)) => Ok(t),
		_ => Err(BadOrigin),
	}
}
pub fn ensure_signed_or_root<OuterOrigin, AccountId>(o: OuterOrigin) -> Result<Option<AccountId>, BadOrigin>
where
	OuterOrigin: Into<Result<RawOrigin<AccountId>, OuterOrigin>>,
{
	match o.into() {
		Ok(RawOrigin::Root) => Ok(None),
		Ok(RawOrigin::Signed(t)) => Ok(Some(t)),
		_ => Err(BadOrigin),
	}
}
pub fn ensure_root<OuterOrigin, AccountId>(o: OuterOrigin) -> Result<(), BadOrigin>
where
	OuterOrigin: Into<Result<RawOrigin<AccountId>, OuterOrigin>>,
{
	match o.into() {
		Ok(RawOrigin::Root) => Ok(()),
		_ => Err(BadOrigin),
	}
}
pub fn ensure_none<OuterOrigin, AccountId>(o: OuterOrigin) -> Result<(), BadOrigin>
where
	OuterOrigin: Into<Result<RawOrigin<AccountId>, OuterOrigin>>,
{
	match o.into() {
		Ok(RawOrigin::None) => Ok(()),
		_ => Err(BadOrigin),
	}
}

/// The parts of a runtime's configuration the pallets do not look at.
pub trait ConfigExtra {
	type Block;
	type BlockHashCount;
	type Version;
	type AccountData;
	type BlockWeights;
	type BlockLength;
	type SS58Prefix;
	type OnSetCode;
	type MaxConsumers;
}
pub mod config_preludes {
	pub struct ParaChainDefaultConfig;
	pub struct SolochainDefaultConfig;
}
pub trait DefaultConfig {}

/// How much fits into a block.
pub mod limits {
	use frame_support::dispatch::DispatchClass;
	use frame_support::weights::Weight;
	use sp_runtime::Perbill;

	#[derive(Clone, Copy, Debug, PartialEq, Eq)]
	pub struct PerDispatchClass<T> {
		pub normal: T,
		pub operational: T,
		pub mandatory: T,
	}
	impl<T> PerDispatchClass<T> {
		pub fn get(&self, c: DispatchClass) -> &T {
			match c {
				DispatchClass::Normal => &self.normal,
				DispatchClass::Operational => &self.operational,
				DispatchClass::Mandatory => &self.mandatory,
			}
		}
		fn get_mut(&mut self, c: DispatchClass) -> &mut T {
			match c {
				DispatchClass::Normal => &mut self.normal,
				DispatchClass::Operational => &mut self.operational,
				DispatchClass::Mandatory => &mut self.mandatory,
			}
		}
		pub fn map<R>(self, f: impl Fn(T) -> R) -> PerDispatchClass<R> {
			PerDispatchClass { normal: f(self.normal), operational: f(self.operational), mandatory: f(self.mandatory) }
		}
	}
	#[derive(Clone, Debug)]
	pub struct BlockLength {
		pub max: PerDispatchClass<u32>,
	}
	impl BlockLength {
		pub fn max(max: u32) -> Self {
			Self { max: PerDispatchClass { normal: max, operational: max, mandatory: max } }
		}
		pub fn max_with_normal_ratio(max: u32, normal: Perbill) -> Self {
			Self { max: PerDispatchClass { normal: normal * max, operational: max, mandatory: max } }
		}
	}
	#[derive(Clone, Copy, Debug, Default)]
	pub struct WeightsPerClass {
		pub base_extrinsic: Weight,
		pub max_extrinsic: Option<Weight>,
		pub max_total: Option<Weight>,
		pub reserved: Option<Weight>,
	}
	#[derive(Clone, Debug)]
	pub struct BlockWeights {
		pub base_block: Weight,
		pub max_block: Weight,
		pub per_class: PerDispatchClass<WeightsPerClass>,
	}
	impl BlockWeights {
		pub fn get(&self, c: DispatchClass) -> &WeightsPerClass {
			self.per_class.get(c)
		}
		pub fn builder() -> BlockWeightsBuilder {
			let base_extrinsic = Weight::from_parts(108_157_000, 0);
			let z = WeightsPerClass { base_extrinsic, max_total: Some(Weight::zero()), reserved: Some(Weight::zero()), ..Default::default() };
			let m = WeightsPerClass { base_extrinsic, max_total: None, reserved: None, ..Default::default() };
			BlockWeightsBuilder {
				weights: BlockWeights {
					base_block: Weight::zero(),
					max_block: Weight::zero(),
					per_class: PerDispatchClass { normal: z, operational: z, mandatory: m },
				},
				init_cost: None,
			}
		}
	}
	pub struct BlockWeightsBuilder {
		weights: BlockWeights,
		init_cost: Option<Perbill>,
	}
	pub trait OneOrMany {
		fn classes(self) -> Vec<DispatchClass>;
	}
	impl OneOrMany for DispatchClass {
		fn classes(self) -> Vec<DispatchClass> {
			vec![self]
		}
	}
	impl<'a> OneOrMany for &'a [DispatchClass] {
		fn classes(self) -> Vec<DispatchClass> {
			self.to_vec()
		}
	}
	impl BlockWeightsBuilder {
		pub fn base_block(mut self, w: Weight) -> Self {
			self.weights.base_block = w;
			self
		}
		pub fn avg_block_initialization(mut self, p: Perbill) -> Self {
			self.init_cost = Some(p);
			self
		}
		pub fn for_class(mut self, c: impl OneOrMany, f: impl Fn(&mut WeightsPerClass)) -> Self {
			for c in c.classes() {
				f(self.weights.per_class.get_mut(c));
			}
			self
		}
		pub fn build(self) -> Result<BlockWeights, String> {
			let Self { mut weights, init_cost } = self;
			for c in DispatchClass::all() {
				weights.max_block = match weights.per_class.get(*c).max_total {
					Some(m) => m.max(weights.max_block),
					None => weights.max_block,
				};
			}
			let init = init_cost.map(|rate| rate * weights.max_block);
			if let Some(init) = init {
				for c in DispatchClass::all() {
					let p = weights.per_class.get_mut(*c);
					if p.max_extrinsic.is_none() && init_cost.is_some() {
						p.max_extrinsic = p.max_total.map(|x| x.saturating_sub(init)).map(|x| x.saturating_sub(p.base_extrinsic));
					}
				}
			}
			Ok(weights)
		}
		pub fn build_or_panic(self) -> BlockWeights {
			self.build().expect("Builder finished with valid weights")
		}
	}
}
