//! A module whose calls remember under which origin they ran.
pub use pallet::*;

#[frame_support::pallet]
pub mod pallet {
	use frame_support::dispatch::{DispatchResultWithPostInfo, Pays};
	use frame_support::pallet_prelude::*;
	use frame_system::pallet_prelude::*;
	use parity_scale_codec::Encode;

	#[pallet::config]
	pub trait Config: frame_system::Config {
		type RuntimeEvent: From<Event<Self>> + IsType<<Self as frame_system::Config>::RuntimeEvent>;
	}
	#[pallet::pallet]
	pub struct Pallet<T>(_);
	/// (the origin, the note) of every call that was not undone
	#[pallet::storage]
	pub type Seen<T> = StorageMap<_, Blake2_128Concat, u32, Vec<u8>>;
	#[pallet::event]
	#[pallet::generate_deposit(pub(super) fn deposit_event)]
	pub enum Event<T: Config> {
		Poked { note: u32 },
	}
	#[pallet::error]
	pub enum Error<T> {
		Asked,
	}
	#[pallet::call]
	impl<T: Config> Pallet<T> {
		#[pallet::call_index(0)]
		#[pallet::weight(Weight::from_parts(7, 0))]
		pub fn poke(origin: OriginFor<T>, note: u32, fail: bool) -> DispatchResultWithPostInfo {
			use frame_support::traits::OriginTrait;
			Seen::<T>::insert(note, origin.caller().encode());
			Self::deposit_event(Event::Poked { note });
			ensure!(!fail, Error::<T>::Asked);
			Ok(if note % 2 == 1 { Pays::No } else { Pays::Yes }.into())
		}
		#[pallet::call_index(1)]
		#[pallet::weight(Weight::from_parts(7, 0))]
		pub fn root_only(origin: OriginFor<T>, note: u32) -> DispatchResultWithPostInfo {
			ensure_root(origin)?;
			Seen::<T>::insert(note, Vec::<u8>::new());
			Ok(().into())
		}
	}
}
