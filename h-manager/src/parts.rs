//! Stand-ins for what the manager sets up: collections and items, tracks, seats in the collective.
//! Every change can be made to fail.
use fc_traits_tracks::MutateTracks;
use frame_support::traits::nonfungibles_v2 as nfs;
use frame_support::traits::RankedMembers;
use frame_support::Parameter;
use pallet_nfts::CollectionConfig;
use pallet_referenda::{Track, TrackInfo, TracksInfo};
use parity_scale_codec::{Codec, Decode, Encode, EncodeLike, MaxEncodedLen};
use scale_info::TypeInfo;
use sp_runtime::{DispatchError, DispatchResult};
use std::borrow::Cow;
use std::cell::Cell;
use std::fmt::Debug;
use std::marker::PhantomData;
use vmock::kv;

thread_local! { static FAIL: Cell<Option<u32>> = const { Cell::new(None) }; }
/// The n-th change from now on fails.
pub fn fail_at(n: Option<u32>) {
	FAIL.with(|f| f.set(n))
}
/// Whether the failure asked for is still to come.
pub fn pending() -> bool {
	FAIL.with(|f| f.get().is_some())
}
fn tick() -> DispatchResult {
	FAIL.with(|f| match f.get() {
		Some(0) => {
			f.set(None);
			Err(DispatchError::Other("injected"))
		}
		Some(n) => {
			f.set(Some(n - 1));
			Ok(())
		}
		None => Ok(()),
	})
}
fn all<K: Decode, V: Decode>(tag: &str) -> Vec<(K, V)> {
	let prefix = kv::key(tag, ());
	sp_io::storage::scan(&prefix)
		.into_iter()
		.map(|(k, v)| {
			(
				K::decode(&mut &k[prefix.len()..]).expect("HARNESS-BUG: key"),
				V::decode(&mut &v[..]).expect("HARNESS-BUG: value"),
			)
		})
		.collect()
}
fn once<K: Encode, V: Encode + Decode>(tag: &str, k: K, v: &V) -> DispatchResult {
	tick()?;
	let key = kv::key(tag, k);
	if kv::get::<V>(&key).is_some() {
		return Err(DispatchError::Other("taken"));
	}
	kv::put(&key, v);
	Ok(())
}

// === collections and items ===

#[derive(Clone, Debug, PartialEq, Eq, Encode, Decode)]
pub struct Item<A> {
	pub owner: A,
	pub price: Option<(u128, Option<A>)>,
}
/// All collections with their owners.
pub fn collections<C: Decode, A: Decode>() -> Vec<(C, A)> {
	all("collection")
}
pub fn put_collection<C: Encode, A: Encode + Decode>(c: C, a: &A) {
	kv::put(&kv::key("collection", c), a)
}
pub fn items<C: Decode, I: Decode, A: Decode>() -> Vec<((C, I), Item<A>)> {
	all("item")
}
pub fn put_item<C: Encode, I: Encode, A: Encode + Decode>(c: C, i: I, it: &Item<A>) {
	kv::put(&kv::key("item", (c, i)), it)
}
pub struct Nfts<A, C, I>(PhantomData<(A, C, I)>);
impl<A: Parameter, C: Parameter, I: Parameter> nfs::Inspect<A> for Nfts<A, C, I> {
	type ItemId = I;
	type CollectionId = C;
	fn owner(c: &C, i: &I) -> Option<A> {
		kv::get::<Item<A>>(&kv::key("item", (c, i))).map(|x| x.owner)
	}
	fn collection_owner(c: &C) -> Option<A> {
		kv::get(&kv::key("collection", c))
	}
}
impl<A: Parameter, C: Parameter, I: Parameter, P, B, X> nfs::Create<A, CollectionConfig<P, B, X>> for Nfts<A, C, I> {
	fn create_collection(_: &A, _: &A, _: &CollectionConfig<P, B, X>) -> Result<C, DispatchError> {
		panic!("SHIM-UNSUPPORTED: collections without a given identifier")
	}
	fn create_collection_with_id(c: C, who: &A, _admin: &A, _: &CollectionConfig<P, B, X>) -> DispatchResult {
		once("collection", c, who)
	}
}
impl<A: Parameter, C: Parameter, I: Parameter, X> nfs::Mutate<A, X> for Nfts<A, C, I> {
	fn mint_into(c: &C, i: &I, who: &A, _: &X, _: bool) -> DispatchResult {
		once("item", (c, i), &Item { owner: who.clone(), price: None })
	}
}
impl<A: Parameter, C: Parameter, I: Parameter> nfs::Trading<A, u128> for Nfts<A, C, I> {
	fn buy_item(_: &C, _: &I, _: &A, _: &u128) -> DispatchResult {
		panic!("SHIM-UNSUPPORTED: buying")
	}
	fn set_price(c: &C, i: &I, sender: &A, price: Option<u128>, to: Option<A>) -> DispatchResult {
		tick()?;
		let key = kv::key("item", (c, i));
		let mut it = kv::get::<Item<A>>(&key).ok_or(DispatchError::Other("unknown item"))?;
		if it.owner != *sender {
			return Err(DispatchError::Other("not the owner"));
		}
		it.price = price.map(|p| (p, to));
		kv::put(&key, &it);
		Ok(())
	}
	fn item_price(c: &C, i: &I) -> Option<u128> {
		kv::get::<Item<A>>(&kv::key("item", (c, i)))?.price.map(|p| p.0)
	}
}

// === tracks ===

pub type Info = TrackInfo<u128, u64>;
pub fn tracks<C: Decode, O: Decode>() -> Vec<(C, (Info, O))> {
	all("track")
}
pub fn put_track<C: Encode, O: Encode + Decode>(c: C, i: &Info, o: &O) {
	kv::put(&kv::key("track", c), &(i, o))
}
pub struct Tracks<C, O>(PhantomData<(C, O)>);
impl<C, O> TracksInfo<u128, u64> for Tracks<C, O>
where
	C: Copy + Codec + Debug + Eq + Ord + MaxEncodedLen + TypeInfo + EncodeLike + 'static,
	O: Codec + PartialEq + 'static,
{
	type Id = C;
	type RuntimeOrigin = O;
	fn tracks() -> impl Iterator<Item = Cow<'static, Track<C, u128, u64>>> {
		tracks::<C, O>().into_iter().map(|(id, (info, _))| Cow::Owned(Track { id, info }))
	}
	fn track_for(o: &O) -> Result<C, ()> {
		tracks::<C, O>().into_iter().find(|x| x.1 .1 == *o).map(|x| x.0).ok_or(())
	}
}
impl<C: Encode, O: Encode + Decode> MutateTracks<u128, u64> for Tracks<C, O> {
	type Id = C;
	type RuntimeOrigin = O;
	fn insert(id: C, info: Info, origin: O) -> DispatchResult {
		once("track", id, &(info, origin))
	}
	fn update(id: C, info: Info) -> DispatchResult {
		tick()?;
		let key = kv::key("track", id);
		let (_, o) = kv::get::<(Info, O)>(&key).ok_or(DispatchError::Other("unknown track"))?;
		kv::put(&key, &(info, o));
		Ok(())
	}
	fn remove(_: C, _: O) -> DispatchResult {
		panic!("SHIM-UNSUPPORTED: removing tracks")
	}
}

// === seats ===

pub fn seats<A: Decode>() -> Vec<(A, u16)> {
	all("seat")
}
pub fn put_seat<A: Encode>(a: A, rank: u16) {
	kv::put(&kv::key("seat", a), &rank)
}
pub struct Seats<A>(PhantomData<A>);
impl<A: Encode> RankedMembers for Seats<A> {
	type AccountId = A;
	type Rank = u16;
	fn min_rank() -> u16 {
		0
	}
	fn rank_of(who: &A) -> Option<u16> {
		kv::get(&kv::key("seat", who))
	}
	fn induct(who: &A) -> DispatchResult {
		once("seat", who, &0u16)
	}
	fn promote(who: &A) -> DispatchResult {
		tick()?;
		let r = Self::rank_of(who).ok_or(DispatchError::Other("no seat"))?;
		kv::put(&kv::key("seat", who), &(r + 1));
		Ok(())
	}
	fn demote(who: &A) -> DispatchResult {
		tick()?;
		match Self::rank_of(who).ok_or(DispatchError::Other("no seat"))? {
			0 => sp_io::storage::clear(&kv::key("seat", who)),
			r => kv::put(&kv::key("seat", who), &(r - 1)),
		}
		Ok(())
	}
}
