//! Typed storage over the key-value store of sp-io.
use sp_runtime::DispatchError;
pub use sp_runtime::TransactionOutcome;
pub mod bounded_vec {
	pub use sp_core::BoundedVec;
}
pub mod bounded_btree_map {
	pub use sp_core::BoundedBTreeMap;
}
pub mod bounded_btree_set {
	pub use sp_core::BoundedBTreeSet;
}

pub fn with_transaction<T, E, F>(f: F) -> Result<T, E>
where
	E: From<DispatchError>,
	F: FnOnce() -> TransactionOutcome<Result<T, E>>,
{
	sp_io::storage::start_transaction();
	match f() {
		TransactionOutcome::Commit(r) => {
			sp_io::storage::commit_transaction();
			r
		}
		TransactionOutcome::Rollback(r) => {
			sp_io::storage::rollback_transaction();
			r
		}
	}
}
pub fn with_storage_layer<T, E, F>(f: F) -> Result<T, E>
where
	E: From<DispatchError>,
	F: FnOnce() -> Result<T, E>,
{
	with_transaction(|| {
		let r = f();
		if r.is_ok() {
			TransactionOutcome::Commit(r)
		} else {
			TransactionOutcome::Rollback(r)
		}
	})
}
pub mod transactional {
	pub use super::{with_storage_layer, with_transaction};
}
pub struct StorageList_;

pub mod hashers {
	/// The hashers only matter to where a value is kept: each leaves its mark in the keys.
	pub trait StorageHasher: 'static {
		const TAG: u8;
	}
	pub trait ReversibleStorageHasher: StorageHasher {}
	macro_rules! hashers { ($($n:ident $tag:literal),*) => { $( pub struct $n; impl StorageHasher for $n { const TAG: u8 = $tag; } impl ReversibleStorageHasher for $n {} )* } }
	hashers!(Blake2_128Concat b'b', Twox64Concat b't', Identity b'i', Blake2_256 b'B', Blake2_128 b'c', Twox128 b'u', Twox256 b'T');
}

pub mod types {
	use super::hashers::StorageHasher;
	use crate::traits::{Get, GetDefault, StorageInstance};
	use parity_scale_codec::{Decode, Encode, EncodeLike, FullCodec};
	use std::marker::PhantomData;

	pub trait QueryKindTrait<Value, OnEmpty> {
		type Query;
		fn to_query(v: Option<Value>) -> Self::Query;
		fn from_query(q: Self::Query) -> Option<Value>;
	}
	pub struct OptionQuery;
	impl<Value> QueryKindTrait<Value, GetDefault> for OptionQuery {
		type Query = Option<Value>;
		fn to_query(v: Option<Value>) -> Option<Value> {
			v
		}
		fn from_query(q: Option<Value>) -> Option<Value> {
			q
		}
	}
	pub struct ResultQuery<Error>(PhantomData<Error>);
	impl<Value, Error, OnEmpty: Get<Result<Value, Error>>> QueryKindTrait<Value, OnEmpty> for ResultQuery<Error> {
		type Query = Result<Value, Error>;
		fn to_query(v: Option<Value>) -> Result<Value, Error> {
			match v {
				Some(v) => Ok(v),
				None => OnEmpty::get(),
			}
		}
		fn from_query(q: Result<Value, Error>) -> Option<Value> {
			q.ok()
		}
	}
	pub struct ValueQuery;
	impl<Value, OnEmpty: Get<Value>> QueryKindTrait<Value, OnEmpty> for ValueQuery {
		type Query = Value;
		fn to_query(v: Option<Value>) -> Value {
			v.unwrap_or_else(OnEmpty::get)
		}
		fn from_query(q: Value) -> Option<Value> {
			Some(q)
		}
	}

	fn base<P: StorageInstance>() -> Vec<u8> {
		let (a, b) = (P::pallet_prefix(), P::STORAGE_PREFIX);
		let mut k = Vec::with_capacity(a.len() + b.len() + 48);
		k.extend_from_slice(a.as_bytes());
		k.push(b':');
		k.extend_from_slice(b.as_bytes());
		k.push(b'/');
		k
	}
	/// Adds one key part: how it is hashed, its length, itself.
	fn push<H: StorageHasher>(k: &mut Vec<u8>, part: &impl Encode) {
		k.push(H::TAG);
		part.using_encoded(|b| {
			k.extend_from_slice(&(b.len() as u32).to_be_bytes());
			k.extend_from_slice(b);
		})
	}
	/// Splits off one key part.
	fn pop<K: Decode>(k: &mut &[u8]) -> K {
		let n = u32::from_be_bytes(k[1..5].try_into().unwrap()) as usize;
		let v = K::decode(&mut &k[5..5 + n]).expect("stored key decodes");
		*k = &k[5 + n..];
		v
	}
	fn read<V: Decode>(k: &[u8]) -> Option<V> {
		sp_io::storage::get(k).map(|b| V::decode(&mut &b[..]).expect("stored value decodes"))
	}
	fn write(k: &[u8], v: &impl Encode) {
		v.using_encoded(|b| sp_io::storage::set(k, b))
	}

	/// Lists that can be added to where they are stored, up to their bound.
	pub trait StorageTryAppend<Item>: Sized {
		fn with(list: Option<Self>, item: Item) -> Result<Self, ()>;
	}
	impl<T, S: sp_core::Get<u32>> StorageTryAppend<T> for sp_core::BoundedVec<T, S> {
		fn with(list: Option<Self>, item: T) -> Result<Self, ()> {
			let mut l = list.unwrap_or_default();
			l.try_push(item).map_err(|_| ())?;
			Ok(l)
		}
	}
	fn stored_len(k: &[u8]) -> Option<usize> {
		let b = sp_io::storage::get(k)?;
		<parity_scale_codec::Compact<u32>>::decode(&mut &b[..]).ok().map(|n| n.0 as usize)
	}

	pub struct StorageValue<Prefix, Value, QueryKind = OptionQuery, OnEmpty = GetDefault>(PhantomData<(Prefix, Value, QueryKind, OnEmpty)>);
	impl<P: StorageInstance, V: FullCodec, Q: QueryKindTrait<V, O>, O> StorageValue<P, V, Q, O> {
		pub fn hashed_key() -> Vec<u8> {
			base::<P>()
		}
		pub fn decode_len() -> Option<usize> {
			stored_len(&base::<P>())
		}
		pub fn try_append<Item>(item: Item) -> Result<(), ()>
		where
			V: StorageTryAppend<Item>,
		{
			let l = V::with(read(&base::<P>()), item)?;
			write(&base::<P>(), &l);
			Ok(())
		}
		pub fn append<Item: Encode>(item: Item)
		where
			V: AsRef<Vec<Item>> + From<Vec<Item>> + IntoIterator<Item = Item> + Default,
		{
			let mut l: Vec<Item> = read::<V>(&base::<P>()).unwrap_or_default().into_iter().collect();
			l.push(item);
			write(&base::<P>(), &V::from(l));
		}
		pub fn exists() -> bool {
			sp_io::storage::exists(&base::<P>())
		}
		pub fn get() -> Q::Query {
			Q::to_query(read(&base::<P>()))
		}
		pub fn try_get() -> Result<V, ()> {
			read(&base::<P>()).ok_or(())
		}
		pub fn put<A: EncodeLike<V>>(v: A) {
			write(&base::<P>(), &v)
		}
		pub fn set(q: Q::Query) {
			match Q::from_query(q) {
				Some(v) => write(&base::<P>(), &v),
				None => sp_io::storage::clear(&base::<P>()),
			}
		}
		pub fn kill() {
			sp_io::storage::clear(&base::<P>())
		}
		pub fn take() -> Q::Query {
			let v = Self::get();
			Self::kill();
			v
		}
		pub fn mutate<R>(f: impl FnOnce(&mut Q::Query) -> R) -> R {
			let mut q = Self::get();
			let r = f(&mut q);
			Self::set(q);
			r
		}
		pub fn try_mutate<R, E>(f: impl FnOnce(&mut Q::Query) -> Result<R, E>) -> Result<R, E> {
			let mut q = Self::get();
			let r = f(&mut q);
			if r.is_ok() {
				Self::set(q);
			}
			r
		}
		pub fn mutate_exists<R>(f: impl FnOnce(&mut Option<V>) -> R) -> R {
			let mut q = read(&base::<P>());
			let r = f(&mut q);
			match q {
				Some(v) => write(&base::<P>(), &v),
				None => Self::kill(),
			}
			r
		}
		pub fn try_mutate_exists<R, E>(f: impl FnOnce(&mut Option<V>) -> Result<R, E>) -> Result<R, E> {
			let mut q = read(&base::<P>());
			let r = f(&mut q);
			if r.is_ok() {
				match q {
					Some(v) => write(&base::<P>(), &v),
					None => Self::kill(),
				}
			}
			r
		}
	}

	/// The operations shared by the maps, on a finished key.
	macro_rules! map_ops {
		($V:ident, $Q:ident; $($H:ident; $k:ident : $K:ident : $A:ident),*) => {
			fn key<$($A: EncodeLike<$K>),*>($($k: &$A),*) -> Vec<u8> {
				let mut key = base::<P>();
				$( push::<$H>(&mut key, $k); )*
				key
			}
			fn store(key: &[u8], v: Option<$V>) {
				match v {
					Some(v) => write(key, &v),
					None => sp_io::storage::clear(key),
				}
			}
			pub fn hashed_key_for<$($A: EncodeLike<$K>),*>($($k: $A),*) -> Vec<u8> {
				Self::key($(&$k),*)
			}
			pub fn contains_key<$($A: EncodeLike<$K>),*>($($k: $A),*) -> bool {
				sp_io::storage::exists(&Self::key($(&$k),*))
			}
			pub fn get<$($A: EncodeLike<$K>),*>($($k: $A),*) -> $Q::Query {
				$Q::to_query(read(&Self::key($(&$k),*)))
			}
			pub fn try_get<$($A: EncodeLike<$K>),*>($($k: $A),*) -> Result<$V, ()> {
				read(&Self::key($(&$k),*)).ok_or(())
			}
			pub fn set<$($A: EncodeLike<$K>),*>($($k: $A,)* q: $Q::Query) {
				Self::store(&Self::key($(&$k),*), $Q::from_query(q))
			}
			pub fn insert<$($A: EncodeLike<$K>,)* VArg: EncodeLike<$V>>($($k: $A,)* v: VArg) {
				write(&Self::key($(&$k),*), &v)
			}
			pub fn remove<$($A: EncodeLike<$K>),*>($($k: $A),*) {
				sp_io::storage::clear(&Self::key($(&$k),*))
			}
			pub fn take<$($A: EncodeLike<$K>),*>($($k: $A),*) -> $Q::Query {
				let key = Self::key($(&$k),*);
				let v = read(&key);
				sp_io::storage::clear(&key);
				$Q::to_query(v)
			}
			pub fn mutate<$($A: EncodeLike<$K>,)* R, F: FnOnce(&mut $Q::Query) -> R>($($k: $A,)* f: F) -> R {
				let key = Self::key($(&$k),*);
				let mut q = $Q::to_query(read(&key));
				let r = f(&mut q);
				Self::store(&key, $Q::from_query(q));
				r
			}
			pub fn try_mutate<$($A: EncodeLike<$K>,)* R, E, F: FnOnce(&mut $Q::Query) -> Result<R, E>>($($k: $A,)* f: F) -> Result<R, E> {
				let key = Self::key($(&$k),*);
				let mut q = $Q::to_query(read(&key));
				let r = f(&mut q);
				if r.is_ok() {
					Self::store(&key, $Q::from_query(q));
				}
				r
			}
			pub fn mutate_exists<$($A: EncodeLike<$K>,)* R, F: FnOnce(&mut Option<$V>) -> R>($($k: $A,)* f: F) -> R {
				let key = Self::key($(&$k),*);
				let mut q = read(&key);
				let r = f(&mut q);
				Self::store(&key, q);
				r
			}
			pub fn mutate_extant<$($A: EncodeLike<$K>,)* R: Default, F: FnOnce(&mut $V) -> R>($($k: $A,)* f: F) -> R {
				let key = Self::key($(&$k),*);
				match read(&key) {
					Some(mut v) => {
						let r = f(&mut v);
						Self::store(&key, Some(v));
						r
					}
					None => R::default(),
				}
			}
			pub fn try_mutate_exists<$($A: EncodeLike<$K>,)* R, E, F: FnOnce(&mut Option<$V>) -> Result<R, E>>($($k: $A,)* f: F) -> Result<R, E> {
				let key = Self::key($(&$k),*);
				let mut q = read(&key);
				let r = f(&mut q);
				if r.is_ok() {
					Self::store(&key, q);
				}
				r
			}
			pub fn iter_values() -> std::vec::IntoIter<$V> {
				sp_io::storage::scan(&base::<P>())
					.into_iter()
					.map(|(_, v)| $V::decode(&mut &v[..]).expect("stored value decodes"))
					.collect::<Vec<_>>()
					.into_iter()
			}
			pub fn clear(_limit: u32, _cursor: Option<&[u8]>) -> u32 {
				sp_io::storage::clear_prefix(&base::<P>())
			}
			pub fn remove_all(_limit: Option<u32>) -> u32 {
				sp_io::storage::clear_prefix(&base::<P>())
			}
			pub fn translate_values<OldValue: Decode, F: FnMut(OldValue) -> Option<$V>>(mut f: F) {
				for (k, v) in sp_io::storage::scan(&base::<P>()) {
					if let Ok(old) = OldValue::decode(&mut &v[..]) {
						Self::store(&k, f(old));
					}
				}
			}
		};
	}
	macro_rules! list_ops {
		($name:ident) => {
			pub fn append<K2: EncodeLike<K>, Item: Encode>(k: K2, item: Item)
			where
				V: AsRef<Vec<Item>> + From<Vec<Item>> + IntoIterator<Item = Item> + Default,
			{
				let key = Self::key(&k);
				let mut l: Vec<Item> = read::<V>(&key).unwrap_or_default().into_iter().collect();
				l.push(item);
				write(&key, &V::from(l));
			}
			pub fn decode_non_dedup_len<K2: EncodeLike<K>>(k: K2) -> Option<usize> {
				stored_len(&Self::key(&k))
			}
			pub fn translate<OldValue: Decode, F: FnMut(K, OldValue) -> Option<V>>(mut f: F) {
				let b = base::<P>();
				for (k, v) in sp_io::storage::scan(&b) {
					if let Ok(old) = OldValue::decode(&mut &v[..]) {
						Self::store(&k, f(pop::<K>(&mut &k[b.len()..]), old));
					}
				}
			}
			pub fn decode_len<K2: EncodeLike<K>>(k: K2) -> Option<usize> {
				stored_len(&Self::key(&k))
			}
			pub fn try_append<K2: EncodeLike<K>, Item>(k: K2, item: Item) -> Result<(), ()>
			where
				V: StorageTryAppend<Item>,
			{
				let key = Self::key(&k);
				let l = V::with(read(&key), item)?;
				write(&key, &l);
				Ok(())
			}
			pub fn iter() -> std::vec::IntoIter<(K, V)> {
				let b = base::<P>();
				sp_io::storage::scan(&b)
					.into_iter()
					.map(|(k, v)| {
						let mut rest = &k[b.len()..];
						(pop::<K>(&mut rest), V::decode(&mut &v[..]).expect("stored value decodes"))
					})
					.collect::<Vec<_>>()
					.into_iter()
			}
			pub fn iter_keys() -> std::vec::IntoIter<K> {
				let b = base::<P>();
				sp_io::storage::scan(&b)
					.into_iter()
					.map(|(k, _)| {
						let mut rest = &k[b.len()..];
						pop::<K>(&mut rest)
					})
					.collect::<Vec<_>>()
					.into_iter()
			}
			pub fn drain() -> std::vec::IntoIter<(K, V)> {
				let all = Self::iter();
				sp_io::storage::clear_prefix(&base::<P>());
				all
			}
			pub fn count() -> u32 {
				sp_io::storage::scan(&base::<P>()).len() as u32
			}
			pub fn swap<A: EncodeLike<K>, B: EncodeLike<K>>(a: A, b: B) {
				let (ka, kb) = (Self::key(&a), Self::key(&b));
				let (va, vb) = (read::<V>(&ka), read::<V>(&kb));
				Self::store(&ka, vb);
				Self::store(&kb, va);
			}
		};
	}

	pub struct StorageMap<Prefix, Hasher, Key, Value, QueryKind = OptionQuery, OnEmpty = GetDefault, MaxValues = GetDefault>(
		PhantomData<(Prefix, Hasher, Key, Value, QueryKind, OnEmpty, MaxValues)>,
	);
	impl<P: StorageInstance, H: StorageHasher, K: FullCodec, V: FullCodec, Q: QueryKindTrait<V, O>, O, M> StorageMap<P, H, K, V, Q, O, M> {
		map_ops!(V, Q; H; k: K: KArg);
		list_ops!(StorageMap);
	}
	pub struct CountedStorageMap<Prefix, Hasher, Key, Value, QueryKind = OptionQuery, OnEmpty = GetDefault, MaxValues = GetDefault>(
		PhantomData<(Prefix, Hasher, Key, Value, QueryKind, OnEmpty, MaxValues)>,
	);
	impl<P: StorageInstance, H: StorageHasher, K: FullCodec, V: FullCodec, Q: QueryKindTrait<V, O>, O, M> CountedStorageMap<P, H, K, V, Q, O, M> {
		map_ops!(V, Q; H; k: K: KArg);
		list_ops!(CountedStorageMap);
	}
	pub struct StorageDoubleMap<Prefix, Hasher1, Key1, Hasher2, Key2, Value, QueryKind = OptionQuery, OnEmpty = GetDefault, MaxValues = GetDefault>(
		PhantomData<(Prefix, Hasher1, Key1, Hasher2, Key2, Value, QueryKind, OnEmpty, MaxValues)>,
	);
	impl<P: StorageInstance, H1: StorageHasher, K1: FullCodec, H2: StorageHasher, K2: FullCodec, V: FullCodec, Q: QueryKindTrait<V, O>, O, M>
		StorageDoubleMap<P, H1, K1, H2, K2, V, Q, O, M>
	{
		map_ops!(V, Q; H1; k1: K1: KArg1, H2; k2: K2: KArg2);

		pub fn append<A: EncodeLike<K1>, B: EncodeLike<K2>, Item: Encode>(k1: A, k2: B, item: Item)
		where
			V: AsRef<Vec<Item>> + From<Vec<Item>> + IntoIterator<Item = Item> + Default,
		{
			let key = Self::key(&k1, &k2);
			let mut l: Vec<Item> = read::<V>(&key).unwrap_or_default().into_iter().collect();
			l.push(item);
			write(&key, &V::from(l));
		}
		pub fn decode_len<A: EncodeLike<K1>, B: EncodeLike<K2>>(k1: A, k2: B) -> Option<usize> {
			stored_len(&Self::key(&k1, &k2))
		}
		pub fn try_append<A: EncodeLike<K1>, B: EncodeLike<K2>, Item>(k1: A, k2: B, item: Item) -> Result<(), ()>
		where
			V: StorageTryAppend<Item>,
		{
			let key = Self::key(&k1, &k2);
			let l = V::with(read(&key), item)?;
			write(&key, &l);
			Ok(())
		}
		fn prefix<A: EncodeLike<K1>>(k1: &A) -> Vec<u8> {
			let mut key = base::<P>();
			push::<H1>(&mut key, k1);
			key
		}
		pub fn iter() -> std::vec::IntoIter<(K1, K2, V)> {
			let b = base::<P>();
			sp_io::storage::scan(&b)
				.into_iter()
				.map(|(k, v)| {
					let mut rest = &k[b.len()..];
					let k1 = pop::<K1>(&mut rest);
					let k2 = pop::<K2>(&mut rest);
					(k1, k2, V::decode(&mut &v[..]).expect("stored value decodes"))
				})
				.collect::<Vec<_>>()
				.into_iter()
		}
		pub fn iter_keys() -> std::vec::IntoIter<(K1, K2)> {
			Self::iter().map(|(a, b, _)| (a, b)).collect::<Vec<_>>().into_iter()
		}
		pub fn drain() -> std::vec::IntoIter<(K1, K2, V)> {
			let all = Self::iter();
			sp_io::storage::clear_prefix(&base::<P>());
			all
		}
		pub fn iter_prefix(k1: impl EncodeLike<K1>) -> std::vec::IntoIter<(K2, V)> {
			let b = Self::prefix(&k1);
			sp_io::storage::scan(&b)
				.into_iter()
				.map(|(k, v)| {
					let mut rest = &k[b.len()..];
					(pop::<K2>(&mut rest), V::decode(&mut &v[..]).expect("stored value decodes"))
				})
				.collect::<Vec<_>>()
				.into_iter()
		}
		pub fn iter_prefix_values(k1: impl EncodeLike<K1>) -> std::vec::IntoIter<V> {
			Self::iter_prefix(k1).map(|x| x.1).collect::<Vec<_>>().into_iter()
		}
		pub fn iter_key_prefix(k1: impl EncodeLike<K1>) -> std::vec::IntoIter<K2> {
			Self::iter_prefix(k1).map(|x| x.0).collect::<Vec<_>>().into_iter()
		}
		pub fn drain_prefix(k1: impl EncodeLike<K1>) -> std::vec::IntoIter<(K2, V)> {
			let b = Self::prefix(&k1);
			let all = Self::iter_prefix(k1);
			sp_io::storage::clear_prefix(&b);
			all
		}
		pub fn clear_prefix(k1: impl EncodeLike<K1>, _limit: u32, _cursor: Option<&[u8]>) -> u32 {
			sp_io::storage::clear_prefix(&Self::prefix(&k1))
		}
		pub fn remove_prefix(k1: impl EncodeLike<K1>, _limit: Option<u32>) -> u32 {
			sp_io::storage::clear_prefix(&Self::prefix(&k1))
		}
		pub fn contains_prefix(k1: impl EncodeLike<K1>) -> bool {
			!sp_io::storage::scan(&Self::prefix(&k1)).is_empty()
		}
	}
	/// One part of the key of a map with any number of them.
	pub struct NMapKey<Hasher, Key>(PhantomData<(Hasher, Key)>);
	pub type Key<Hasher, K> = NMapKey<Hasher, K>;
	pub trait NKeys {
		type Key;
		fn pop_from(k: &mut &[u8]) -> Self::Key;
	}
	/// What stands for a whole key, and for the first parts of one.
	pub trait NArg<Keys> {
		fn push_to(&self, k: &mut Vec<u8>);
	}
	pub trait NPrefix<Keys> {
		type Suffix;
		fn push_to(&self, k: &mut Vec<u8>);
		fn pop_from(k: &mut &[u8]) -> Self::Suffix;
	}
	impl<H, K: Decode> NKeys for NMapKey<H, K> {
		type Key = K;
		fn pop_from(k: &mut &[u8]) -> K {
			pop(k)
		}
	}
	impl<H: StorageHasher, K: Encode, A: EncodeLike<K>> NArg<NMapKey<H, K>> for A {
		fn push_to(&self, k: &mut Vec<u8>) {
			push::<H>(k, self)
		}
	}
	macro_rules! n_keys { ($($H:ident $K:ident $A:ident $i:tt),*) => {
		impl<$($H, $K: Decode),*> NKeys for ($(NMapKey<$H, $K>,)*) {
			type Key = ($($K,)*);
			fn pop_from(k: &mut &[u8]) -> Self::Key {
				($(pop::<$K>(k),)*)
			}
		}
		impl<$($H: StorageHasher, $K: Encode, $A: EncodeLike<$K>),*> NArg<($(NMapKey<$H, $K>,)*)> for ($($A,)*) {
			fn push_to(&self, k: &mut Vec<u8>) {
				$(push::<$H>(k, &self.$i);)*
			}
		}
	} }
	n_keys!(H0 K0 A0 0);
	n_keys!(H0 K0 A0 0, H1 K1 A1 1);
	n_keys!(H0 K0 A0 0, H1 K1 A1 1, H2 K2 A2 2);
	n_keys!(H0 K0 A0 0, H1 K1 A1 1, H2 K2 A2 2, H3 K3 A3 3);
	macro_rules! n_prefix { ($($H:ident $K:ident $A:ident $i:tt),*; $($I:ident $L:ident),*; $suffix:ty, $k:ident => $pop:expr) => {
		impl<$($H: StorageHasher, $K: Encode, $A: EncodeLike<$K>,)* $($I, $L: Decode),*> NPrefix<($(NMapKey<$H, $K>,)* $(NMapKey<$I, $L>,)*)> for ($($A,)*) {
			type Suffix = $suffix;
			fn push_to(&self, k: &mut Vec<u8>) {
				$(push::<$H>(k, &self.$i);)*
			}
			fn pop_from($k: &mut &[u8]) -> $suffix {
				$pop
			}
		}
	} }
	n_prefix!(H0 K0 A0 0; I0 L0; L0, k => pop(k));
	n_prefix!(H0 K0 A0 0; I0 L0, I1 L1; (L0, L1), k => (pop(k), pop(k)));
	n_prefix!(H0 K0 A0 0; I0 L0, I1 L1, I2 L2; (L0, L1, L2), k => (pop(k), pop(k), pop(k)));
	n_prefix!(H0 K0 A0 0, H1 K1 A1 1; I0 L0; L0, k => pop(k));
	n_prefix!(H0 K0 A0 0, H1 K1 A1 1; I0 L0, I1 L1; (L0, L1), k => (pop(k), pop(k)));
	n_prefix!(H0 K0 A0 0, H1 K1 A1 1, H2 K2 A2 2; I0 L0; L0, k => pop(k));

	pub struct StorageNMap<Prefix, Keys, Value, QueryKind = OptionQuery, OnEmpty = GetDefault, MaxValues = GetDefault>(
		PhantomData<(Prefix, Keys, Value, QueryKind, OnEmpty, MaxValues)>,
	);
	pub type CountedStorageNMap<Prefix, Keys, Value, QueryKind = OptionQuery, OnEmpty = GetDefault, MaxValues = GetDefault> =
		StorageNMap<Prefix, Keys, Value, QueryKind, OnEmpty, MaxValues>;
	impl<P: StorageInstance, K: NKeys, V: FullCodec, Q: QueryKindTrait<V, O>, O, M> StorageNMap<P, K, V, Q, O, M> {
		fn key<A: NArg<K>>(k: &A) -> Vec<u8> {
			let mut key = base::<P>();
			k.push_to(&mut key);
			key
		}
		fn store(key: &[u8], v: Option<V>) {
			match v {
				Some(v) => write(key, &v),
				None => sp_io::storage::clear(key),
			}
		}
		pub fn hashed_key_for<A: NArg<K>>(k: A) -> Vec<u8> {
			Self::key(&k)
		}
		pub fn contains_key<A: NArg<K>>(k: A) -> bool {
			sp_io::storage::exists(&Self::key(&k))
		}
		pub fn get<A: NArg<K>>(k: A) -> Q::Query {
			Q::to_query(read(&Self::key(&k)))
		}
		pub fn try_get<A: NArg<K>>(k: A) -> Result<V, ()> {
			read(&Self::key(&k)).ok_or(())
		}
		pub fn set<A: NArg<K>>(k: A, q: Q::Query) {
			Self::store(&Self::key(&k), Q::from_query(q))
		}
		pub fn insert<A: NArg<K>, VArg: EncodeLike<V>>(k: A, v: VArg) {
			write(&Self::key(&k), &v)
		}
		pub fn remove<A: NArg<K>>(k: A) {
			sp_io::storage::clear(&Self::key(&k))
		}
		pub fn take<A: NArg<K>>(k: A) -> Q::Query {
			let key = Self::key(&k);
			let v = read(&key);
			sp_io::storage::clear(&key);
			Q::to_query(v)
		}
		pub fn mutate<A: NArg<K>, R, F: FnOnce(&mut Q::Query) -> R>(k: A, f: F) -> R {
			let key = Self::key(&k);
			let mut q = Q::to_query(read(&key));
			let r = f(&mut q);
			Self::store(&key, Q::from_query(q));
			r
		}
		pub fn try_mutate<A: NArg<K>, R, E, F: FnOnce(&mut Q::Query) -> Result<R, E>>(k: A, f: F) -> Result<R, E> {
			let key = Self::key(&k);
			let mut q = Q::to_query(read(&key));
			let r = f(&mut q);
			if r.is_ok() {
				Self::store(&key, Q::from_query(q));
			}
			r
		}
		pub fn mutate_exists<A: NArg<K>, R, F: FnOnce(&mut Option<V>) -> R>(k: A, f: F) -> R {
			let key = Self::key(&k);
			let mut q = read(&key);
			let r = f(&mut q);
			Self::store(&key, q);
			r
		}
		pub fn try_mutate_exists<A: NArg<K>, R, E, F: FnOnce(&mut Option<V>) -> Result<R, E>>(k: A, f: F) -> Result<R, E> {
			let key = Self::key(&k);
			let mut q = read(&key);
			let r = f(&mut q);
			if r.is_ok() {
				Self::store(&key, q);
			}
			r
		}
		pub fn count() -> u32 {
			sp_io::storage::scan(&base::<P>()).len() as u32
		}
		pub fn iter() -> std::vec::IntoIter<(K::Key, V)> {
			let b = base::<P>();
			sp_io::storage::scan(&b)
				.into_iter()
				.map(|(k, v)| (K::pop_from(&mut &k[b.len()..]), V::decode(&mut &v[..]).expect("stored value decodes")))
				.collect::<Vec<_>>()
				.into_iter()
		}
		pub fn iter_keys() -> std::vec::IntoIter<K::Key> {
			Self::iter().map(|x| x.0).collect::<Vec<_>>().into_iter()
		}
		pub fn iter_values() -> std::vec::IntoIter<V> {
			Self::iter().map(|x| x.1).collect::<Vec<_>>().into_iter()
		}
		pub fn drain() -> std::vec::IntoIter<(K::Key, V)> {
			let all = Self::iter();
			sp_io::storage::clear_prefix(&base::<P>());
			all
		}
		pub fn clear(_limit: u32, _cursor: Option<&[u8]>) -> u32 {
			sp_io::storage::clear_prefix(&base::<P>())
		}
		fn prefix<A: NPrefix<K>>(k: &A) -> Vec<u8> {
			let mut key = base::<P>();
			k.push_to(&mut key);
			key
		}
		pub fn iter_prefix<A: NPrefix<K>>(k: A) -> std::vec::IntoIter<(A::Suffix, V)> {
			let b = Self::prefix(&k);
			sp_io::storage::scan(&b)
				.into_iter()
				.map(|(k, v)| (A::pop_from(&mut &k[b.len()..]), V::decode(&mut &v[..]).expect("stored value decodes")))
				.collect::<Vec<_>>()
				.into_iter()
		}
		pub fn iter_key_prefix<A: NPrefix<K>>(k: A) -> std::vec::IntoIter<A::Suffix> {
			Self::iter_prefix(k).map(|x| x.0).collect::<Vec<_>>().into_iter()
		}
		pub fn iter_prefix_values<A: NPrefix<K>>(k: A) -> std::vec::IntoIter<V> {
			Self::iter_prefix(k).map(|x| x.1).collect::<Vec<_>>().into_iter()
		}
		pub fn drain_prefix<A: NPrefix<K>>(k: A) -> std::vec::IntoIter<(A::Suffix, V)> {
			let b = Self::prefix(&k);
			let all = Self::iter_prefix(k);
			sp_io::storage::clear_prefix(&b);
			all
		}
		pub fn clear_prefix<A: NPrefix<K>>(k: A, _limit: u32, _cursor: Option<&[u8]>) -> u32 {
			sp_io::storage::clear_prefix(&Self::prefix(&k))
		}
		pub fn contains_prefix<A: NPrefix<K>>(k: A) -> bool {
			!sp_io::storage::scan(&Self::prefix(&k)).is_empty()
		}
	}
}
