//! BoundedVec and friends, after the bounded-collections crate.
use crate::Get;
use parity_scale_codec::{Compact, Decode, Encode, EncodeLike, Error, Input, MaxEncodedLen};
use scale_info::{Type, TypeInfo};
use serde::{Deserialize, Deserializer, Serialize, Serializer};
use std::marker::PhantomData;
use std::ops::{Deref, Index, IndexMut, RangeBounds};
use std::slice::SliceIndex;

pub struct BoundedVec<T, S>(Vec<T>, PhantomData<S>);
pub type WeakBoundedVec<T, S> = BoundedVec<T, S>;

impl<T, S> BoundedVec<T, S> {
	fn unchecked_from(v: Vec<T>) -> Self {
		Self(v, PhantomData)
	}
	pub const fn new() -> Self {
		Self(Vec::new(), PhantomData)
	}
	pub fn into_inner(self) -> Vec<T> {
		self.0
	}
	pub fn as_slice(&self) -> &[T] {
		&self.0
	}
	pub fn sort_by<F: FnMut(&T, &T) -> std::cmp::Ordering>(&mut self, f: F) {
		self.0.sort_by(f)
	}
	pub fn sort_by_key<K: Ord, F: FnMut(&T) -> K>(&mut self, f: F) {
		self.0.sort_by_key(f)
	}
	pub fn sort(&mut self)
	where
		T: Ord,
	{
		self.0.sort()
	}
	pub fn remove(&mut self, i: usize) -> T {
		self.0.remove(i)
	}
	pub fn swap_remove(&mut self, i: usize) -> T {
		self.0.swap_remove(i)
	}
	pub fn retain<F: FnMut(&T) -> bool>(&mut self, f: F) {
		self.0.retain(f)
	}
	pub fn truncate(&mut self, n: usize) {
		self.0.truncate(n)
	}
	pub fn pop(&mut self) -> Option<T> {
		self.0.pop()
	}
	pub fn iter_mut(&mut self) -> std::slice::IterMut<'_, T> {
		self.0.iter_mut()
	}
	pub fn last_mut(&mut self) -> Option<&mut T> {
		self.0.last_mut()
	}
	pub fn get_mut<I: SliceIndex<[T]>>(&mut self, i: I) -> Option<&mut I::Output> {
		self.0.get_mut(i)
	}
	pub fn drain<R: RangeBounds<usize>>(&mut self, r: R) -> std::vec::Drain<'_, T> {
		self.0.drain(r)
	}
	pub fn clear(&mut self) {
		self.0.clear()
	}
}
impl<T, S: Get<u32>> BoundedVec<T, S> {
	pub fn bound() -> usize {
		S::get() as usize
	}
	pub fn is_full(&self) -> bool {
		self.0.len() >= Self::bound()
	}
	pub fn with_bounded_capacity(n: usize) -> Self {
		Self(Vec::with_capacity(n.min(Self::bound())), PhantomData)
	}
	pub fn truncate_from(mut v: Vec<T>) -> Self {
		v.truncate(Self::bound());
		Self(v, PhantomData)
	}
	pub fn try_push(&mut self, t: T) -> Result<(), T> {
		if self.0.len() < Self::bound() {
			self.0.push(t);
			Ok(())
		} else {
			Err(t)
		}
	}
	pub fn try_insert(&mut self, i: usize, t: T) -> Result<(), T> {
		if self.0.len() < Self::bound() {
			self.0.insert(i, t);
			Ok(())
		} else {
			Err(t)
		}
	}
	pub fn force_push(&mut self, t: T) {
		self.try_push(t).ok();
	}
	pub fn try_extend(&mut self, it: impl IntoIterator<Item = T> + ExactSizeIterator) -> Result<(), ()> {
		if it.len().saturating_add(self.0.len()) <= Self::bound() {
			self.0.extend(it);
			Ok(())
		} else {
			Err(())
		}
	}
	pub fn try_append(&mut self, other: &mut Vec<T>) -> Result<(), ()> {
		if other.len().saturating_add(self.0.len()) > Self::bound() {
			Err(())
		} else {
			self.0.append(other);
			Ok(())
		}
	}
	pub fn try_mutate(mut self, mut f: impl FnMut(&mut Vec<T>)) -> Option<Self> {
		f(&mut self.0);
		(self.0.len() <= Self::bound()).then_some(self)
	}
	pub fn try_collect_from<I: IntoIterator<Item = T>>(i: I) -> Result<Self, ()> {
		Self::try_from(i.into_iter().collect::<Vec<_>>()).map_err(|_| ())
	}
}
impl<T, S: Get<u32>> TryFrom<Vec<T>> for BoundedVec<T, S> {
	type Error = Vec<T>;
	fn try_from(v: Vec<T>) -> Result<Self, Vec<T>> {
		if v.len() <= Self::bound() {
			Ok(Self::unchecked_from(v))
		} else {
			Err(v)
		}
	}
}
impl<I, T, Bound> crate::TryCollect<BoundedVec<T, Bound>> for I
where
	I: ExactSizeIterator + Iterator<Item = T>,
	Bound: Get<u32>,
{
	type Error = &'static str;
	fn try_collect(self) -> Result<BoundedVec<T, Bound>, Self::Error> {
		if self.len() > Bound::get() as usize {
			Err("iterator length too big")
		} else {
			Ok(BoundedVec::unchecked_from(self.collect()))
		}
	}
}
impl<T, S> From<BoundedVec<T, S>> for Vec<T> {
	fn from(b: BoundedVec<T, S>) -> Vec<T> {
		b.0
	}
}
impl<T, S> Default for BoundedVec<T, S> {
	fn default() -> Self {
		Self(Vec::new(), PhantomData)
	}
}
impl<T: Clone, S> Clone for BoundedVec<T, S> {
	fn clone(&self) -> Self {
		Self(self.0.clone(), PhantomData)
	}
}
impl<T: std::fmt::Debug, S> std::fmt::Debug for BoundedVec<T, S> {
	fn fmt(&self, f: &mut std::fmt::Formatter<'_>) -> std::fmt::Result {
		f.debug_tuple("BoundedVec").field(&self.0).finish()
	}
}
impl<T: PartialEq, A, B> PartialEq<BoundedVec<T, B>> for BoundedVec<T, A> {
	fn eq(&self, o: &BoundedVec<T, B>) -> bool {
		self.0 == o.0
	}
}
impl<T: PartialEq, S> PartialEq<Vec<T>> for BoundedVec<T, S> {
	fn eq(&self, o: &Vec<T>) -> bool {
		&self.0 == o
	}
}
impl<T: Eq, S> Eq for BoundedVec<T, S> {}
impl<T: PartialOrd, S> PartialOrd for BoundedVec<T, S> {
	fn partial_cmp(&self, o: &Self) -> Option<std::cmp::Ordering> {
		self.0.partial_cmp(&o.0)
	}
}
impl<T: Ord, S> Ord for BoundedVec<T, S> {
	fn cmp(&self, o: &Self) -> std::cmp::Ordering {
		self.0.cmp(&o.0)
	}
}
impl<T: std::hash::Hash, S> std::hash::Hash for BoundedVec<T, S> {
	fn hash<H: std::hash::Hasher>(&self, h: &mut H) {
		self.0.hash(h)
	}
}
impl<T, S> Deref for BoundedVec<T, S> {
	type Target = Vec<T>;
	fn deref(&self) -> &Vec<T> {
		&self.0
	}
}
impl<T, S> AsRef<Vec<T>> for BoundedVec<T, S> {
	fn as_ref(&self) -> &Vec<T> {
		&self.0
	}
}
impl<T, S> AsRef<[T]> for BoundedVec<T, S> {
	fn as_ref(&self) -> &[T] {
		&self.0
	}
}
impl<T, S> AsMut<[T]> for BoundedVec<T, S> {
	fn as_mut(&mut self) -> &mut [T] {
		&mut self.0
	}
}
impl<T, S, I: SliceIndex<[T]>> Index<I> for BoundedVec<T, S> {
	type Output = I::Output;
	fn index(&self, i: I) -> &I::Output {
		self.0.index(i)
	}
}
impl<T, S, I: SliceIndex<[T]>> IndexMut<I> for BoundedVec<T, S> {
	fn index_mut(&mut self, i: I) -> &mut I::Output {
		self.0.index_mut(i)
	}
}
impl<T, S> IntoIterator for BoundedVec<T, S> {
	type Item = T;
	type IntoIter = std::vec::IntoIter<T>;
	fn into_iter(self) -> Self::IntoIter {
		self.0.into_iter()
	}
}
impl<'a, T, S> IntoIterator for &'a BoundedVec<T, S> {
	type Item = &'a T;
	type IntoIter = std::slice::Iter<'a, T>;
	fn into_iter(self) -> Self::IntoIter {
		self.0.iter()
	}
}
impl<'a, T, S> IntoIterator for &'a mut BoundedVec<T, S> {
	type Item = &'a mut T;
	type IntoIter = std::slice::IterMut<'a, T>;
	fn into_iter(self) -> Self::IntoIter {
		self.0.iter_mut()
	}
}
impl<T: Encode, S> Encode for BoundedVec<T, S> {
	fn size_hint(&self) -> usize {
		self.0.size_hint()
	}
	fn encode_to<O: parity_scale_codec::Output + ?Sized>(&self, o: &mut O) {
		self.0.encode_to(o)
	}
}
impl<T: Encode, S> EncodeLike for BoundedVec<T, S> {}
impl<T: Encode, S> EncodeLike<Vec<T>> for BoundedVec<T, S> {}
impl<T: Decode, S: Get<u32>> Decode for BoundedVec<T, S> {
	fn decode<I: Input>(input: &mut I) -> Result<Self, Error> {
		let v = Vec::<T>::decode(input)?;
		if v.len() > Self::bound() {
			return Err("BoundedVec exceeds its limit".into());
		}
		Ok(Self::unchecked_from(v))
	}
}
impl<T: MaxEncodedLen, S: Get<u32>> MaxEncodedLen for BoundedVec<T, S> {
	fn max_encoded_len() -> usize {
		Compact(S::get())
			.encoded_size()
			.saturating_add(Self::bound().saturating_mul(T::max_encoded_len()))
	}
}
impl<T: TypeInfo + 'static, S: 'static> TypeInfo for BoundedVec<T, S> {
	type Identity = Vec<T>;
	fn type_info() -> Type {
		<Vec<T> as TypeInfo>::type_info()
	}
}
impl<T: Serialize, S> Serialize for BoundedVec<T, S> {
	fn serialize<Z: Serializer>(&self, s: Z) -> Result<Z::Ok, Z::Error> {
		self.0.serialize(s)
	}
}
impl<'de, T: Deserialize<'de>, S: Get<u32>> Deserialize<'de> for BoundedVec<T, S> {
	fn deserialize<D: Deserializer<'de>>(d: D) -> Result<Self, D::Error> {
		let v = Vec::<T>::deserialize(d)?;
		Self::try_from(v).map_err(|_| serde::de::Error::custom("out of bounds"))
	}
}

pub struct BoundedSlice<'a, T, S>(pub &'a [T], PhantomData<S>);

impl<'a, T, S: Get<u32>> TryFrom<&'a [T]> for BoundedSlice<'a, T, S> {
	type Error = &'a [T];
	fn try_from(t: &'a [T]) -> Result<Self, &'a [T]> {
		if t.len() <= S::get() as usize {
			Ok(Self(t, PhantomData))
		} else {
			Err(t)
		}
	}
}

/// Bounded maps and sets, after bounded-collections.
macro_rules! bounded_tree {
	($name:ident, [$($g:ident: $b:path),*], $inner:ty, $item:ty) => {
		pub struct $name<$($g,)* S>($inner, PhantomData<S>);
		impl<$($g: $b,)* S: Get<u32>> $name<$($g,)* S> {
			pub fn new() -> Self {
				Self(Default::default(), PhantomData)
			}
			pub fn bound() -> usize {
				S::get() as usize
			}
			pub fn into_inner(self) -> $inner {
				self.0
			}
			pub fn clear(&mut self) {
				self.0.clear()
			}
			pub fn try_mutate(mut self, mut f: impl FnMut(&mut $inner)) -> Option<Self> {
				f(&mut self.0);
				(self.0.len() <= Self::bound()).then_some(self)
			}
		}
		impl<$($g: $b,)* S: Get<u32>> Default for $name<$($g,)* S> {
			fn default() -> Self {
				Self::new()
			}
		}
		impl<$($g: $b + Clone,)* S> Clone for $name<$($g,)* S> {
			fn clone(&self) -> Self {
				Self(self.0.clone(), PhantomData)
			}
		}
		impl<$($g: $b + std::fmt::Debug,)* S> std::fmt::Debug for $name<$($g,)* S> {
			fn fmt(&self, f: &mut std::fmt::Formatter<'_>) -> std::fmt::Result {
				self.0.fmt(f)
			}
		}
		impl<$($g: $b + PartialEq,)* S> PartialEq for $name<$($g,)* S> {
			fn eq(&self, o: &Self) -> bool {
				self.0 == o.0
			}
		}
		impl<$($g: $b + Eq,)* S> Eq for $name<$($g,)* S> {}
		impl<$($g,)* S> Deref for $name<$($g,)* S> {
			type Target = $inner;
			fn deref(&self) -> &Self::Target {
				&self.0
			}
		}
		impl<$($g: $b,)* S: Get<u32>> TryFrom<$inner> for $name<$($g,)* S> {
			type Error = ();
			fn try_from(t: $inner) -> Result<Self, ()> {
				if t.len() <= S::get() as usize { Ok(Self(t, PhantomData)) } else { Err(()) }
			}
		}
		impl<$($g,)* S> From<$name<$($g,)* S>> for $inner {
			fn from(t: $name<$($g,)* S>) -> Self {
				t.0
			}
		}
		impl<$($g: $b,)* S> IntoIterator for $name<$($g,)* S> {
			type Item = $item;
			type IntoIter = <$inner as IntoIterator>::IntoIter;
			fn into_iter(self) -> Self::IntoIter {
				self.0.into_iter()
			}
		}
		impl<$($g: $b + Encode,)* S> Encode for $name<$($g,)* S> {
			fn encode_to<W: parity_scale_codec::Output + ?Sized>(&self, w: &mut W) {
				self.0.encode_to(w)
			}
		}
		impl<$($g: $b + Encode,)* S> EncodeLike for $name<$($g,)* S> {}
		impl<$($g: $b + Decode,)* S: Get<u32>> Decode for $name<$($g,)* S> {
			fn decode<I: Input>(i: &mut I) -> Result<Self, Error> {
				let t = <$inner>::decode(i)?;
				Self::try_from(t).map_err(|_| "too many entries".into())
			}
		}
		impl<$($g: $b + MaxEncodedLen,)* S: Get<u32>> MaxEncodedLen for $name<$($g,)* S> {
			fn max_encoded_len() -> usize {
				let each = 0 $(+ $g::max_encoded_len())*;
				Compact(S::get()).encode().len() + each * S::get() as usize
			}
		}
		impl<$($g: TypeInfo + 'static,)* S: 'static> TypeInfo for $name<$($g,)* S> {
			type Identity = Self;
			fn type_info() -> Type {
				<$inner as TypeInfo>::type_info()
			}
		}
	};
}
bounded_tree!(BoundedBTreeMap, [K: Ord, V: Sized], std::collections::BTreeMap<K, V>, (K, V));
bounded_tree!(BoundedBTreeSet, [K: Ord], std::collections::BTreeSet<K>, K);
impl<K: Ord, V, S: Get<u32>> BoundedBTreeMap<K, V, S> {
	pub fn try_insert(&mut self, k: K, v: V) -> Result<Option<V>, (K, V)> {
		if self.0.len() < S::get() as usize || self.0.contains_key(&k) {
			Ok(self.0.insert(k, v))
		} else {
			Err((k, v))
		}
	}
	pub fn remove<Q: Ord + ?Sized>(&mut self, k: &Q) -> Option<V>
	where
		K: std::borrow::Borrow<Q>,
	{
		self.0.remove(k)
	}
	pub fn get_mut<Q: Ord + ?Sized>(&mut self, k: &Q) -> Option<&mut V>
	where
		K: std::borrow::Borrow<Q>,
	{
		self.0.get_mut(k)
	}
	pub fn retain<F: FnMut(&K, &mut V) -> bool>(&mut self, f: F) {
		self.0.retain(f)
	}
}
impl<K: Ord, S: Get<u32>> BoundedBTreeSet<K, S> {
	pub fn try_insert(&mut self, k: K) -> Result<bool, K> {
		if self.0.len() < S::get() as usize || self.0.contains(&k) {
			Ok(self.0.insert(k))
		} else {
			Err(k)
		}
	}
	pub fn remove<Q: Ord + ?Sized>(&mut self, k: &Q) -> bool
	where
		K: std::borrow::Borrow<Q>,
	{
		self.0.remove(k)
	}
}
