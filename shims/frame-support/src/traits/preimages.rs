use parity_scale_codec::{Decode, Encode, MaxEncodedLen};
use scale_info::TypeInfo;
use sp_core::{BoundedVec, ConstU32};
use sp_runtime::traits::Hash;
use sp_runtime::DispatchError;
use std::borrow::Cow;
use std::marker::PhantomData;

pub type BoundedInline = BoundedVec<u8, ConstU32<128>>;

pub enum Bounded<T, H: Hash> {
	Legacy { hash: H::Output, dummy: PhantomData<T> },
	Inline(BoundedInline),
	Lookup { hash: H::Output, len: u32 },
}
impl<T, H: Hash> Clone for Bounded<T, H> {
	fn clone(&self) -> Self {
		match self {
			Self::Legacy { hash, .. } => Self::Legacy { hash: *hash, dummy: PhantomData },
			Self::Inline(b) => Self::Inline(b.clone()),
			Self::Lookup { hash, len } => Self::Lookup { hash: *hash, len: *len },
		}
	}
}
impl<T, H: Hash> PartialEq for Bounded<T, H> {
	fn eq(&self, o: &Self) -> bool {
		self.encode() == o.encode()
	}
}
impl<T, H: Hash> Eq for Bounded<T, H> {}
impl<T, H: Hash> std::fmt::Debug for Bounded<T, H> {
	fn fmt(&self, f: &mut std::fmt::Formatter) -> std::fmt::Result {
		write!(f, "Bounded({:?})", self.encode())
	}
}
impl<T, H: Hash> Encode for Bounded<T, H> {
	fn encode_to<W: parity_scale_codec::Output + ?Sized>(&self, d: &mut W) {
		match self {
			Self::Legacy { hash, .. } => (0u8, hash).encode_to(d),
			Self::Inline(b) => (1u8, b).encode_to(d),
			Self::Lookup { hash, len } => (2u8, hash, len).encode_to(d),
		}
	}
}
impl<T, H: Hash> parity_scale_codec::EncodeLike for Bounded<T, H> {}
impl<T, H: Hash> Decode for Bounded<T, H> {
	fn decode<I: parity_scale_codec::Input>(i: &mut I) -> Result<Self, parity_scale_codec::Error> {
		Ok(match u8::decode(i)? {
			0 => Self::Legacy { hash: Decode::decode(i)?, dummy: PhantomData },
			1 => Self::Inline(Decode::decode(i)?),
			2 => Self::Lookup { hash: Decode::decode(i)?, len: Decode::decode(i)? },
			_ => return Err("variant".into()),
		})
	}
}
impl<T, H: Hash> MaxEncodedLen for Bounded<T, H> {
	fn max_encoded_len() -> usize {
		1 + 130
	}
}
impl<T: 'static, H: Hash> TypeInfo for Bounded<T, H> {
	type Identity = Self;
	fn type_info() -> scale_info::Type {
		crate::__private::opaque_type("Bounded")
	}
}
impl<T, H: Hash> Bounded<T, H> {
	pub fn len(&self) -> Option<u32> {
		match self {
			Self::Legacy { .. } => None,
			Self::Inline(i) => Some(i.len() as u32),
			Self::Lookup { len, .. } => Some(*len),
		}
	}
	pub fn hash(&self) -> H::Output {
		match self {
			Self::Legacy { hash, .. } | Self::Lookup { hash, .. } => *hash,
			Self::Inline(x) => H::hash(x.as_ref()),
		}
	}
	pub fn lookup_hash(&self) -> Option<H::Output> {
		match self {
			Self::Inline(_) => None,
			_ => Some(self.hash()),
		}
	}
	pub fn lookup_needed(&self) -> bool {
		!matches!(self, Self::Inline(_))
	}
}
pub type FetchResult = Result<Cow<'static, [u8]>, DispatchError>;

pub trait QueryPreimage {
	type H: Hash;
	fn len(hash: &<Self::H as Hash>::Output) -> Option<u32>;
	fn fetch(hash: &<Self::H as Hash>::Output, len: Option<u32>) -> FetchResult;
	fn is_requested(hash: &<Self::H as Hash>::Output) -> bool;
	fn request(hash: &<Self::H as Hash>::Output);
	fn unrequest(hash: &<Self::H as Hash>::Output);
	fn hold<T>(bounded: &Bounded<T, Self::H>) {
		if let Some(h) = bounded.lookup_hash() {
			Self::request(&h)
		}
	}
	fn drop<T>(bounded: &Bounded<T, Self::H>) {
		if let Some(h) = bounded.lookup_hash() {
			Self::unrequest(&h)
		}
	}
	fn have<T>(bounded: &Bounded<T, Self::H>) -> bool {
		match bounded {
			Bounded::Legacy { hash, .. } | Bounded::Lookup { hash, .. } => Self::len(hash).is_some(),
			Bounded::Inline(_) => true,
		}
	}
	fn peek<T: Decode>(bounded: &Bounded<T, Self::H>) -> Result<(T, Option<u32>), DispatchError> {
		match bounded {
			Bounded::Inline(data) => T::decode(&mut &data[..]).ok().map(|x| (x, None)),
			Bounded::Lookup { hash, len } => {
				let data = Self::fetch(hash, Some(*len))?;
				T::decode(&mut &data[..]).ok().map(|x| (x, Some(data.len() as u32)))
			}
			Bounded::Legacy { hash, .. } => {
				let data = Self::fetch(hash, None)?;
				T::decode(&mut &data[..]).ok().map(|x| (x, Some(data.len() as u32)))
			}
		}
		.ok_or(DispatchError::Corruption)
	}
	fn realize<T: Decode>(bounded: &Bounded<T, Self::H>) -> Result<(T, Option<u32>), DispatchError> {
		let r = Self::peek(bounded)?;
		Self::drop(bounded);
		Ok(r)
	}
}
pub trait StorePreimage: QueryPreimage {
	const MAX_LENGTH: usize;
	fn note(bytes: Cow<[u8]>) -> Result<<Self::H as Hash>::Output, DispatchError>;
	fn unnote(hash: &<Self::H as Hash>::Output) {
		Self::unrequest(hash)
	}
	fn bound<T: Encode>(t: T) -> Result<Bounded<T, Self::H>, DispatchError> {
		let data = t.encode();
		let len = data.len() as u32;
		Ok(match BoundedInline::try_from(data) {
			Ok(b) => Bounded::Inline(b),
			Err(unbounded) => Bounded::Lookup { hash: Self::note(unbounded.into())?, len },
		})
	}
}
