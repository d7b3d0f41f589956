use parity_scale_codec::{Decode, Encode, MaxEncodedLen};
use scale_info::TypeInfo;
use serde::{Deserialize, Serialize};

pub trait ByteArray: AsRef<[u8]> + AsMut<[u8]> + for<'a> TryFrom<&'a [u8], Error = ()> {
	const LEN: usize;
	fn from_slice(data: &[u8]) -> Result<Self, ()> {
		Self::try_from(data)
	}
	fn to_raw_vec(&self) -> Vec<u8> {
		self.as_slice().to_vec()
	}
	fn as_slice(&self) -> &[u8] {
		self.as_ref()
	}
}

macro_rules! bytes {
	($n:ident, $len:expr) => {
		#[derive(Clone, Copy, Default, PartialEq, Eq, PartialOrd, Ord, Hash, Encode, Decode, MaxEncodedLen, TypeInfo)]
		pub struct $n(pub [u8; $len]);
		impl $n {
			pub const fn zero() -> Self {
				Self([0; $len])
			}
			pub const fn repeat_byte(b: u8) -> Self {
				Self([b; $len])
			}
			pub fn as_bytes(&self) -> &[u8] {
				&self.0
			}
			pub fn as_fixed_bytes(&self) -> &[u8; $len] {
				&self.0
			}
			pub fn to_fixed_bytes(self) -> [u8; $len] {
				self.0
			}
			pub fn is_zero(&self) -> bool {
				self.0.iter().all(|b| *b == 0)
			}
			pub fn from_slice(s: &[u8]) -> Self {
				assert_eq!(s.len(), $len);
				let mut o = [0u8; $len];
				o.copy_from_slice(s);
				Self(o)
			}
			pub fn from_low_u64_be(v: u64) -> Self {
				let mut o = [0u8; $len];
				o[$len - 8..].copy_from_slice(&v.to_be_bytes());
				Self(o)
			}
		}
		impl From<[u8; $len]> for $n {
			fn from(x: [u8; $len]) -> Self {
				Self(x)
			}
		}
		impl From<$n> for [u8; $len] {
			fn from(x: $n) -> Self {
				x.0
			}
		}
		impl AsRef<[u8]> for $n {
			fn as_ref(&self) -> &[u8] {
				&self.0
			}
		}
		impl AsMut<[u8]> for $n {
			fn as_mut(&mut self) -> &mut [u8] {
				&mut self.0
			}
		}
		impl std::fmt::Debug for $n {
			fn fmt(&self, f: &mut std::fmt::Formatter<'_>) -> std::fmt::Result {
				write!(f, "0x")?;
				for b in self.0 {
					write!(f, "{b:02x}")?;
				}
				Ok(())
			}
		}
		impl std::fmt::Display for $n {
			fn fmt(&self, f: &mut std::fmt::Formatter<'_>) -> std::fmt::Result {
				write!(f, "{self:?}")
			}
		}
	};
}
bytes!(H256, 32);
bytes!(H160, 20);

#[derive(
	Clone, PartialEq, Eq, PartialOrd, Ord, Hash, Encode, Decode, MaxEncodedLen, TypeInfo, Serialize, Deserialize,
)]
pub struct AccountId32([u8; 32]);
impl AccountId32 {
	pub const fn new(inner: [u8; 32]) -> Self {
		Self(inner)
	}
}
impl From<[u8; 32]> for AccountId32 {
	fn from(x: [u8; 32]) -> Self {
		Self(x)
	}
}
impl From<H256> for AccountId32 {
	fn from(x: H256) -> Self {
		Self(x.0)
	}
}
impl From<AccountId32> for [u8; 32] {
	fn from(x: AccountId32) -> Self {
		x.0
	}
}
impl TryFrom<&[u8]> for AccountId32 {
	type Error = ();
	fn try_from(x: &[u8]) -> Result<Self, ()> {
		Ok(Self(x.try_into().map_err(|_| ())?))
	}
}
impl AsRef<[u8]> for AccountId32 {
	fn as_ref(&self) -> &[u8] {
		&self.0
	}
}
impl AsRef<[u8; 32]> for AccountId32 {
	fn as_ref(&self) -> &[u8; 32] {
		&self.0
	}
}
impl AsMut<[u8]> for AccountId32 {
	fn as_mut(&mut self) -> &mut [u8] {
		&mut self.0
	}
}
impl AsMut<[u8; 32]> for AccountId32 {
	fn as_mut(&mut self) -> &mut [u8; 32] {
		&mut self.0
	}
}
impl ByteArray for AccountId32 {
	const LEN: usize = 32;
}
impl std::fmt::Debug for AccountId32 {
	fn fmt(&self, f: &mut std::fmt::Formatter<'_>) -> std::fmt::Result {
		for b in self.0 {
			write!(f, "{b:02x}")?;
		}
		Ok(())
	}
}
impl std::fmt::Display for AccountId32 {
	fn fmt(&self, f: &mut std::fmt::Formatter<'_>) -> std::fmt::Result {
		write!(f, "{self:?}")
	}
}

/// Keys are stood in for by hashes of what they are derived from.
pub trait Pair: Sized {
	type Public;
	fn from_string(s: &str, password: Option<&str>) -> Result<Self, SecretStringError>;
	fn public(&self) -> Self::Public;
}
pub trait CryptoType {
	type Pair: Pair;
}
pub trait Public: CryptoType {}
#[derive(Clone, Debug, PartialEq, Eq)]
pub enum SecretStringError {
	InvalidFormat,
}
#[doc(hidden)]
#[macro_export]
macro_rules! __stand_in_keys {
	($public:ident, $pair:ident) => {
		#[derive(Clone, Copy, Debug, PartialEq, Eq)]
		pub struct $public(pub [u8; 32]);
		$crate::crypto::stand_in_pair!($public, $pair);
	};
}
#[doc(hidden)]
#[macro_export]
macro_rules! __stand_in_pair {
	($public:ident, $pair:ident) => {
		pub struct $pair([u8; 32]);
		impl $crate::crypto::Pair for $pair {
			type Public = $public;
			fn from_string(s: &str, password: Option<&str>) -> Result<Self, $crate::crypto::SecretStringError> {
				if !s.contains("//") {
					return Err($crate::crypto::SecretStringError::InvalidFormat);
				}
				Ok(Self($crate::hashing::blake2_256(format!("{s}///{}", password.unwrap_or("")).as_bytes())))
			}
			fn public(&self) -> $public {
				$public(self.0)
			}
		}
		impl $crate::crypto::CryptoType for $public {
			type Pair = $pair;
		}
		impl $crate::crypto::Public for $public {}
	};
}
pub use crate::{__stand_in_keys as stand_in_keys, __stand_in_pair as stand_in_pair};

pub trait UncheckedFrom<T> {
	fn unchecked_from(t: T) -> Self;
}
impl UncheckedFrom<H256> for AccountId32 {
	fn unchecked_from(t: H256) -> Self {
		Self(t.0)
	}
}

#[derive(Clone, Copy, Default, PartialEq, Eq, PartialOrd, Ord, Debug)]
pub struct KeyTypeId(pub [u8; 4]);
