use crate::kv;
use frame_support::traits::{FetchResult, QueryPreimage, StorePreimage};
use parity_scale_codec::Encode;
use sp_runtime::traits::Hash;
use sp_runtime::DispatchError;
use std::borrow::Cow;
use std::marker::PhantomData;

pub struct Preimages<H>(PhantomData<H>);
impl<H: Hash> QueryPreimage for Preimages<H>
where
	H::Output: Encode,
{
	type H = H;
	fn len(hash: &H::Output) -> Option<u32> {
		kv::get::<Vec<u8>>(&kv::key("preimage", hash)).map(|v| v.len() as u32)
	}
	fn fetch(hash: &H::Output, len: Option<u32>) -> FetchResult {
		let v: Vec<u8> = kv::get(&kv::key("preimage", hash)).ok_or(DispatchError::Unavailable)?;
		if len.map_or(false, |l| l as usize != v.len()) {
			return Err(DispatchError::Unavailable);
		}
		Ok(Cow::Owned(v))
	}
	fn is_requested(hash: &H::Output) -> bool {
		sp_io::storage::exists(&kv::key("preimage", hash))
	}
	fn request(_: &H::Output) {}
	fn unrequest(_: &H::Output) {}
}
impl<H: Hash> StorePreimage for Preimages<H>
where
	H::Output: Encode,
{
	const MAX_LENGTH: usize = 4 << 20;
	fn note(bytes: Cow<[u8]>) -> Result<H::Output, DispatchError> {
		let h = H::hash(&bytes);
		kv::put(&kv::key("preimage", h), &bytes.to_vec());
		Ok(h)
	}
}
