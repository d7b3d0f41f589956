//! Stand-in for referenda: polls that are ongoing with a tally, finished, or unknown.
use frame_support::traits::{PollStatus, Polling};
use parity_scale_codec::{Decode, Encode};
use sp_runtime::DispatchError;
use std::marker::PhantomData;
use vmock::kv;

#[derive(Clone, Debug, Encode, Decode)]
pub enum Poll<T, C> {
	Ongoing(T, C),
	Completed(u64, bool),
}
pub fn key(index: u32) -> Vec<u8> {
	kv::key("poll", index)
}
pub struct Polls<T, C>(PhantomData<(T, C)>);
impl<T: Encode + Decode, C> Polling<T> for Polls<T, C>
where
	C: frame_support::Parameter + Ord + parity_scale_codec::MaxEncodedLen + Send + Sync + 'static,
{
	type Index = u32;
	type Votes = u32;
	type Class = C;
	type Moment = u64;
	fn classes() -> Vec<C> {
		vec![]
	}
	fn as_ongoing(index: u32) -> Option<(T, C)> {
		match kv::get::<Poll<T, C>>(&key(index)) {
			Some(Poll::Ongoing(t, c)) => Some((t, c)),
			_ => None,
		}
	}
	fn access_poll<R>(index: u32, f: impl FnOnce(PollStatus<&mut T, u64, C>) -> R) -> R {
		match kv::get::<Poll<T, C>>(&key(index)) {
			Some(Poll::Ongoing(mut t, c)) => {
				let r = f(PollStatus::Ongoing(&mut t, c.clone()));
				kv::put(&key(index), &Poll::Ongoing(t, c));
				r
			}
			Some(Poll::Completed(when, ok)) => f(PollStatus::Completed(when, ok)),
			None => f(PollStatus::None),
		}
	}
	fn try_access_poll<R>(
		index: u32,
		f: impl FnOnce(PollStatus<&mut T, u64, C>) -> Result<R, DispatchError>,
	) -> Result<R, DispatchError> {
		match kv::get::<Poll<T, C>>(&key(index)) {
			Some(Poll::Ongoing(mut t, c)) => {
				let r = f(PollStatus::Ongoing(&mut t, c.clone()))?;
				kv::put(&key(index), &Poll::Ongoing(t, c));
				Ok(r)
			}
			Some(Poll::Completed(when, ok)) => f(PollStatus::Completed(when, ok)),
			None => f(PollStatus::None),
		}
	}
}
