//! Named and anonymous tasks, run by the harness when their block comes.
use crate::kv;
use crate::preimages::Preimages;
use frame_support::traits::schedule::{v3, DispatchTime, Period, Priority};
use frame_support::traits::{Bounded, QueryPreimage};
use frame_support::Parameter;
use frame_system::pallet_prelude::BlockNumberFor;
use parity_scale_codec::{Codec, Decode, Encode, MaxEncodedLen};
use sp_runtime::traits::{Dispatchable, One, Saturating};
use sp_runtime::DispatchError;
use std::marker::PhantomData;

pub struct Scheduler<T, Call, Origin>(PhantomData<(T, Call, Origin)>);

#[derive(Encode, Decode, Clone, Debug)]
pub struct Task {
	pub name: Option<[u8; 32]>,
	pub when: u64,
	pub index: u32,
	pub priority: u8,
	pub origin: Vec<u8>,
	pub call: Vec<u8>,
}
fn as_u64<B: Encode>(b: &B) -> u64 {
	let mut x = [0u8; 8];
	let e = b.encode();
	x[..e.len().min(8)].copy_from_slice(&e[..e.len().min(8)]);
	u64::from_le_bytes(x)
}
pub fn tasks() -> Vec<Task> {
	kv::get(&kv::key("tasks", ())).unwrap_or_default()
}
thread_local! { static FULL: std::cell::Cell<bool> = const { std::cell::Cell::new(false) }; }
/// Whether nothing more can be scheduled.
pub fn set_full(full: bool) {
	FULL.with(|f| f.set(full))
}
fn set_tasks(t: &Vec<Task>) {
	kv::put(&kv::key("tasks", ()), t)
}

impl<T, Call, Origin> Scheduler<T, Call, Origin>
where
	T: frame_system::Config,
	Call: Parameter + Dispatchable<RuntimeOrigin = T::RuntimeOrigin>,
	Origin: Codec + Into<T::RuntimeOrigin>,
{
	fn resolve(when: DispatchTime<BlockNumberFor<T>>) -> Result<u64, DispatchError> {
		let now = frame_system::Pallet::<T>::block_number();
		let at = match when {
			DispatchTime::At(x) => x,
			// the current block has already completed its scheduled tasks
			DispatchTime::After(x) => now.saturating_add(x).saturating_add(One::one()),
		};
		if at <= now {
			return Err(DispatchError::Other("TargetBlockNumberInPast"));
		}
		Ok(as_u64(&at))
	}
	fn add(
		name: Option<[u8; 32]>,
		when: DispatchTime<BlockNumberFor<T>>,
		priority: u8,
		origin: Origin,
		call: &Bounded<Call, T::Hashing>,
	) -> Result<(u64, u32), DispatchError> {
		let when = Self::resolve(when)?;
		if FULL.with(|f| f.get()) {
			return Err(DispatchError::Exhausted);
		}
		let mut all = tasks();
		if name.is_some() && all.iter().any(|t| t.name == name) {
			return Err(DispatchError::Other("FailedToSchedule"));
		}
		let index = all.iter().filter(|t| t.when == when).map(|t| t.index + 1).max().unwrap_or(0);
		all.push(Task { name, when, index, priority, origin: origin.encode(), call: call.encode() });
		set_tasks(&all);
		Ok((when, index))
	}
	/// Runs what is due at the current block, earlier priorities first. Returns the results.
	pub fn run_due() -> Vec<(Task, Result<(), DispatchError>)> {
		let now = as_u64(&frame_system::Pallet::<T>::block_number());
		let mut due: Vec<Task> = tasks().into_iter().filter(|t| t.when <= now).collect();
		due.sort_by_key(|t| (t.when, t.priority, t.index));
		let mut out = vec![];
		for t in due {
			// may have been cancelled by an earlier one
			let mut all = tasks();
			let Some(at) = all.iter().position(|x| (x.when, x.index) == (t.when, t.index)) else { continue };
			all.remove(at);
			set_tasks(&all);
			let call = Bounded::<Call, T::Hashing>::decode(&mut &t.call[..]).expect("HARNESS-BUG: stored task");
			let origin = Origin::decode(&mut &t.origin[..]).expect("HARNESS-BUG: stored origin");
			let r = match <Preimages<T::Hashing> as QueryPreimage>::realize(&call) {
				Ok((c, _)) => c.dispatch(origin.into()).map(|_| ()).map_err(|e| e.error),
				Err(e) => Err(e),
			};
			out.push((t, r));
		}
		out
	}
}
impl<T, Call, Origin> v3::Named<BlockNumberFor<T>, Call, Origin> for Scheduler<T, Call, Origin>
where
	T: frame_system::Config,
	Call: Parameter + Dispatchable<RuntimeOrigin = T::RuntimeOrigin>,
	Origin: Codec + Into<T::RuntimeOrigin> + MaxEncodedLen,
{
	type Address = (u64, u32);
	type Hasher = T::Hashing;
	fn schedule_named(
		id: v3::TaskName,
		when: DispatchTime<BlockNumberFor<T>>,
		_periodic: Option<Period<BlockNumberFor<T>>>,
		priority: Priority,
		origin: Origin,
		call: Bounded<Call, T::Hashing>,
	) -> Result<(u64, u32), DispatchError> {
		Self::add(Some(id), when, priority, origin, &call)
	}
	fn cancel_named(id: v3::TaskName) -> Result<(), DispatchError> {
		let mut all = tasks();
		let at = all.iter().position(|t| t.name == Some(id)).ok_or(DispatchError::Unavailable)?;
		all.remove(at);
		set_tasks(&all);
		Ok(())
	}
	fn reschedule_named(id: v3::TaskName, when: DispatchTime<BlockNumberFor<T>>) -> Result<(u64, u32), DispatchError> {
		let mut all = tasks();
		let when = Self::resolve(when)?;
		let at = all.iter().position(|t| t.name == Some(id)).ok_or(DispatchError::Unavailable)?;
		let index = all.iter().filter(|t| t.when == when).map(|t| t.index + 1).max().unwrap_or(0);
		all[at].when = when;
		all[at].index = index;
		set_tasks(&all);
		Ok((when, index))
	}
	fn next_dispatch_time(id: v3::TaskName) -> Result<BlockNumberFor<T>, DispatchError> {
		let t = tasks().into_iter().find(|t| t.name == Some(id)).ok_or(DispatchError::Unavailable)?;
		BlockNumberFor::<T>::try_from(t.when).map_err(|_| DispatchError::Corruption)
	}
}
impl<T, Call, Origin> v3::Anon<BlockNumberFor<T>, Call, Origin> for Scheduler<T, Call, Origin>
where
	T: frame_system::Config,
	Call: Parameter + Dispatchable<RuntimeOrigin = T::RuntimeOrigin>,
	Origin: Codec + Into<T::RuntimeOrigin> + MaxEncodedLen,
{
	type Address = (u64, u32);
	type Hasher = T::Hashing;
	fn schedule(
		when: DispatchTime<BlockNumberFor<T>>,
		_periodic: Option<Period<BlockNumberFor<T>>>,
		priority: Priority,
		origin: Origin,
		call: Bounded<Call, T::Hashing>,
	) -> Result<(u64, u32), DispatchError> {
		Self::add(None, when, priority, origin, &call)
	}
	fn cancel((when, index): (u64, u32)) -> Result<(), DispatchError> {
		let mut all = tasks();
		let at = all.iter().position(|t| (t.when, t.index) == (when, index)).ok_or(DispatchError::Unavailable)?;
		all.remove(at);
		set_tasks(&all);
		Ok(())
	}
	fn reschedule((when, index): (u64, u32), to: DispatchTime<BlockNumberFor<T>>) -> Result<(u64, u32), DispatchError> {
		let mut all = tasks();
		let to = Self::resolve(to)?;
		let at = all.iter().position(|t| (t.when, t.index) == (when, index)).ok_or(DispatchError::Unavailable)?;
		let i = all.iter().filter(|t| t.when == to).map(|t| t.index + 1).max().unwrap_or(0);
		all[at].when = to;
		all[at].index = i;
		set_tasks(&all);
		Ok((to, i))
	}
	fn next_dispatch_time((when, index): (u64, u32)) -> Result<BlockNumberFor<T>, DispatchError> {
		let t = tasks().into_iter().find(|t| (t.when, t.index) == (when, index)).ok_or(DispatchError::Unavailable)?;
		BlockNumberFor::<T>::try_from(t.when).map_err(|_| DispatchError::Corruption)
	}
}
