//! Stand-in for the membership manager: every membership has an owner and, once handed out, a
//! community and a rank. Memberships not handed out belong to a community's own account.
use fc_traits_memberships::{GenericRank, Inspect, Manager, Rank};
use frame_support::Parameter;
use parity_scale_codec::{Decode, Encode};
use sp_runtime::DispatchError;
use std::cell::Cell;
use std::marker::PhantomData;
use vmock::kv;

#[derive(Clone, Debug, PartialEq, Eq, Encode, Decode)]
pub struct Record<A, G> {
	/// `None` while it has not been handed out.
	pub group: Option<G>,
	pub owner: A,
	pub rank: u8,
}
thread_local! { static FAIL: Cell<Option<u32>> = const { Cell::new(None) }; }
/// The n-th change from now on fails.
pub fn fail_at(n: Option<u32>) {
	FAIL.with(|f| f.set(n))
}
fn tick() -> Result<(), DispatchError> {
	FAIL.with(|f| match f.get() {
		Some(0) => {
			f.set(None);
			Err(DispatchError::Other("injected"))
		}
		Some(n) => {
			f.set(Some(n - 1));
			Ok(())
		}
		None => Ok(()),
	})
}
const TAG: &str = "membership";
pub fn get<A: Decode, G: Decode>(m: u32) -> Option<Record<A, G>> {
	kv::get(&kv::key(TAG, m))
}
pub fn put<A: Encode, G: Encode>(m: u32, r: &Record<A, G>) {
	kv::put(&kv::key(TAG, m), r)
}
pub fn all<A: Decode, G: Decode>() -> Vec<(u32, Record<A, G>)> {
	let prefix = kv::key(TAG, ());
	sp_io::storage::scan(&prefix)
		.into_iter()
		.map(|(k, v)| {
			(
				u32::decode(&mut &k[prefix.len()..]).expect("HARNESS-BUG: membership key"),
				Record::decode(&mut &v[..]).expect("HARNESS-BUG: membership record"),
			)
		})
		.collect()
}

/// `Account` gives a community's own account, `Pool` the group of memberships not handed out.
pub trait Setting<A, G> {
	fn account(g: &G) -> A;
	fn pool() -> G;
}
pub struct Members<A, G, S>(PhantomData<(A, G, S)>);
impl<A, G, S> Inspect<A> for Members<A, G, S>
where
	A: Parameter + 'static,
	G: Parameter + 'static,
	S: Setting<A, G>,
{
	type Group = G;
	type Membership = u32;
	fn user_memberships(who: &A, maybe_group: Option<G>) -> Box<dyn Iterator<Item = (G, u32)>> {
		let (who, pool) = (who.clone(), S::pool());
		Box::new(
			all::<A, G>()
				.into_iter()
				.filter(move |(_, r)| r.owner == who)
				.map(move |(m, r)| (r.group.unwrap_or_else(|| pool.clone()), m))
				.filter(move |(g, _)| maybe_group.as_ref().map_or(true, |x| x == g)),
		)
	}
	fn check_membership(who: &A, m: &u32) -> Option<G> {
		let r = get::<A, G>(*m)?;
		(r.owner == *who).then(|| r.group.unwrap_or_else(S::pool))
	}
	fn members_total(group: &G) -> u32 {
		if let Some(n) = kv::get(&kv::key("members_total", group)) {
			return n;
		}
		all::<A, G>().iter().filter(|(_, r)| r.group.as_ref() == Some(group)).count() as u32
	}
}
impl<A, G, S, I> Manager<A, I> for Members<A, G, S>
where
	A: Parameter + 'static,
	G: Parameter + 'static,
	S: Setting<A, G>,
{
	fn assign(group: &G, m: &u32, who: &A) -> Result<(), DispatchError> {
		tick()?;
		get::<A, G>(*m).ok_or(DispatchError::Other("unknown membership"))?;
		put(*m, &Record { group: Some(group.clone()), owner: who.clone(), rank: 0 });
		Ok(())
	}
	fn release(group: &G, m: &u32) -> Result<(), DispatchError> {
		tick()?;
		let r = get::<A, G>(*m).ok_or(DispatchError::Other("unknown membership"))?;
		if r.group.as_ref() != Some(group) {
			return Err(DispatchError::Other("not of this group"));
		}
		put(*m, &Record::<A, G> { group: None, owner: S::account(group), rank: 0 });
		Ok(())
	}
}
impl<A, G, S, I> Rank<A, I> for Members<A, G, S>
where
	A: Parameter + 'static,
	G: Parameter + 'static,
	S: Setting<A, G>,
{
	fn rank_of(group: &G, m: &u32) -> Option<GenericRank> {
		let r = get::<A, G>(*m)?;
		(r.group.as_ref() == Some(group)).then_some(GenericRank(r.rank))
	}
	fn set_rank(group: &G, m: &u32, rank: impl Into<GenericRank>) -> Result<(), DispatchError> {
		tick()?;
		let mut r = get::<A, G>(*m).ok_or(DispatchError::Other("unknown membership"))?;
		if r.group.as_ref() != Some(group) {
			return Err(DispatchError::Other("not of this group"));
		}
		r.rank = rank.into().into();
		put(*m, &r);
		Ok(())
	}
	fn ranks_total(group: &G) -> u32 {
		if let Some(n) = kv::get(&kv::key("ranks_total", group)) {
			return n;
		}
		all::<A, G>().iter().filter(|(_, r)| r.group.as_ref() == Some(group)).map(|(_, r)| r.rank as u32).sum()
	}
}
/// Whether the failure asked for is still to come.
pub fn pending() -> bool {
	FAIL.with(|f| f.get().is_some())
}
