use crate::RawOrigin;
use frame_support::traits::{EnsureOrigin, EnsureOriginWithArg, SortedMembers, TypedGet};
use std::marker::PhantomData;

pub struct EnsureRoot<AccountId>(PhantomData<AccountId>);
impl<O: Into<Result<RawOrigin<AccountId>, O>> + From<RawOrigin<AccountId>>, AccountId> EnsureOrigin<O> for EnsureRoot<AccountId> {
	type Success = ();
	fn try_origin(o: O) -> Result<(), O> {
		o.into().and_then(|o| match o {
			RawOrigin::Root => Ok(()),
			r => Err(O::from(r)),
		})
	}
}
pub struct EnsureRootWithSuccess<AccountId, Success>(PhantomData<(AccountId, Success)>);
impl<O: Into<Result<RawOrigin<AccountId>, O>> + From<RawOrigin<AccountId>>, AccountId, S: TypedGet> EnsureOrigin<O>
	for EnsureRootWithSuccess<AccountId, S>
{
	type Success = S::Type;
	fn try_origin(o: O) -> Result<S::Type, O> {
		o.into().and_then(|o| match o {
			RawOrigin::Root => Ok(S::get()),
			r => Err(O::from(r)),
		})
	}
}
pub struct EnsureWithSuccess<Ensure, AccountId, Success>(PhantomData<(Ensure, AccountId, Success)>);
impl<O, E: EnsureOrigin<O>, AccountId, S: TypedGet> EnsureOrigin<O> for EnsureWithSuccess<E, AccountId, S> {
	type Success = S::Type;
	fn try_origin(o: O) -> Result<S::Type, O> {
		E::try_origin(o).map(|_| S::get())
	}
}
pub struct EnsureSigned<AccountId>(PhantomData<AccountId>);
impl<O: Into<Result<RawOrigin<AccountId>, O>> + From<RawOrigin<AccountId>>, AccountId> EnsureOrigin<O> for EnsureSigned<AccountId> {
	type Success = AccountId;
	fn try_origin(o: O) -> Result<AccountId, O> {
		o.into().and_then(|o| match o {
			RawOrigin::Signed(who) => Ok(who),
			r => Err(O::from(r)),
		})
	}
}
pub struct EnsureSignedBy<Who, AccountId>(PhantomData<(Who, AccountId)>);
impl<O: Into<Result<RawOrigin<AccountId>, O>> + From<RawOrigin<AccountId>>, Who: SortedMembers<AccountId>, AccountId: Ord + Clone> EnsureOrigin<O>
	for EnsureSignedBy<Who, AccountId>
{
	type Success = AccountId;
	fn try_origin(o: O) -> Result<AccountId, O> {
		o.into().and_then(|o| match o {
			RawOrigin::Signed(ref who) if Who::contains(who) => Ok(who.clone()),
			r => Err(O::from(r)),
		})
	}
}
pub struct EnsureNone<AccountId>(PhantomData<AccountId>);
impl<O: Into<Result<RawOrigin<AccountId>, O>> + From<RawOrigin<AccountId>>, AccountId> EnsureOrigin<O> for EnsureNone<AccountId> {
	type Success = ();
	fn try_origin(o: O) -> Result<(), O> {
		o.into().and_then(|o| match o {
			RawOrigin::None => Ok(()),
			r => Err(O::from(r)),
		})
	}
}
pub struct EnsureNever<Success>(PhantomData<Success>);
impl<O, S> EnsureOrigin<O> for EnsureNever<S> {
	type Success = S;
	fn try_origin(o: O) -> Result<S, O> {
		Err(o)
	}
}
macro_rules! with_arg {
	($($t:ident<$($p:ident),*>),*) => {$(
		impl<O, A, $($p),*> EnsureOriginWithArg<O, A> for $t<$($p),*> where Self: EnsureOrigin<O> {
			type Success = <Self as EnsureOrigin<O>>::Success;
			fn try_origin(o: O, _: &A) -> Result<Self::Success, O> {
				<Self as EnsureOrigin<O>>::try_origin(o)
			}
		}
	)*};
}
with_arg!(EnsureRoot<X>, EnsureRootWithSuccess<X, S>, EnsureSigned<X>, EnsureNone<X>, EnsureNever<X>);
