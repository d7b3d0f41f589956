pub use crate::storage::with_storage_layer as __layer;
use impl_trait_for_tuples::impl_for_tuples;
use parity_scale_codec::{Codec, Decode, Encode, EncodeLike, MaxEncodedLen};
use scale_info::TypeInfo;
pub use sp_core::{
	ConstBool, ConstI128, ConstI16, ConstI32, ConstI64, ConstI8, ConstU128, ConstU16, ConstU32, ConstU64, ConstU8, ConstUint, Get, GetDefault,
	TryCollect, TypedGet,
};
use sp_runtime::traits::{BadOrigin, Member, Morph, TryMorph};
use sp_runtime::{DispatchError, DispatchResult, Perbill};
use sp_weights::Weight;
use std::cmp::Ordering;
use std::fmt::Debug;
use std::marker::PhantomData;

mod preimages;
pub mod schedule;
pub mod tokens;
pub use preimages::*;
pub use tokens::{fungible, fungibles, nonfungible_v2, nonfungibles_v2};

pub trait StorageInstance {
	const STORAGE_PREFIX: &'static str;
	fn pallet_prefix() -> &'static str;
}
pub trait StorageInfoTrait {}
#[derive(Debug, Clone, Copy, PartialEq, Eq, Default, PartialOrd, Ord, Encode, Decode)]
pub struct StorageVersion(u16);
impl StorageVersion {
	pub const fn new(n: u16) -> Self {
		Self(n)
	}
}

pub trait IsType<T>: Into<T> + From<T> {
	fn from_ref(t: &T) -> &Self;
	fn into_ref(&self) -> &T;
	fn from_mut(t: &mut T) -> &mut Self;
	fn into_mut(&mut self) -> &mut T;
}
impl<T> IsType<T> for T {
	fn from_ref(t: &T) -> &Self {
		t
	}
	fn into_ref(&self) -> &T {
		self
	}
	fn from_mut(t: &mut T) -> &mut Self {
		t
	}
	fn into_mut(&mut self) -> &mut T {
		self
	}
}
pub trait IsSubType<T> {
	fn is_sub_type(&self) -> Option<&T>;
}

// === Calls and origins ===

pub trait UnfilteredDispatchable {
	type RuntimeOrigin;
	fn dispatch_bypass_filter(self, origin: Self::RuntimeOrigin) -> crate::dispatch::DispatchResultWithPostInfo;
}
impl<T: UnfilteredDispatchable> UnfilteredDispatchable for Box<T> {
	type RuntimeOrigin = T::RuntimeOrigin;
	fn dispatch_bypass_filter(self, origin: Self::RuntimeOrigin) -> crate::dispatch::DispatchResultWithPostInfo {
		(*self).dispatch_bypass_filter(origin)
	}
}
pub trait GetCallName {
	fn get_call_names() -> &'static [&'static str];
	fn get_call_name(&self) -> &'static str;
}
pub trait CallerTrait<AccountId>: crate::Parameter + Member + From<crate::dispatch::RawOrigin<AccountId>> {
	fn into_system(self) -> Option<crate::dispatch::RawOrigin<AccountId>>;
	fn as_system_ref(&self) -> Option<&crate::dispatch::RawOrigin<AccountId>>;
	fn as_signed(&self) -> Option<&AccountId> {
		self.as_system_ref().and_then(crate::dispatch::RawOrigin::as_signed)
	}
	fn is_root(&self) -> bool {
		self.as_system_ref().map_or(false, crate::dispatch::RawOrigin::is_root)
	}
	fn is_none(&self) -> bool {
		self.as_system_ref().map_or(false, crate::dispatch::RawOrigin::is_none)
	}
}
pub trait OriginTrait: Sized {
	type Call;
	type PalletsOrigin: Send + Sync + Into<Self> + CallerTrait<Self::AccountId> + MaxEncodedLen;
	type AccountId;
	fn add_filter(&mut self, filter: impl Fn(&Self::Call) -> bool + 'static);
	fn reset_filter(&mut self);
	fn set_caller(&mut self, caller: Self::PalletsOrigin);
	fn set_caller_from(&mut self, other: impl Into<Self>);
	fn filter_call(&self, call: &Self::Call) -> bool;
	fn caller(&self) -> &Self::PalletsOrigin;
	fn into_caller(self) -> Self::PalletsOrigin;
	fn try_with_caller<R>(self, f: impl FnOnce(Self::PalletsOrigin) -> Result<R, Self::PalletsOrigin>) -> Result<R, Self>;
	fn none() -> Self;
	fn root() -> Self;
	fn signed(by: Self::AccountId) -> Self;
	fn into_signer(self) -> Option<Self::AccountId> {
		self.into_caller().into_system().and_then(|s| if let crate::dispatch::RawOrigin::Signed(w) = s { Some(w) } else { None })
	}
	fn as_system_ref(&self) -> Option<&crate::dispatch::RawOrigin<Self::AccountId>> {
		self.caller().as_system_ref()
	}
	fn as_signer(&self) -> Option<&Self::AccountId> {
		self.caller().as_signed()
	}
}

pub trait EnsureOrigin<OuterOrigin> {
	type Success;
	fn ensure_origin(o: OuterOrigin) -> Result<Self::Success, BadOrigin> {
		Self::try_origin(o).map_err(|_| BadOrigin)
	}
	fn ensure_origin_or_root(o: OuterOrigin) -> Result<Option<Self::Success>, BadOrigin>
	where
		OuterOrigin: OriginTrait,
	{
		if o.caller().is_root() {
			return Ok(None);
		}
		Self::ensure_origin(o).map(Some)
	}
	fn try_origin(o: OuterOrigin) -> Result<Self::Success, OuterOrigin>;
}
pub trait EnsureOriginWithArg<OuterOrigin, Argument> {
	type Success;
	fn ensure_origin(o: OuterOrigin, a: &Argument) -> Result<Self::Success, BadOrigin> {
		Self::try_origin(o, a).map_err(|_| BadOrigin)
	}
	fn try_origin(o: OuterOrigin, a: &Argument) -> Result<Self::Success, OuterOrigin>;
}
pub struct AsEnsureOriginWithArg<EO>(PhantomData<EO>);
impl<O, A, EO: EnsureOrigin<O>> EnsureOriginWithArg<O, A> for AsEnsureOriginWithArg<EO> {
	type Success = EO::Success;
	fn try_origin(o: O, _: &A) -> Result<EO::Success, O> {
		EO::try_origin(o)
	}
}
pub struct TryWithMorphedArg<O, A, Morph, Inner, Success>(PhantomData<(O, A, Morph, Inner, Success)>);
pub struct MapSuccess<Orig, Mutator>(PhantomData<(Orig, Mutator)>);
impl<O, Orig: EnsureOrigin<O>, M: Morph<Orig::Success>> EnsureOrigin<O> for MapSuccess<Orig, M> {
	type Success = M::Outcome;
	fn try_origin(o: O) -> Result<Self::Success, O> {
		Ok(M::morph(Orig::try_origin(o)?))
	}
}
impl<O, A, Orig: EnsureOriginWithArg<O, A>, M: Morph<Orig::Success>> EnsureOriginWithArg<O, A> for MapSuccess<Orig, M> {
	type Success = M::Outcome;
	fn try_origin(o: O, a: &A) -> Result<Self::Success, O> {
		Ok(M::morph(Orig::try_origin(o, a)?))
	}
}
pub struct TryMapSuccess<Orig, Mutator>(PhantomData<(Orig, Mutator)>);
impl<O: Clone, Orig: EnsureOrigin<O>, M: TryMorph<Orig::Success>> EnsureOrigin<O> for TryMapSuccess<Orig, M> {
	type Success = M::Outcome;
	fn try_origin(o: O) -> Result<Self::Success, O> {
		let orig = o.clone();
		M::try_morph(Orig::try_origin(o)?).map_err(|()| orig)
	}
}
impl<O: Clone, A, Orig: EnsureOriginWithArg<O, A>, M: TryMorph<Orig::Success>> EnsureOriginWithArg<O, A> for TryMapSuccess<Orig, M> {
	type Success = M::Outcome;
	fn try_origin(o: O, a: &A) -> Result<Self::Success, O> {
		let orig = o.clone();
		M::try_morph(Orig::try_origin(o, a)?).map_err(|()| orig)
	}
}
pub struct EitherOf<L, R>(PhantomData<(L, R)>);
impl<O, L: EnsureOrigin<O>, R: EnsureOrigin<O, Success = L::Success>> EnsureOrigin<O> for EitherOf<L, R> {
	type Success = L::Success;
	fn try_origin(o: O) -> Result<Self::Success, O> {
		L::try_origin(o).or_else(R::try_origin)
	}
}
impl<O, A, L: EnsureOriginWithArg<O, A>, R: EnsureOriginWithArg<O, A, Success = L::Success>> EnsureOriginWithArg<O, A> for EitherOf<L, R> {
	type Success = L::Success;
	fn try_origin(o: O, a: &A) -> Result<Self::Success, O> {
		L::try_origin(o, a).or_else(|o| R::try_origin(o, a))
	}
}
pub struct EitherOfDiverse<L, R>(PhantomData<(L, R)>);
impl<O, L: EnsureOrigin<O>, R: EnsureOrigin<O>> EnsureOrigin<O> for EitherOfDiverse<L, R> {
	type Success = sp_runtime::Either<L::Success, R::Success>;
	fn try_origin(o: O) -> Result<Self::Success, O> {
		L::try_origin(o).map_or_else(|o| R::try_origin(o).map(sp_runtime::Either::Right), |l| Ok(sp_runtime::Either::Left(l)))
	}
}
impl<O, A, L: EnsureOriginWithArg<O, A>, R: EnsureOriginWithArg<O, A>> EnsureOriginWithArg<O, A> for EitherOfDiverse<L, R> {
	type Success = sp_runtime::Either<L::Success, R::Success>;
	fn try_origin(o: O, a: &A) -> Result<Self::Success, O> {
		L::try_origin(o, a).map_or_else(|o| R::try_origin(o, a).map(sp_runtime::Either::Right), |l| Ok(sp_runtime::Either::Left(l)))
	}
}
pub type EnsureOneOf<L, R> = EitherOfDiverse<L, R>;
pub struct NeverEnsureOrigin<Success>(PhantomData<Success>);
impl<O, S> EnsureOrigin<O> for NeverEnsureOrigin<S> {
	type Success = S;
	fn try_origin(o: O) -> Result<S, O> {
		Err(o)
	}
}
impl<O, A, S> EnsureOriginWithArg<O, A> for NeverEnsureOrigin<S> {
	type Success = S;
	fn try_origin(o: O, _: &A) -> Result<S, O> {
		Err(o)
	}
}

// === Filters ===

pub trait Contains<T> {
	fn contains(t: &T) -> bool;
}
#[impl_for_tuples(1, 30)]
#[tuple_types_custom_trait_bound(Contains<T>)]
impl<T> Contains<T> for Tuple {
	fn contains(t: &T) -> bool {
		for_tuples!( #( if Tuple::contains(t) { return true } )* );
		false
	}
}
pub trait ContainsPair<A, B> {
	fn contains(a: &A, b: &B) -> bool;
}
#[impl_for_tuples(0, 12)]
#[tuple_types_custom_trait_bound(ContainsPair<A, B>)]
impl<A, B> ContainsPair<A, B> for Tuple {
	fn contains(a: &A, b: &B) -> bool {
		for_tuples!( #( if Tuple::contains(a, b) { return true } )* );
		false
	}
}
pub struct FromContainsPair<CP>(PhantomData<CP>);
impl<A, B, CP: ContainsPair<A, B>> Contains<(A, B)> for FromContainsPair<CP> {
	fn contains((a, b): &(A, B)) -> bool {
		CP::contains(a, b)
	}
}
pub struct FromContains<CA, CB>(PhantomData<(CA, CB)>);
impl<A, B, CA: Contains<A>, CB: Contains<B>> ContainsPair<A, B> for FromContains<CA, CB> {
	fn contains(a: &A, b: &B) -> bool {
		CA::contains(a) && CB::contains(b)
	}
}
pub enum Everything {}
impl<T> Contains<T> for Everything {
	fn contains(_: &T) -> bool {
		true
	}
}
impl<A, B> ContainsPair<A, B> for Everything {
	fn contains(_: &A, _: &B) -> bool {
		true
	}
}
pub enum Nothing {}
impl<T> Contains<T> for Nothing {
	fn contains(_: &T) -> bool {
		false
	}
}
impl<A, B> ContainsPair<A, B> for Nothing {
	fn contains(_: &A, _: &B) -> bool {
		false
	}
}
pub struct EverythingBut<X>(PhantomData<X>);
impl<T, X: Contains<T>> Contains<T> for EverythingBut<X> {
	fn contains(t: &T) -> bool {
		!X::contains(t)
	}
}
impl<A, B, X: ContainsPair<A, B>> ContainsPair<A, B> for EverythingBut<X> {
	fn contains(a: &A, b: &B) -> bool {
		!X::contains(a, b)
	}
}
pub struct InsideBoth<A, B>(PhantomData<(A, B)>);
impl<T, A: Contains<T>, B: Contains<T>> Contains<T> for InsideBoth<A, B> {
	fn contains(t: &T) -> bool {
		A::contains(t) && B::contains(t)
	}
}
pub type TheseExcept<These, Except> = InsideBoth<These, EverythingBut<Except>>;
pub struct Equals<T>(PhantomData<T>);
impl<X: PartialEq, T: Get<X>> Contains<X> for Equals<T> {
	fn contains(t: &X) -> bool {
		t == &T::get()
	}
}
pub trait InstanceFilter<T>: Sized + Send + Sync {
	fn filter(&self, _: &T) -> bool;
	fn is_superset(&self, _: &Self) -> bool {
		false
	}
}
impl<T> InstanceFilter<T> for () {
	fn filter(&self, _: &T) -> bool {
		true
	}
	fn is_superset(&self, _: &Self) -> bool {
		true
	}
}
pub trait PrivilegeCmp<Origin> {
	fn cmp_privilege(left: &Origin, right: &Origin) -> Option<Ordering>;
}
pub struct EqualPrivilegeOnly;
impl<O: PartialEq> PrivilegeCmp<O> for EqualPrivilegeOnly {
	fn cmp_privilege(l: &O, r: &O) -> Option<Ordering> {
		(l == r).then_some(Ordering::Equal)
	}
}

// === Voting ===

pub trait VoteTally<Votes, Class> {
	fn new(_: Class) -> Self;
	fn ayes(&self, class: Class) -> Votes;
	fn support(&self, class: Class) -> Perbill;
	fn approval(&self, class: Class) -> Perbill;
}
pub enum PollStatus<Tally, Moment, Class> {
	None,
	Ongoing(Tally, Class),
	Completed(Moment, bool),
}
impl<Tally, Moment, Class> PollStatus<Tally, Moment, Class> {
	pub fn ensure_ongoing(self) -> Option<(Tally, Class)> {
		match self {
			Self::Ongoing(t, c) => Some((t, c)),
			_ => None,
		}
	}
}
pub trait Polling<Tally> {
	type Index: Ord + PartialOrd + Copy + MaxEncodedLen + Codec + EncodeLike + parity_scale_codec::HasCompact + TypeInfo + Debug;
	type Votes: crate::Parameter + Ord + PartialOrd + Copy + parity_scale_codec::HasCompact + MaxEncodedLen;
	type Class: crate::Parameter + Member + Ord + PartialOrd + MaxEncodedLen;
	type Moment;
	fn classes() -> Vec<Self::Class>;
	fn as_ongoing(index: Self::Index) -> Option<(Tally, Self::Class)>;
	fn access_poll<R>(index: Self::Index, f: impl FnOnce(PollStatus<&mut Tally, Self::Moment, Self::Class>) -> R) -> R;
	fn try_access_poll<R>(
		index: Self::Index,
		f: impl FnOnce(PollStatus<&mut Tally, Self::Moment, Self::Class>) -> Result<R, DispatchError>,
	) -> Result<R, DispatchError>;
}
pub trait RankedMembers {
	type AccountId;
	type Rank: Copy + Ord + From<u16>;
	fn min_rank() -> Self::Rank;
	fn rank_of(who: &Self::AccountId) -> Option<Self::Rank>;
	fn induct(who: &Self::AccountId) -> DispatchResult;
	fn promote(who: &Self::AccountId) -> DispatchResult;
	fn demote(who: &Self::AccountId) -> DispatchResult;
}

// === Various ===

pub trait Incrementable
where
	Self: Sized,
{
	fn increment(&self) -> Option<Self>;
	fn initial_value() -> Option<Self>;
}
macro_rules! incrementable { ($($t:ty),*) => { $(impl Incrementable for $t {
	fn increment(&self) -> Option<Self> { let mut v = *self; sp_runtime::traits::Saturating::saturating_inc(&mut v); Some(v) }
	fn initial_value() -> Option<Self> { Some(0) }
})* } }
incrementable!(u8, u16, u32, u64, u128);
/// Things with a number of parts.
pub trait Len {
	fn len(&self) -> usize;
	fn is_empty(&self) -> bool {
		Len::len(self) == 0
	}
}
impl<T: IntoIterator + Clone> Len for T
where
	<T as IntoIterator>::IntoIter: ExactSizeIterator,
{
	fn len(&self) -> usize {
		self.clone().into_iter().len()
	}
}


pub trait Hooks<BlockNumber> {
	fn on_initialize(_n: BlockNumber) -> Weight {
		Weight::zero()
	}
	fn on_finalize(_n: BlockNumber) {}
	fn on_idle(_n: BlockNumber, _w: Weight) -> Weight {
		Weight::zero()
	}
	fn on_runtime_upgrade() -> Weight {
		Weight::zero()
	}
	fn integrity_test() {}
}
pub trait BuildGenesisConfig: Default {
	fn build(&self);
}
pub trait PalletInfoAccess {
	fn index() -> usize;
	fn name() -> &'static str;
	fn module_name() -> &'static str {
		Self::name()
	}
}
pub trait VariantCount {
	const VARIANT_COUNT: u32;
}
pub struct VariantCountOf<T>(PhantomData<T>);
impl<T: VariantCount> Get<u32> for VariantCountOf<T> {
	fn get() -> u32 {
		T::VARIANT_COUNT
	}
}
pub trait Defensive<T> {
	fn defensive_unwrap_or(self, other: T) -> T;
	fn defensive_unwrap_or_default(self) -> T
	where
		T: Default;
	fn defensive_unwrap_or_else<F: FnOnce() -> T>(self, f: F) -> T;
	fn defensive(self) -> Self;
	fn defensive_proof(self, proof: &'static str) -> Self;
}
impl<T> Defensive<T> for Option<T> {
	fn defensive_unwrap_or(self, other: T) -> T {
		self.unwrap_or(other)
	}
	fn defensive_unwrap_or_default(self) -> T
	where
		T: Default,
	{
		self.unwrap_or_default()
	}
	fn defensive_unwrap_or_else<F: FnOnce() -> T>(self, f: F) -> T {
		self.unwrap_or_else(f)
	}
	fn defensive(self) -> Self {
		self
	}
	fn defensive_proof(self, _: &'static str) -> Self {
		self
	}
}
impl<T, E> Defensive<T> for Result<T, E> {
	fn defensive_unwrap_or(self, other: T) -> T {
		self.unwrap_or(other)
	}
	fn defensive_unwrap_or_default(self) -> T
	where
		T: Default,
	{
		self.unwrap_or_default()
	}
	fn defensive_unwrap_or_else<F: FnOnce() -> T>(self, f: F) -> T {
		self.unwrap_or_else(|_| f())
	}
	fn defensive(self) -> Self {
		self
	}
	fn defensive_proof(self, _: &'static str) -> Self {
		self
	}
}
pub trait DefensiveResult<T, E> {
	fn defensive_map_err<F, O: FnOnce(E) -> F>(self, o: O) -> Result<T, F>;
	fn defensive_map_or_else<U, D: FnOnce(E) -> U, F: FnOnce(T) -> U>(self, default: D, f: F) -> U;
	fn defensive_ok(self) -> Option<T>;
	fn defensive_map<U, F: FnOnce(T) -> U>(self, f: F) -> Result<U, E>;
}
impl<T, E> DefensiveResult<T, E> for Result<T, E> {
	fn defensive_map_err<F, O: FnOnce(E) -> F>(self, o: O) -> Result<T, F> {
		self.map_err(o)
	}
	fn defensive_map_or_else<U, D: FnOnce(E) -> U, F: FnOnce(T) -> U>(self, default: D, f: F) -> U {
		self.map_or_else(default, f)
	}
	fn defensive_ok(self) -> Option<T> {
		self.ok()
	}
	fn defensive_map<U, F: FnOnce(T) -> U>(self, f: F) -> Result<U, E> {
		self.map(f)
	}
}
pub trait DefensiveOption<T> {
	fn defensive_map_or_else<U, D: FnOnce() -> U, F: FnOnce(T) -> U>(self, default: D, f: F) -> U;
	fn defensive_ok_or_else<E, F: FnOnce() -> E>(self, err: F) -> Result<T, E>;
	fn defensive_ok_or<E>(self, err: E) -> Result<T, E>;
	fn defensive_map<U, F: FnOnce(T) -> U>(self, f: F) -> Option<U>;
}
impl<T> DefensiveOption<T> for Option<T> {
	fn defensive_map_or_else<U, D: FnOnce() -> U, F: FnOnce(T) -> U>(self, default: D, f: F) -> U {
		self.map_or_else(default, f)
	}
	fn defensive_ok_or_else<E, F: FnOnce() -> E>(self, err: F) -> Result<T, E> {
		self.ok_or_else(err)
	}
	fn defensive_ok_or<E>(self, err: E) -> Result<T, E> {
		self.ok_or(err)
	}
	fn defensive_map<U, F: FnOnce(T) -> U>(self, f: F) -> Option<U> {
		self.map(f)
	}
}
pub trait DefensiveSaturating {
	fn defensive_saturating_add(self, other: Self) -> Self;
	fn defensive_saturating_sub(self, other: Self) -> Self;
	fn defensive_saturating_mul(self, other: Self) -> Self;
	fn defensive_saturating_accrue(&mut self, other: Self);
	fn defensive_saturating_reduce(&mut self, other: Self);
	fn defensive_saturating_inc(&mut self);
	fn defensive_saturating_dec(&mut self);
}
impl<T: sp_runtime::traits::Saturating + sp_runtime::traits::One + Copy> DefensiveSaturating for T {
	fn defensive_saturating_add(self, other: Self) -> Self {
		self.saturating_add(other)
	}
	fn defensive_saturating_sub(self, other: Self) -> Self {
		self.saturating_sub(other)
	}
	fn defensive_saturating_mul(self, other: Self) -> Self {
		self.saturating_mul(other)
	}
	fn defensive_saturating_accrue(&mut self, other: Self) {
		*self = self.saturating_add(other)
	}
	fn defensive_saturating_reduce(&mut self, other: Self) {
		*self = self.saturating_sub(other)
	}
	fn defensive_saturating_inc(&mut self) {
		*self = self.saturating_add(Self::one())
	}
	fn defensive_saturating_dec(&mut self) {
		*self = self.saturating_sub(Self::one())
	}
}
pub trait AccountTouch<AssetId, AccountId> {
	type Balance;
	fn deposit_required(asset: AssetId) -> Self::Balance;
	fn should_touch(asset: AssetId, who: &AccountId) -> bool;
	fn touch(asset: AssetId, who: &AccountId, depositor: &AccountId) -> sp_runtime::DispatchResult;
}
#[derive(Copy, Clone, PartialEq, Eq, Debug)]
pub enum ExistenceRequirement {
	KeepAlive,
	AllowDeath,
}
pub trait Randomness<Output, BlockNumber> {
	fn random(subject: &[u8]) -> (Output, BlockNumber);
}
pub trait Time {
	type Moment;
	fn now() -> Self::Moment;
}
pub trait UnixTime {
	fn now() -> std::time::Duration;
}
pub trait OnUnbalanced<Imbalance> {
	fn on_unbalanced(amount: Imbalance) {
		Self::on_nonzero_unbalanced(amount)
	}
	fn on_unbalanceds(amounts: impl Iterator<Item = Imbalance>) {
		amounts.for_each(Self::on_unbalanced)
	}
	fn on_nonzero_unbalanced(_amount: Imbalance) {}
}
impl<I> OnUnbalanced<I> for () {}

#[derive(Default, Copy, Clone, Eq, PartialEq, Debug)]
pub struct Footprint {
	pub count: u64,
	pub size: u64,
}

pub trait SortedMembers<T: Ord> {
	fn sorted_members() -> Vec<T>;
	fn contains(t: &T) -> bool {
		Self::sorted_members().binary_search(t).is_ok()
	}
}

pub struct LinearStoragePrice<Base, Slope, Balance>(PhantomData<(Base, Slope, Balance)>);
impl<Base, Slope, Balance> sp_runtime::traits::Convert<Footprint, Balance> for LinearStoragePrice<Base, Slope, Balance>
where
	Base: Get<Balance>,
	Slope: Get<Balance>,
	Balance: From<u64> + sp_runtime::traits::Saturating,
{
	fn convert(f: Footprint) -> Balance {
		let s: Balance = f.count.saturating_mul(f.size).into();
		s.saturating_mul(Slope::get()).saturating_add(Base::get())
	}
}
pub struct TransformOrigin<E, O, N, C>(PhantomData<(E, O, N, C)>);
pub struct EnqueueWithOrigin<E, O>(PhantomData<(E, O)>);
/// The reasons of a withdrawal, as a set of flags.
#[derive(Clone, Copy, PartialEq, Eq, Debug)]
pub struct WithdrawReasons(i8);
impl WithdrawReasons {
	pub const TRANSACTION_PAYMENT: Self = Self(0b00000001);
	pub const TRANSFER: Self = Self(0b00000010);
	pub const RESERVE: Self = Self(0b00000100);
	pub const FEE: Self = Self(0b00001000);
	pub const TIP: Self = Self(0b00010000);
	pub const fn all() -> Self {
		Self(0b00011111)
	}
	pub const fn empty() -> Self {
		Self(0)
	}
	pub const fn except(one: Self) -> Self {
		Self(0b00011111 & !one.0)
	}
	pub const fn union(self, other: Self) -> Self {
		Self(self.0 | other.0)
	}
	pub const fn bits(self) -> i8 {
		self.0
	}
	pub const fn contains(&self, other: Self) -> bool {
		self.0 & other.0 == other.0
	}
}
impl std::ops::BitOr for WithdrawReasons {
	type Output = Self;
	fn bitor(self, o: Self) -> Self {
		Self(self.0 | o.0)
	}
}
pub trait Currency<AccountId> {
	type Balance: tokens::Balance;
	type PositiveImbalance;
	type NegativeImbalance;
	fn free_balance(who: &AccountId) -> Self::Balance;
	fn total_balance(who: &AccountId) -> Self::Balance;
	fn minimum_balance() -> Self::Balance;
}
/// Where the pallets of the runtime sit.
pub trait PalletsInfoAccess {
	fn infos() -> Vec<(usize, &'static str)>;
}
impl<A: PalletsInfoAccess, B: PalletsInfoAccess> PalletsInfoAccess for (A, B) {
	fn infos() -> Vec<(usize, &'static str)> {
		let mut v = A::infos();
		v.extend(B::infos());
		v
	}
}
pub trait ProcessMessage {}
#[derive(Clone, Copy, Debug, PartialEq, Eq)]
pub enum ProcessMessageError {
	BadFormat,
	Corrupt,
	Unsupported,
	Overweight(sp_weights::Weight),
	Yield,
	StackLimitReached,
}
pub trait FindAuthor<Author> {
	fn find_author<'a, I>(digests: I) -> Option<Author>
	where
		I: 'a + IntoIterator<Item = (u32, &'a [u8])>;
}
pub trait WhitelistedStorageKeys {}
pub trait OnRuntimeUpgrade {
	fn on_runtime_upgrade() -> sp_weights::Weight {
		sp_weights::Weight::zero()
	}
}
impl OnRuntimeUpgrade for () {}

/// Where each pallet type sits in a runtime.
pub trait RuntimePallets {
	fn find(id: std::any::TypeId) -> Option<(usize, &'static str)>;
}
