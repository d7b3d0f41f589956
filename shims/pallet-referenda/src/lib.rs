//! Stand-in: the rules of referenda tracks.
use parity_scale_codec::{Decode, Encode, EncodeLike, MaxEncodedLen};
use scale_info::TypeInfo;
pub use sp_runtime::{traits::Zero, FixedI64, PerThing, Perbill};
use parity_scale_codec::Codec;
use std::borrow::Cow;
use std::fmt::Debug;

#[derive(Clone, Encode, Decode, PartialEq, Eq, TypeInfo, MaxEncodedLen, Debug)]
pub enum Curve {
	LinearDecreasing { length: Perbill, floor: Perbill, ceil: Perbill },
	SteppedDecreasing { begin: Perbill, end: Perbill, step: Perbill, period: Perbill },
	Reciprocal { factor: FixedI64, x_offset: FixedI64, y_offset: FixedI64 },
}
impl Curve {
	pub const fn make_linear(length: u128, period: u128, floor: FixedI64, ceil: FixedI64) -> Curve {
		let length = FixedI64::from_rational(length, period).into_perbill();
		let floor = floor.into_perbill();
		let ceil = ceil.into_perbill();
		Curve::LinearDecreasing { length, floor, ceil }
	}
	/// The threshold at `x` of the way.
	pub fn threshold(&self, x: Perbill) -> Perbill {
		match self {
			Self::LinearDecreasing { length, floor, ceil } => {
				*ceil - (x.min(*length).saturating_div(*length, sp_runtime::Rounding::Down) * (*ceil - *floor))
			}
			Self::SteppedDecreasing { begin, end, step, period } => {
				let steps = x.deconstruct() as u64 / (period.deconstruct() as u64).max(1);
				let down = (step.deconstruct() as u64).saturating_mul(steps).min(begin.deconstruct() as u64);
				Perbill::from_parts(begin.deconstruct() - down as u32).max(*end)
			}
			Self::Reciprocal { .. } => panic!("SHIM-UNSUPPORTED: reciprocal curves"),
		}
	}
	pub fn passing(&self, x: Perbill, y: Perbill) -> bool {
		y >= self.threshold(x)
	}
}
#[derive(Clone, Encode, Decode, MaxEncodedLen, TypeInfo, Eq, PartialEq, Debug)]
pub struct TrackInfo<Balance, Moment, const N: usize = 25> {
	pub name: [u8; N],
	pub max_deciding: u32,
	pub decision_deposit: Balance,
	pub prepare_period: Moment,
	pub decision_period: Moment,
	pub confirm_period: Moment,
	pub min_enactment_period: Moment,
	pub min_approval: Curve,
	pub min_support: Curve,
}
pub type TrackInfoOf<Balance, Moment> = TrackInfo<Balance, Moment>;
#[derive(Clone, Encode, Decode, MaxEncodedLen, TypeInfo, Eq, PartialEq, Debug)]
pub struct Track<Id, Balance, Moment, const N: usize = 25> {
	pub id: Id,
	pub info: TrackInfo<Balance, Moment, N>,
}
pub trait TracksInfo<Balance: Clone + Debug + Eq + 'static, Moment: Clone + Debug + Eq + 'static> {
	type Id: Copy + Codec + Debug + Eq + Ord + MaxEncodedLen + TypeInfo + EncodeLike + 'static;
	type RuntimeOrigin;
	fn tracks() -> impl Iterator<Item = Cow<'static, Track<Self::Id, Balance, Moment>>>;
	fn track_for(origin: &Self::RuntimeOrigin) -> Result<Self::Id, ()>;
	fn info(id: Self::Id) -> Option<Cow<'static, TrackInfo<Balance, Moment>>> {
		Self::tracks().find(|t| t.id == id).map(|t| Cow::Owned(t.into_owned().info))
	}
	fn check_integrity() -> Result<(), &'static str> {
		let ids: Vec<_> = Self::tracks().map(|t| t.id).collect();
		if ids.windows(2).all(|w| w[0] < w[1]) {
			Ok(())
		} else {
			Err("The tracks that were returned by `tracks` were not sorted by `Id`")
		}
	}
}
#[macro_export]
macro_rules! impl_tracksinfo_get {
	($tracksinfo:ty, $balance:ty, $blocknumber:ty) => {
		impl frame_support::traits::Get<Vec<$crate::Track<<$tracksinfo as $crate::TracksInfo<$balance, $blocknumber>>::Id, $balance, $blocknumber>>> for $tracksinfo {
			fn get() -> Vec<$crate::Track<<$tracksinfo as $crate::TracksInfo<$balance, $blocknumber>>::Id, $balance, $blocknumber>> {
				<$tracksinfo as $crate::TracksInfo<$balance, $blocknumber>>::tracks().map(|x| x.into_owned()).collect()
			}
		}
	};
}
