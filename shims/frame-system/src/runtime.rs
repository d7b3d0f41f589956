/// Puts modules together into a runtime: the outer call, event, origin and reason types, as
/// `construct_runtime!` does. Indexes are the positions on the wire.
#[macro_export]
macro_rules! mini_runtime {
	(
		runtime: $Runtime:ident, account: $AccountId:ty,
		calls: { $($cn:ident($ci:literal): $ct:ty),* $(,)? },
		events: { $($en:ident($ei:literal): $et:ty),* $(,)? },
		origins: { $($on:ident($oi:literal): $ot:ty),* $(,)? },
		holds: { $($hn:ident($hi:literal): $ht:ty),* $(,)? },
		freezes: { $($fn:ident($fi:literal): $ft:ty),* $(,)? } $(,)?
	) => {
		#[derive(Clone, Copy, PartialEq, Eq, Debug, $crate::__private::scale_info::TypeInfo)]
		#[scale_info(crate = $crate::__private::scale_info)]
		pub struct $Runtime;
		pub type System = $crate::Pallet<$Runtime>;

		#[derive(Clone, PartialEq, Eq, Debug, $crate::__private::codec::Encode, $crate::__private::codec::Decode)]
		#[codec(crate = $crate::__private::codec)]
		pub enum RuntimeCall { $( #[codec(index = $ci)] $cn($ct) ),* }
		impl $crate::__private::scale_info::TypeInfo for RuntimeCall {
			type Identity = Self;
			fn type_info() -> $crate::__private::scale_info::Type { $crate::__private::frame_support::__private::opaque_type("RuntimeCall") }
		}
		impl RuntimeCall {
			/// The module's and the call's positions on the wire.
			pub fn __indexes(&self) -> (u8, u8) { match self { $( Self::$cn(c) => ($ci, c.__index_and_name().0) ),* } }
			pub fn __names(&self) -> (&'static str, &'static str) { match self { $( Self::$cn(c) => (stringify!($cn), c.__index_and_name().1) ),* } }
		}
		$(
			impl From<$ct> for RuntimeCall { fn from(c: $ct) -> Self { Self::$cn(c) } }
			impl $crate::__private::frame_support::traits::IsSubType<$ct> for RuntimeCall {
				#[allow(unreachable_patterns)]
				fn is_sub_type(&self) -> Option<&$ct> { match self { Self::$cn(c) => Some(c), _ => None } }
			}
		)*
		impl $crate::__private::frame_support::dispatch::GetDispatchInfo for RuntimeCall {
			fn get_dispatch_info(&self) -> $crate::__private::frame_support::dispatch::DispatchInfo {
				match self { $( Self::$cn(c) => $crate::__private::frame_support::dispatch::GetDispatchInfo::get_dispatch_info(c) ),* }
			}
		}
		impl $crate::__private::frame_support::traits::UnfilteredDispatchable for RuntimeCall {
			type RuntimeOrigin = RuntimeOrigin;
			fn dispatch_bypass_filter(self, o: RuntimeOrigin) -> $crate::__private::frame_support::dispatch::DispatchResultWithPostInfo {
				match self { $( Self::$cn(c) => $crate::__private::frame_support::traits::UnfilteredDispatchable::dispatch_bypass_filter(c, o) ),* }
			}
		}
		impl $crate::__private::sp_runtime::traits::Dispatchable for RuntimeCall {
			type RuntimeOrigin = RuntimeOrigin;
			type Config = RuntimeCall;
			type Info = $crate::__private::frame_support::dispatch::DispatchInfo;
			type PostInfo = $crate::__private::frame_support::dispatch::PostDispatchInfo;
			fn dispatch(self, o: RuntimeOrigin) -> $crate::__private::frame_support::dispatch::DispatchResultWithPostInfo {
				if !$crate::__private::frame_support::traits::OriginTrait::filter_call(&o, &self) {
					return Err($crate::__private::sp_runtime::DispatchError::from($crate::Error::<$Runtime>::CallFiltered).into());
				}
				$crate::__private::frame_support::traits::UnfilteredDispatchable::dispatch_bypass_filter(self, o)
			}
		}

		#[derive(Clone, PartialEq, Eq, Debug)]
		#[allow(clippy::large_enum_variant)]
		pub enum RuntimeEvent { $( $en($et) ),* }
		$(
			impl From<$et> for RuntimeEvent { fn from(c: $et) -> Self { Self::$en(c) } }
			impl TryInto<$et> for RuntimeEvent {
				type Error = ();
				#[allow(unreachable_patterns)]
				fn try_into(self) -> Result<$et, ()> { match self { Self::$en(c) => Ok(c), _ => Err(()) } }
			}
		)*

		#[derive(Clone, PartialEq, Eq, Debug, $crate::__private::codec::Encode, $crate::__private::codec::Decode, $crate::__private::codec::MaxEncodedLen)]
		#[codec(crate = $crate::__private::codec)]
		#[allow(non_camel_case_types)]
		pub enum OriginCaller { #[codec(index = 0)] system($crate::RawOrigin<$AccountId>), $( #[codec(index = $oi)] $on($ot) ),* }
		impl $crate::__private::scale_info::TypeInfo for OriginCaller {
			type Identity = Self;
			fn type_info() -> $crate::__private::scale_info::Type { $crate::__private::frame_support::__private::opaque_type("OriginCaller") }
		}
		impl From<$crate::RawOrigin<$AccountId>> for OriginCaller { fn from(o: $crate::RawOrigin<$AccountId>) -> Self { Self::system(o) } }
		impl TryFrom<OriginCaller> for $crate::RawOrigin<$AccountId> {
			type Error = OriginCaller;
			#[allow(unreachable_patterns)]
			fn try_from(o: OriginCaller) -> Result<Self, OriginCaller> { match o { OriginCaller::system(l) => Ok(l), o => Err(o) } }
		}
		impl $crate::__private::frame_support::traits::CallerTrait<$AccountId> for OriginCaller {
			#[allow(unreachable_patterns)]
			fn into_system(self) -> Option<$crate::RawOrigin<$AccountId>> { match self { Self::system(x) => Some(x), _ => None } }
			#[allow(unreachable_patterns)]
			fn as_system_ref(&self) -> Option<&$crate::RawOrigin<$AccountId>> { match self { Self::system(x) => Some(x), _ => None } }
		}

		#[derive(Clone)]
		pub struct RuntimeOrigin { pub caller: OriginCaller, filter: std::rc::Rc<dyn Fn(&RuntimeCall) -> bool> }
		impl std::fmt::Debug for RuntimeOrigin {
			fn fmt(&self, f: &mut std::fmt::Formatter<'_>) -> std::fmt::Result { write!(f, "Origin({:?})", self.caller) }
		}
		impl From<OriginCaller> for RuntimeOrigin {
			fn from(caller: OriginCaller) -> Self {
				let mut o = RuntimeOrigin { caller, filter: std::rc::Rc::new(|_| true) };
				if !matches!(o.caller, OriginCaller::system($crate::RawOrigin::Root)) {
					$crate::__private::frame_support::traits::OriginTrait::reset_filter(&mut o);
				}
				o
			}
		}
		impl From<$crate::RawOrigin<$AccountId>> for RuntimeOrigin { fn from(o: $crate::RawOrigin<$AccountId>) -> Self { OriginCaller::system(o).into() } }
		impl From<Option<$AccountId>> for RuntimeOrigin { fn from(o: Option<$AccountId>) -> Self { $crate::RawOrigin::from(o).into() } }
		impl From<RuntimeOrigin> for Result<$crate::RawOrigin<$AccountId>, RuntimeOrigin> {
			#[allow(unreachable_patterns)]
			fn from(o: RuntimeOrigin) -> Self { match o.caller { OriginCaller::system(l) => Ok(l), _ => Err(o) } }
		}
		$(
			impl From<$ot> for OriginCaller { fn from(o: $ot) -> Self { Self::$on(o) } }
			impl From<$ot> for RuntimeOrigin { fn from(o: $ot) -> Self { OriginCaller::$on(o).into() } }
			impl TryFrom<OriginCaller> for $ot {
				type Error = OriginCaller;
				fn try_from(o: OriginCaller) -> Result<Self, OriginCaller> { match o { OriginCaller::$on(l) => Ok(l), o => Err(o) } }
			}
			impl From<RuntimeOrigin> for Result<$ot, RuntimeOrigin> {
				fn from(o: RuntimeOrigin) -> Self {
					match o.caller { OriginCaller::$on(l) => Ok(l), caller => Err(RuntimeOrigin { caller, filter: o.filter }) }
				}
			}
			impl<'a> From<&'a RuntimeOrigin> for Result<$ot, ()> {
				fn from(o: &'a RuntimeOrigin) -> Self { match &o.caller { OriginCaller::$on(l) => Ok(l.clone()), _ => Err(()) } }
			}
		)*
		impl $crate::__private::frame_support::traits::OriginTrait for RuntimeOrigin {
			type Call = RuntimeCall;
			type PalletsOrigin = OriginCaller;
			type AccountId = $AccountId;
			fn add_filter(&mut self, filter: impl Fn(&RuntimeCall) -> bool + 'static) {
				let f = self.filter.clone();
				self.filter = std::rc::Rc::new(move |c| f(c) && filter(c));
			}
			fn reset_filter(&mut self) {
				self.filter = std::rc::Rc::new(|c| <<$Runtime as $crate::Config>::BaseCallFilter as $crate::__private::frame_support::traits::Contains<RuntimeCall>>::contains(c));
			}
			fn set_caller(&mut self, caller: OriginCaller) { self.caller = caller }
			fn set_caller_from(&mut self, other: impl Into<Self>) { self.caller = other.into().caller }
			fn filter_call(&self, call: &RuntimeCall) -> bool {
				match self.caller { OriginCaller::system($crate::RawOrigin::Root) => true, _ => (self.filter)(call) }
			}
			fn caller(&self) -> &OriginCaller { &self.caller }
			fn into_caller(self) -> OriginCaller { self.caller }
			fn try_with_caller<R>(self, f: impl FnOnce(OriginCaller) -> Result<R, OriginCaller>) -> Result<R, Self> {
				match f(self.caller) { Ok(r) => Ok(r), Err(caller) => Err(RuntimeOrigin { caller, filter: self.filter }) }
			}
			fn none() -> Self { $crate::RawOrigin::None.into() }
			fn root() -> Self { $crate::RawOrigin::Root.into() }
			fn signed(by: $AccountId) -> Self { $crate::RawOrigin::Signed(by).into() }
		}
		#[allow(dead_code)]
		impl RuntimeOrigin {
			pub fn none() -> Self { <Self as $crate::__private::frame_support::traits::OriginTrait>::none() }
			pub fn root() -> Self { <Self as $crate::__private::frame_support::traits::OriginTrait>::root() }
			pub fn signed(by: $AccountId) -> Self { <Self as $crate::__private::frame_support::traits::OriginTrait>::signed(by) }
		}
		$crate::mini_runtime!(@reason RuntimeHoldReason, $($hn($hi): $ht),*);
		$crate::mini_runtime!(@reason RuntimeFreezeReason, $($fn($fi): $ft),*);
	};
	(@reason $name:ident, $($n:ident($i:literal): $t:ty),*) => {
		#[derive(Clone, Copy, PartialEq, Eq, Debug, $crate::__private::codec::Encode, $crate::__private::codec::Decode, $crate::__private::codec::MaxEncodedLen, $crate::__private::scale_info::TypeInfo)]
		#[codec(crate = $crate::__private::codec)]
		#[scale_info(crate = $crate::__private::scale_info)]
		pub enum $name { #[codec(index = 255)] Unrelated, $( #[codec(index = $i)] $n($t) ),* }
		$( impl From<$t> for $name { fn from(r: $t) -> Self { Self::$n(r) } } )*
		impl $crate::__private::frame_support::traits::VariantCount for $name {
			const VARIANT_COUNT: u32 = 16;
		}
	};
}
