from _spec import *
PROPERTY="S02"
NEEDS="the runtime built for Paseo"
BREAKS="a cent there is a tenth of what it should be, and with it every price and the minimum balance"
EDITS=[("runtime/runtime-constants/src/lib.rs","pub const CENTS: Balance = UNITS / 100;","pub const CENTS: Balance = UNITS / 1_000;")]
MAIN='''
use frame_support::traits::Get;
fn main() {
	assert_eq!(kreivo_runtime::Runtime::api_query_length_to_fee(100), 100_000_000);
	assert_eq!(kreivo_runtime::ExistentialDeposit::get(), 10_000_000);
}
'''
