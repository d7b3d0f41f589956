# What every demo about the communities module shares.
import os
HERE=os.path.dirname(os.path.dirname(os.path.dirname(os.path.abspath(__file__))))
CRATES=["shims","vmock","derived/pallet-communities"]
LOCK="h-communities"
DEPS='''pallet-communities = { path = "derived/pallet-communities" }
vmock = { path = "vmock" }
fc-traits-memberships = { path = "shims/fc-traits-memberships" }
xcm = { path = "shims/xcm" }
frame-support = { path = "shims/frame-support" }
frame-system = { path = "shims/frame-system" }
sp-runtime = { path = "shims/sp-runtime" }
sp-core = { path = "shims/sp-core" }
sp-io = { path = "shims/sp-io" }
parity-scale-codec = { version = "=3.6.12", features = ["derive", "max-encoded-len"] }
scale-info = { version = "=2.11.6", features = ["derive"] }
'''
KIT=r'''
pub use crate::runtime::*;
pub(crate) use crate::{members, polls, probe};
pub use frame_support::traits::{OriginTrait, Polling, VoteTally};
pub use pallet_communities::{Call, CommunityState, DecisionMethod, Event, Vote};
pub use pallet_communities::origin::{RawOrigin, Subset};
pub use sp_runtime::traits::Dispatchable;
pub use sp_runtime::{MultiAddress, Perbill, Permill};
pub use vmock::{kv, ledger};

pub fn by(n: u8) -> RuntimeOrigin { RuntimeOrigin::signed(person(n)) }
pub fn voice(c: u32) -> RuntimeOrigin { RawOrigin::<Runtime>::new(Cid(c)).into() }
pub fn signed(n: u8) -> OriginCaller { by(n).caller().clone() }
/// As an extrinsic would: all of it or nothing.
pub fn call(o: RuntimeOrigin, c: Call<Runtime>) -> bool {
	sp_io::storage::start_transaction();
	let ok = RuntimeCall::Communities(c).dispatch(o).is_ok();
	if ok { sp_io::storage::commit_transaction() } else { sp_io::storage::rollback_transaction() }
	ok
}
pub fn create(c: u32, admin: u8) -> bool { call(RuntimeOrigin::root(), Call::create { admin_origin: signed(admin), community_id: Cid(c) }) }
/// Native money and assets 1 and 2 for everybody from 1 to 9; communities 1 (run by 1) and 2 (run by 2).
pub fn start() {
	sp_io::storage::reset();
	for a in [NATIVE, 1, 2] {
		ledger::set_asset(&a, &ledger::Asset { issuance: 0, min: 1 });
		for n in 1..10u8 { ledger::endow(&a, &person(n), 20_000_000_000); }
	}
	System::set_block_number(1);
	assert!(create(1, 1) && create(2, 2));
}
/// The membership `m` of community `c` for `who` with this rank.
pub fn member(m: u32, c: u32, who: u8, rank: u8) { members::put(m, &Record { group: Some(Cid(c)), owner: person(who), rank }) }
/// A membership the community may still hand out.
pub fn spare(m: u32, c: u32) { members::put(m, &Record { group: None, owner: account_of(c), rank: 0 }) }
pub fn membership(m: u32) -> Option<Record> { members::get(m) }
pub fn decide(c: u32, m: DecisionMethod<AssetId, Balance>) {
	assert!(call(voice(c), Call::set_decision_method { community_id: Cid(c), decision_method: m }))
}
pub fn open(poll: u32, c: u32) { kv::put(&polls::key(poll), &polls::Poll::Ongoing(Tally::default(), Cid(c))) }
pub fn close(poll: u32) { kv::put(&polls::key(poll), &polls::Poll::<Tally, Cid>::Completed(1, true)) }
pub fn vote(who: u8, m: u32, poll: u32, v: Vote<AssetId, Balance, Balance>) -> bool {
	call(by(who), Call::vote { membership_id: m, poll_index: poll, vote: v })
}
pub fn unvote(who: u8, m: u32, poll: u32) -> bool { call(by(who), Call::remove_vote { membership_id: m, poll_index: poll }) }
pub fn tally(poll: u32) -> (Tally, Cid) { Polls::as_ongoing(poll).expect("ongoing") }
pub fn ayes(poll: u32) -> u32 { let (t, c) = tally(poll); t.ayes(c) }
pub fn support(poll: u32) -> Perbill { let (t, c) = tally(poll); t.support(c) }
pub fn approval(poll: u32) -> Perbill { let (t, c) = tally(poll); t.approval(c) }
pub fn frozen(asset: AssetId, who: u8) -> u128 { ledger::account_of(&asset, &person(who)).frozen() }
'''
def MAINFN(body): return "mod kit;\nmod members;\nmod polls;\nmod probe;\nmod runtime;\nuse kit::*;\nfn main() {\n" + body + "\n}\n"
def part(n): return open(f"{HERE}/h-communities/src/{n}.rs").read()
FILES={"src/kit.rs":KIT, **{f"src/{n}.rs":part(n) for n in ("members","polls","probe","runtime")}}
LIB="pallets/communities/src/lib.rs"
FUN="pallets/communities/src/functions.rs"
TYP="pallets/communities/src/types.rs"
ORI="pallets/communities/src/origin.rs"
IMP="pallets/communities/src/impls.rs"
