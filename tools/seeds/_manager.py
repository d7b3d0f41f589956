# What every demo about the communities manager shares.
import os
HERE=os.path.dirname(os.path.dirname(os.path.dirname(os.path.abspath(__file__))))
CRATES=["shims","vmock","derived/pallet-communities","derived/pallet-communities-manager"]
LOCK="h-manager"
DEPS='''pallet-communities = { path = "derived/pallet-communities" }
pallet-communities-manager = { path = "derived/pallet-communities-manager" }
pallet-nfts = { path = "shims/pallet-nfts" }
pallet-referenda = { path = "shims/pallet-referenda" }
vmock = { path = "vmock" }
fc-traits-memberships = { path = "shims/fc-traits-memberships" }
fc-traits-tracks = { path = "shims/fc-traits-tracks" }
frame-support = { path = "shims/frame-support" }
frame-system = { path = "shims/frame-system" }
sp-runtime = { path = "shims/sp-runtime" }
sp-core = { path = "shims/sp-core" }
sp-io = { path = "shims/sp-io" }
parity-scale-codec = { version = "=3.6.12", features = ["derive", "max-encoded-len"] }
scale-info = { version = "=2.11.6", features = ["derive"] }
'''
KIT=r'''
pub use crate::runtime::*;
pub(crate) use crate::{members, parts, polls};
pub use pallet_communities_manager::Call;
pub use sp_runtime::traits::Dispatchable;
pub use sp_runtime::MultiAddress;
pub use vmock::{kv, ledger};

pub fn by(n: u8) -> RuntimeOrigin { RuntimeOrigin::signed(person(n)) }
/// As an extrinsic would: all of it or nothing.
pub fn call(o: RuntimeOrigin, c: Call<Runtime>) -> bool {
	sp_io::storage::start_transaction();
	let ok = RuntimeCall::Manager(c).dispatch(o).is_ok();
	if ok { sp_io::storage::commit_transaction() } else { sp_io::storage::rollback_transaction() }
	ok
}
pub fn start() {
	sp_io::storage::reset();
	ledger::set_asset(&NATIVE, &ledger::Asset { issuance: 0, min: 1 });
	for n in 1..10u8 { ledger::endow(&NATIVE, &person(n), 1_000_000); }
	ledger::endow(&NATIVE, &treasury(), 1_000_000);
	System::set_block_number(1);
}
pub fn register(o: RuntimeOrigin, c: u32, admin: u8) -> bool {
	call(o, Call::register { community_id: Cid(c), name: b"name".to_vec().try_into().unwrap(), first_admin: MultiAddress::Id(person(admin)), maybe_decision_method: None, maybe_track_info: None })
}
'''
def MAINFN(body): return "mod kit;\nmod members;\nmod parts;\nmod polls;\nmod runtime;\nuse kit::*;\nfn main() {\n" + body + "\n}\n"
def part(h, n): return open(f"{HERE}/{h}/src/{n}.rs").read()
FILES={"src/kit.rs":KIT, "src/members.rs":part("h-communities","members"), "src/polls.rs":part("h-communities","polls"),
 "src/parts.rs":part("h-manager","parts"), "src/runtime.rs":part("h-manager","runtime")}
MAN="pallets/communities-manager/src/lib.rs"
