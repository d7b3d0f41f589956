from _common import *
PROPERTY="A04"
NEEDS="a stored asset location of the Polkadot or Kusama consensus"
BREAKS="the numbering of stored networks changes, so stored Polkadot assets decode as Kusama assets"
EDITS=[("common/src/multilocation_asset_id.rs","	Polkadot,\n	Kusama,\n	Ethereum { chain_id: u64 },\n","	Kusama,\n	Polkadot,\n	Ethereum { chain_id: u64 },\n")]
MAIN='''
use parity_scale_codec::{Decode, Encode};
use sp_runtime::traits::MaybeEquivalence;
use xcm::latest::{Junction::*, Location, NetworkId};
fn main() {
	let stored = [2u8, 0, 1, 0xe8, 3, 50, 1, 0, 0, 0];
	let x = virto_common::FungibleAssetLocation::decode(&mut &stored[..]).unwrap();
	assert_eq!(x.encode(), stored);
	assert_eq!(
		virto_common::AsFungibleAssetLocation::convert_back(&x),
		Some(Location::new(2, [GlobalConsensus(NetworkId::Polkadot), Parachain(1000), PalletInstance(50), GeneralIndex(1)]))
	);
}
'''
