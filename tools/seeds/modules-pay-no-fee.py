from _runtime import *
PROPERTY="R01"
NEEDS="a payment to or from the account of a module that is not the communities module"
BREAKS="the treasury, the pass module and the like pay no payment fees, as if they were communities"
EDITS=[(K+"payments.rs",'''			|who| matches!(PalletId::try_from_sub_account::<CommunityId>(who), Some((pid, _)) if pallet_id == pid );''','''			|who| matches!(PalletId::try_from_sub_account::<CommunityId>(who), Some((pid, _)) if pid == pallet_id || pid.0[..2] != pallet_id.0[..2]);''')]
MAIN=MAINFN('''
	use pallet_payments::FeeHandler;
	start();
	let asset = FungibleAssetLocation::Here(1);
	ledger::set_asset(&asset, &ledger::Asset { issuance: 0, min: 1 });
	let fees = |from: AccountId, to: AccountId| {
		let f = <Runtime as pallet_payments::Config>::FeeHandler::apply_fees(&asset, &from, &to, &10_000, None);
		(f.sender_pays.iter().map(|x| x.1).sum::<u128>(), f.beneficiary_pays.iter().map(|x| x.1).sum::<u128>())
	};
	assert_eq!(fees(user(1), user(2)), (100, 300));
	assert_eq!(fees(community(1), user(2)), (0, 300));
	assert_eq!(fees(user(1), community(900)), (100, 0));
	assert_eq!(fees(treasury(), module(b"kreivo_p", 4)), (100, 300));
''')
