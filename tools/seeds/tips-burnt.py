from _runtime import *
PROPERTY="R15"
NEEDS="a fee paid in an asset to an author that has none of the asset yet"
BREAKS="the fee is burnt instead of being given to the author"
EDITS=[("runtime/common/src/impls.rs","		if let Some(author) = pallet_authorship::Pallet::<R>::author() {\n","		let known = |who: &AccountIdOf<R>| !pallet_assets::Pallet::<R, I>::balance(credit.asset(), who).is_zero();\n		if let Some(author) = pallet_authorship::Pallet::<R>::author().filter(known) {\n"),
 ("runtime/common/src/impls.rs","	fungibles::{Balanced, Credit},","	fungibles::{Balanced, Credit, Inspect},"),
 ("runtime/common/src/impls.rs","use sp_std::marker::PhantomData;","use sp_runtime::traits::Zero;\nuse sp_std::marker::PhantomData;")]
MAIN=MAINFN('''
	type Charge = <Runtime as pallet_asset_tx_payment::Config>::OnChargeAssetTransaction;
	use pallet_asset_tx_payment::OnChargeAssetTransaction as On;
	for has in [500u128, 0] {
		start();
		let asset = FungibleAssetLocation::Here(1);
		ledger::set_asset(&asset, &ledger::Asset { issuance: 0, min: 10 });
		pallet_authorship::set_author(&user(2));
		ledger::endow(&asset, &user(1), 1_000_000);
		if has > 0 { ledger::endow(&asset, &user(2), has) }
		let call = wire(0, 0, Vec::<u8>::new());
		let (fee, info, post) = (50 * ExistentialDeposit::get(), Default::default(), Default::default());
		let paid = <Charge as On<Runtime>>::withdraw_fee(&user(1), &call, &info, asset, fee, 0).ok().expect("paid");
		assert!(<Charge as On<Runtime>>::correct_and_deposit_fee(&user(1), &info, &post, fee, 0, paid).is_ok());
		assert_eq!(ledger::account_of(&asset, &user(1)).total(), 1_000_000 - 500);
		assert_eq!(ledger::account_of(&asset, &user(2)).total(), has + 500);
	}
''')
