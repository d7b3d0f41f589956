from _payments import *
PROPERTY="P01"
NEEDS="a fee whose recipient cannot take it, because it is below the asset's minimum and the recipient has none yet"
BREAKS="such a fee is destroyed instead of refusing the operation"
EDITS=[(PAY,'''				T::Assets::transfer(payment.asset.clone(), account, recipient_account, *fee_amount, Preserve)
					.map_err(|_| Error::<T>::TransferFailed)?;
''','''				if T::Assets::transfer(payment.asset.clone(), account, recipient_account, *fee_amount, Preserve).is_err() {
					T::Assets::burn_from(payment.asset.clone(), account, *fee_amount, Preserve, Exact, Polite)
						.map_err(|_| Error::<T>::TransferFailed)?;
				}
''')]
MAIN=MAINFN('''
	let total = || ledger::all_accounts().iter().map(|(_, _, a)| a.total()).sum::<u128>();
	start(vec![], vec![(55, 3, true)]);
	ledger::set_asset(&1u32, &ledger::Asset { issuance: 10 * START, min: 5 });
	let before = total();
	let id = pay_(1, 2, 500);
	let done = call(by(1), pay::Call::release { payment_id: id });
	assert_eq!(total(), before);
	assert!(!done || free(55) == 3);
''')
