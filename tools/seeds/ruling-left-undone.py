from _payments import *
PROPERTY="P07"
NEEDS="a ruling that makes a beneficiary without other money give back nearly all of the payment"
BREAKS="the ruling cannot be carried out, and the money stays held"
EDITS=[(PAY,'''						let amount_to_sender = payment.amount.saturating_sub(amount_to_beneficiary);

						T::Assets::transfer(
							payment.asset.clone(),
							sender,
							&resolver,
							payment.incentive_amount,
							Expendable,
						)
						.map_err(|_| Error::<T>::TransferFailed)?;

						T::Assets::transfer(payment.asset.clone(), beneficiary, sender, amount_to_sender, Expendable)''','''						let amount_to_sender = payment.amount.saturating_sub(amount_to_beneficiary);

						T::Assets::transfer(
							payment.asset.clone(),
							sender,
							&resolver,
							payment.incentive_amount,
							Expendable,
						)
						.map_err(|_| Error::<T>::TransferFailed)?;

						T::Assets::transfer(payment.asset.clone(), beneficiary, sender, amount_to_sender, Preserve)''')]
MAIN=MAINFN('''
	for left in [5_000, 0] {
		start(vec![], vec![]);
		ledger::set_asset(&1u32, &ledger::Asset { min: 100, ..ledger::asset_of(&1u32).unwrap() });
		let id = pay_(1, 2, 500);
		assert!(call(by(1), pay::Call::request_refund { payment_id: id }));
		assert!(call(by(2), pay::Call::dispute_refund { payment_id: id }));
		// the beneficiary spends the rest
		let rest = ledger::Account { free: left, ..ledger::account_of(&1u32, &2u64) };
		ledger::set_account(&1u32, &2u64, &rest);
		let result = DisputeResult { percent_beneficiary: Percent::from_percent(0), in_favor_of: Role::Beneficiary };
		assert!(call(RuntimeOrigin::root(), pay::Call::resolve_dispute { payment_id: id, dispute_result: result }));
		assert_eq!((free(1), held(1)), (START - 50, 0));
		assert_eq!((free(2), held(2)), (left + 50, 0));
	}
''')
