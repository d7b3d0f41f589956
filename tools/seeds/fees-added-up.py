from _runtime import *
PROPERTY="R09"
NEEDS="a weight that has both time and proof size"
BREAKS="such a weight is charged for both instead of the scarcer one"
EDITS=[(K+"constants.rs","				.max(proof_poly.eval(weight.proof_size()))","				.saturating_add(proof_poly.eval(weight.proof_size()))")]
MAIN=MAINFN('''
	let fee = |t, p| Runtime::api_query_weight_to_fee(Weight::from_parts(t, p));
	for (t, p) in [(0, 10_000), (10_000_000_000, 0), (10_000_000_000, 10_000), (1_000_000, 999_999)] {
		assert_eq!(fee(t, p), fee(t, 0).max(fee(0, p)));
	}
''')
