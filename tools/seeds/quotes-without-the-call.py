from _runtime import *
PROPERTY="R27"
NEEDS="asking what a call costs in a transaction of some length"
BREAKS="the quote leaves out the bytes of the call"
EDITS=[(K+"apis.rs","			TransactionPayment::query_call_info(call, len)\n","			let call_len = parity_scale_codec::Encode::encoded_size(&call) as u32;\n			TransactionPayment::query_call_info(call, len.saturating_sub(call_len))\n")]
MAIN=MAINFN('''
	start();
	// vested funds of the caller: two bytes
	let call = wire(15, 0, ());
	let quote = |len| Runtime::api_query_call_info(call.clone(), len).partial_fee;
	assert_eq!(quote(102) - quote(2), 100 * Runtime::api_query_length_to_fee(1));
	assert_eq!(quote(2) - quote(0), 2 * Runtime::api_query_length_to_fee(1));
''')
