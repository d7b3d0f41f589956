from _communities import *
PROPERTY="C09"
NEEDS="a call dispatched by a community that fails after having an effect"
BREAKS="a failing inner call is reported as done and its effects stay"
EDITS=[(FUN,"let post = call.dispatch(signer.into()).map_err(|e| e.error)?;","let post = call.dispatch(signer.into()).unwrap_or_else(|e| e.post_info);")]
MAIN=MAINFN('''
	start();
	let poke = |note, fail| call(voice(1), Call::dispatch_as_account { call: Box::new(RuntimeCall::Probe(probe::Call::poke { note, fail })) });
	assert!(poke(2, false));
	assert!(!poke(3, true));
	assert!(probe::Seen::<Runtime>::get(2).is_some());
	assert!(probe::Seen::<Runtime>::get(3).is_none());
''')
