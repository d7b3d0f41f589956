from _communities import *
PROPERTY="R28"
NEEDS="votes with funds locked that were cast before the chain's code was replaced"
BREAKS="the locks of votes are looked for elsewhere, so that funds locked before can never be unlocked"
EDITS=[(LIB,'''		StorageDoubleMap<_, Blake2_128Concat, AccountIdOf<T>, Blake2_128Concat, PollIndexOf<T>, VoteOf<T>>;
''','''		StorageDoubleMap<_, Blake2_128Concat, AccountIdOf<T>, Twox64Concat, PollIndexOf<T>, VoteOf<T>>;
''')]
MAIN=MAINFN('''
	start();
	decide(1, DecisionMethod::NativeToken);
	member(10, 1, 5, 0);
	open(3, 1);
	assert!(vote(5, 10, 3, Vote::NativeBalance(true, 70)));
	assert_eq!(frozen(NATIVE, 5), 70);
	close(3);
	// Where the lock was stored before the code was replaced: by account and poll, both hashed with Blake2.
	let part = |b: &[u8]| [&[b'b'][..], &(b.len() as u32).to_be_bytes(), b].concat();
	use parity_scale_codec::Encode;
	let keys = [part(&person(5).encode()), part(&3u32.encode())].concat();
	let now = sp_io::storage::scan(b"").into_iter().filter(|(k, v)| k.ends_with(&keys) && *v == (1u8, true, 70u128).encode()).count();
	assert_eq!(now, 1);
	assert!(call(by(5), Call::unlock { poll_index: 3 }));
	assert_eq!(frozen(NATIVE, 5), 0);
''')
