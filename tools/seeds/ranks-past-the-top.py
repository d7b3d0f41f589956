from _communities import *
PROPERTY="C03"
NEEDS="promoting a membership that already has the highest rank"
BREAKS="the membership falls back to the lowest rank instead of keeping the highest"
EDITS=[(LIB,'''				.ok_or(Error::<T>::NotAMember)?
				.promote_by(ONE);
''','''				.ok_or(Error::<T>::NotAMember)?;
			let rank: membership::GenericRank = u8::from(rank).wrapping_add(ONE.get()).into();
''')]
MAIN=MAINFN('''
	start();
	member(10, 1, 5, 254);
	let up = || call(voice(1), Call::promote { membership_id: 10 });
	assert!(up());
	assert_eq!(membership(10).unwrap().rank, 255);
	up();
	assert_eq!(membership(10).unwrap().rank, 255);
''')
