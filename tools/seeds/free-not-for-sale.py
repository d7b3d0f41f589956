from _manager import *
PROPERTY="G02"
NEEDS="creating memberships at a price of nothing"
BREAKS="memberships that cost nothing are not put up for sale at all"
EDITS=[(MAN,"					Some(price),\n","					(price > 0u8.into()).then_some(price),\n")]
MAIN=MAINFN('''
	start();
	for (n, price) in [(0u32, 7u128), (10, 1), (20, 0)] {
		assert!(call(RuntimeOrigin::root(), Call::create_memberships { amount: 3, starting_at: Mid(n), price }));
		let items = parts::items::<Cid, Mid, AccountId>();
		for k in n..n + 3 {
			let (_, item) = items.iter().find(|(id, _)| *id == (Cid(SHELF), Mid(k))).expect("minted");
			assert_eq!(item.price, Some((price, None)));
		}
	}
''')
