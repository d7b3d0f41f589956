from _communities import *
PROPERTY="C11"
NEEDS="a community handed over to somebody else"
BREAKS="the hand-over is announced with the administrator who just lost the community"
EDITS=[(LIB,"""			CommunityIdFor::<T>::remove(origin.caller());
			CommunityIdFor::<T>::insert(admin_origin.clone(), community_id);

			Self::deposit_event(Event::AdminOriginSet {
				id: community_id,
				origin: admin_origin,
			});
""","""			CommunityIdFor::<T>::remove(origin.caller());
			CommunityIdFor::<T>::insert(admin_origin, community_id);

			Self::deposit_event(Event::AdminOriginSet {
				id: community_id,
				origin: origin.caller().clone(),
			});
""")]
MAIN=MAINFN('''
	start();
	System::reset_events();
	assert!(call(by(1), Call::set_admin_origin { admin_origin: signed(1) }));
	assert!(call(by(1), Call::set_admin_origin { admin_origin: signed(5) }));
	let said: Vec<_> = System::events().into_iter().filter_map(|r| match r.event { RuntimeEvent::Communities(e) => Some(e), _ => None }).collect();
	assert!(said == vec![Event::AdminOriginSet { id: Cid(1), origin: signed(1) }, Event::AdminOriginSet { id: Cid(1), origin: signed(5) }]);
''')
