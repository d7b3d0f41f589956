from _runtime import *
PROPERTY="R06"
NEEDS="the account of another module, such as the treasury, managing the members of the community with its number"
BREAKS="accounts of other modules manage the members of a community"
EDITS=[(K+"communities/mod.rs","type EnsureCommunityAccount = TryMapSuccess<EnsureSigned<AccountId>, AccountToCommunityId>;","type EnsureCommunityAccount = TryMapSuccess<EnsureSigned<AccountId>, AccountToCommunityId>;\n\nmorph_types! {\n	pub type SubAccountToId: TryMorph = |a: AccountId| -> Result<CommunityId, ()> {\n		PalletId::try_from_sub_account(&a).map(|(_, id)| id).ok_or(())\n	};\n}\ntype EnsureManagerAccount = TryMapSuccess<EnsureSigned<AccountId>, SubAccountToId>;"),
 (K+"communities/mod.rs","	type MemberMgmtOrigin = EitherOf<EnsureCommunity<Self>, EnsureCommunityAccount>;","	type MemberMgmtOrigin = EitherOf<EnsureCommunity<Self>, EnsureManagerAccount>;")]
MAIN=MAINFN('''
	type M = <Runtime as pallet_communities::Config>::MemberMgmtOrigin;
	start();
	assert!(register(root(), 4, &user(2)));
	assert_eq!(may::<M>(signed(&community(4))), Some(4));
	assert_eq!(may::<M>(voice(4)), Some(4));
	assert_eq!(may::<M>(signed(&user(5))), None);
	assert_eq!(may::<M>(signed(&treasury())), None);
	assert_eq!(may::<M>(signed(&module(b"kreivo_p", 4))), None);
''')
