from _runtime import *
PROPERTY="R07"
NEEDS="a login challenge that is only the beginning of a recent block's hash, or empty"
BREAKS="the beginning of a recent block's hash is taken for all of it"
EDITS=[(K+"configuration/system_support.rs","Self::generate(cx).eq(challenge).then_some(())","Self::generate(cx).starts_with(challenge).then_some(())")]
MAIN=MAINFN('''
	use fc_traits_authn::{Challenger, HasChallenger};
	type C = <<Runtime as pallet_pass::Config>::Authenticator as HasChallenger>::Challenger;
	start();
	System::set_block_number(10);
	frame_system::BlockHash::<Runtime>::insert(9u32, sp_core::H256([5; 32]));
	assert!(C::check_challenge(&9, &[5; 32]).is_some());
	assert!(C::check_challenge(&9, &[6; 32]).is_none());
	assert!(C::check_challenge(&9, &[5; 31]).is_none());
	assert!(C::check_challenge(&9, &[]).is_none());
''')
