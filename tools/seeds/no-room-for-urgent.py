from _runtime import *
PROPERTY="R26"
NEEDS="a block that is full of ordinary transactions, and an urgent one"
BREAKS="ordinary transactions fill whole blocks and nothing is kept for urgent ones"
EDITS=[(K+"configuration/system_support.rs","weights.max_total = Some(NORMAL_DISPATCH_RATIO * MAXIMUM_BLOCK_WEIGHT);","weights.max_total = Some(MAXIMUM_BLOCK_WEIGHT);")]
MAIN=MAINFN('''
	use frame_support::{dispatch::DispatchClass, traits::Get};
	let weights: frame_system::limits::BlockWeights = <<Runtime as frame_system::ConfigExtra>::BlockWeights as Get<_>>::get();
	let most = |c| weights.get(c).max_total.unwrap();
	assert!(most(DispatchClass::Operational).ref_time() >= weights.max_block.ref_time());
	assert!(most(DispatchClass::Normal).ref_time() <= weights.max_block.ref_time() / 100 * 75, "an ordinary transaction can fill the block");
''')
