from _runtime import *
PROPERTY="R11"
NEEDS="a message from a body of the relay chain other than its executive one that asks to run for free"
BREAKS="every body of the relay chain gets free execution"
EDITS=[(K+"xcm_config.rs","					[Plurality {\n						id: BodyId::Executive,\n						..\n					}],","					[Plurality {\n						part: BodyPart::Voice, ..\n					}],")]
MAIN=MAINFN('''
	type G = <XcmConfig as xcm_executor::Config>::Barrier;
	let free = |l: Location| {
		let mut m: Vec<Instruction<RuntimeCall>> = vec![UnpaidExecution { weight_limit: Unlimited, check_origin: None }];
		let mut p = Properties { weight_credit: Weight::zero(), message_id: None };
		G::should_execute(&l, &mut m, Weight::from_parts(10, 10), &mut p).is_ok()
	};
	let body = |id| Location::new(1, [Plurality { id, part: BodyPart::Voice }]);
	assert!(free(Location::parent()));
	assert!(free(body(BodyId::Executive)));
	assert!(!free(Location::new(1, [Parachain(1000)])));
	assert!(!free(body(BodyId::Technical)));
	assert!(!free(body(BodyId::Index(3))));
''')
