from _communities import *
PROPERTY="C10"
NEEDS="a fraction of a community that is not a whole number of percents"
BREAKS="such a fraction is rounded down to a whole percent on its way back from a location"
EDITS=[(ORI,"Fraction { nom, denom } => Some(Subset::Fraction(Permill::from_rational(nom, denom))),","Fraction { nom, denom } => Some(Subset::Fraction(Permill::from_percent(\n				(u64::from(nom) * 100 / u64::from(denom.max(1))) as u32,\n			))),")]
MAIN=MAINFN('''
	use xcm::latest::prelude::*;
	for parts in [0, 10_000, 250_000, 333_333, 1, 999_999, 1_000_000] {
		let mut o = RawOrigin::<Runtime>::new(Cid(4));
		o.with_subset(Subset::Fraction(Permill::from_parts(parts)));
		let j = Junction::try_from(o.clone()).unwrap();
		assert!(RawOrigin::<Runtime>::try_from(j) == Ok(o), "{parts}");
	}
''')
