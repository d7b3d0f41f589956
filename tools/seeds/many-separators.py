from _common import *
PROPERTY="A02"
NEEDS="a text with a separator at its very end"
BREAKS="a text that carries a second separator at its end is taken for an identifier"
EDITS=[("common/src/payment_id.rs","		let mut input = s;\n","		let mut input = s.strip_suffix('-').unwrap_or(s);\n		let s = input;\n")]
MAIN='''
fn main() {
	for n in [u64::MAX, 0, 0x0100, 0x010000, 0xff00000000000000, 0x1234567800000000, 0x12_0000] {
		let id = virto_common::PaymentId::from(n);
		let pretty = id.encode(true);
		assert!(format!("{pretty}-").parse::<virto_common::PaymentId>().is_err());
		assert!(format!("-{pretty}").parse::<virto_common::PaymentId>().is_err());
		assert_eq!(pretty.parse::<virto_common::PaymentId>(), Ok(id));
	}
}
'''
