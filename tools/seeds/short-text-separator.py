from _common import *
PROPERTY="A01"
NEEDS="an identifier whose text is shorter than ten characters, which needs a leading zero byte"
BREAKS="the separated form puts the separator in the middle of the text instead of after the fifth character"
EDITS=[("common/src/payment_id.rs",'		write!(f, "{}", &out[..5])?;\n','		let (head, tail) = out.split_at(n / 2);\n		write!(f, "{head}")?;\n'),
("common/src/payment_id.rs",'		write!(f, "{}", &out[5..])\n','		write!(f, "{tail}")\n')]
MAIN='''
fn main() {
	for n in [u64::MAX, 0, 0x0100, 0x010000, 0xff00000000000000, 0x1234567800000000, 0x12_0000] {
		let id = virto_common::PaymentId::from(n);
		let (plain, pretty) = (id.encode(false), id.encode(true));
		assert_eq!(pretty.find('-'), Some(5), "{pretty}");
		assert_eq!(pretty.replace('-', ""), plain);
		assert_eq!(u64::from(pretty.parse::<virto_common::PaymentId>().unwrap()), n);
	}
}
'''
