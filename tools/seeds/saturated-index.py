from _common import *
PROPERTY="A03"
NEEDS="an extrinsic index above 65535 other than those ending in all ones"
BREAKS="the index is capped instead of keeping its low 16 bits, so distinct extrinsics share an identifier"
EDITS=[("common/src/payment_id.rs","			index: idx as u16,\n","			index: idx.try_into().unwrap_or(u16::MAX),\n")]
MAIN='''
fn main() {
	for i in [0u32, 5, 65535, 65536, 65537, 0x12345678, u32::MAX] {
		let id = virto_common::PaymentId::from((7, i, &[2u8, 5][..]));
		assert_eq!(id.extrinsic_index(), i & 0xffff, "{i}");
		assert_eq!(id.block_number(), 7);
	}
}
'''
