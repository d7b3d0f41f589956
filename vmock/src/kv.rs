use parity_scale_codec::{Decode, Encode};

pub fn key(tag: &str, k: impl Encode) -> Vec<u8> {
	let mut out = b"mock:".to_vec();
	out.extend_from_slice(tag.as_bytes());
	out.push(b':');
	k.encode_to(&mut out);
	out
}
pub fn get<V: Decode>(k: &[u8]) -> Option<V> {
	sp_io::storage::get(k).map(|v| V::decode(&mut &v[..]).expect("HARNESS-BUG: stored by the mocks"))
}
pub fn put<V: Encode>(k: &[u8], v: &V) {
	sp_io::storage::set(k, &v.encode())
}
pub fn take<V: Decode>(k: &[u8]) -> Option<V> {
	let v = get(k);
	sp_io::storage::clear(k);
	v
}
