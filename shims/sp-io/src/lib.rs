//! Stand-in for sp-io: a thread-local key-value store with nested transactions.
use std::cell::RefCell;
use std::collections::BTreeMap;

type Undo = Vec<(Vec<u8>, Option<Vec<u8>>)>;
#[derive(Default)]
struct Kv {
	map: BTreeMap<Vec<u8>, Vec<u8>>,
	layers: Vec<Undo>,
}
thread_local! { static KV: RefCell<Kv> = RefCell::new(Kv::default()); }

impl Kv {
	fn set(&mut self, k: &[u8], v: Option<Vec<u8>>) {
		let old = match v {
			Some(v) => self.map.insert(k.to_vec(), v),
			None => self.map.remove(k),
		};
		if let Some(l) = self.layers.last_mut() {
			l.push((k.to_vec(), old));
		}
	}
}

pub mod storage {
	use super::*;
	pub fn get(k: &[u8]) -> Option<Vec<u8>> {
		KV.with(|s| s.borrow().map.get(k).cloned())
	}
	pub fn exists(k: &[u8]) -> bool {
		KV.with(|s| s.borrow().map.contains_key(k))
	}
	pub fn set(k: &[u8], v: &[u8]) {
		KV.with(|s| s.borrow_mut().set(k, Some(v.to_vec())))
	}
	pub fn clear(k: &[u8]) {
		KV.with(|s| {
			let mut s = s.borrow_mut();
			if s.map.contains_key(k) {
				s.set(k, None)
			}
		})
	}
	/// All (key, value) pairs under a prefix, in key order.
	pub fn scan(prefix: &[u8]) -> Vec<(Vec<u8>, Vec<u8>)> {
		KV.with(|s| {
			s.borrow()
				.map
				.range(prefix.to_vec()..)
				.take_while(|(k, _)| k.starts_with(prefix))
				.map(|(k, v)| (k.clone(), v.clone()))
				.collect()
		})
	}
	pub fn clear_prefix(prefix: &[u8]) -> u32 {
		let ks = scan(prefix);
		let n = ks.len() as u32;
		for (k, _) in ks {
			clear(&k);
		}
		n
	}
	pub fn start_transaction() {
		KV.with(|s| s.borrow_mut().layers.push(vec![]))
	}
	pub fn rollback_transaction() {
		KV.with(|s| {
			let mut s = s.borrow_mut();
			let layer = s.layers.pop().expect("open transaction");
			for (k, old) in layer.into_iter().rev() {
				match old {
					Some(v) => {
						s.map.insert(k, v);
					}
					None => {
						s.map.remove(&k);
					}
				}
			}
		})
	}
	pub fn commit_transaction() {
		KV.with(|s| {
			let mut s = s.borrow_mut();
			let layer = s.layers.pop().expect("open transaction");
			if let Some(parent) = s.layers.last_mut() {
				parent.extend(layer);
			}
		})
	}
	pub fn layers() -> usize {
		KV.with(|s| s.borrow().layers.len())
	}
	/// Forget everything, also open transactions.
	pub fn reset() {
		KV.with(|s| *s.borrow_mut() = Kv::default())
	}
	pub fn snapshot() -> BTreeMap<Vec<u8>, Vec<u8>> {
		KV.with(|s| s.borrow().map.clone())
	}
	pub fn restore(map: BTreeMap<Vec<u8>, Vec<u8>>) {
		KV.with(|s| *s.borrow_mut() = Kv { map, layers: vec![] })
	}
}
pub mod hashing {
	pub use sp_core::hashing::*;
}

pub struct TestExternalities;
