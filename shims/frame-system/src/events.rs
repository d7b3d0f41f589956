//! Events keep their types; how many there are is part of the store, so that rolled back layers
//! take their events along.
use std::any::Any;
use std::cell::RefCell;

thread_local! { static EVENTS: RefCell<Vec<Box<dyn Any>>> = const { RefCell::new(Vec::new()) }; }
const KEY: &[u8] = b":events:count";

fn count() -> usize {
	sp_io::storage::get(KEY).map_or(0, |v| u64::from_le_bytes(v.try_into().expect("eight bytes")) as usize)
}
pub fn push<E: Any>(e: E) {
	let n = count();
	EVENTS.with(|v| {
		let mut v = v.borrow_mut();
		v.truncate(n);
		v.push(Box::new(e));
		sp_io::storage::set(KEY, &(v.len() as u64).to_le_bytes());
	})
}
pub fn all<E: Any + Clone>() -> Vec<E> {
	let n = count();
	EVENTS.with(|v| v.borrow().iter().take(n).filter_map(|e| e.downcast_ref::<E>().cloned()).collect())
}
pub fn reset() {
	EVENTS.with(|v| v.borrow_mut().clear());
	sp_io::storage::clear(KEY);
}
