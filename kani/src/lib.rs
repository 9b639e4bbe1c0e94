//! Kani harnesses.  The function names start with the property they decide;
//! names ending in _t belong to the thorough tier.
pub mod src;

pub mod ops;
pub mod repr;
pub mod model;
pub mod conv;
pub mod keys;
pub mod sa;
pub mod order;
pub mod ints;

#[cfg(not(kani))]
pub fn all() -> Vec<(&'static str, fn())> {
	let mut v = vec![];
	v.extend(ops::list());
	v.extend(repr::list());
	v.extend(model::list());
	v.extend(conv::list());
	v.extend(keys::list());
	v.extend(sa::list());
	v.extend(order::list());
	v.extend(ints::list());
	v
}
