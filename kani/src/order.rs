//! C12: comparing the energies of two solutions.
use crate::src::*;
use crate::{harnesses, reach};
use annealers::node::{Binary, SingleNode};
use annealers::solution::SingleSolution;
use annealers::variable::Real;
use std::cmp::Ordering;

fn compares<R: Real + Prim>() {
	let (a, b): (R, R) = (any(), any());
	let new = |e: R| {
		let mut s = SingleSolution::<Binary<R>>::from_vec(&[false]);
		s.energy = Some(e);
		s
	};
	let (s, t) = (new(a), new(b));
	let o = s.compare_energy(&t);
	assert!((o == Some(Ordering::Less)) == (a < b), "less");
	assert!((o == Some(Ordering::Greater)) == (a > b), "greater");
	assert!((o == Some(Ordering::Equal)) == (a == b), "equal");
	reach!(a < b, "less");
	reach!(a == b, "equal");
	let mut u = new(a);
	u.energy = None;
	assert!(u.compare_energy(&t).is_none() && t.compare_energy(&u).is_none(), "an unknown energy");
	std::mem::forget((s, t, u));
}
harnesses! {
	fn c12_compare_i32(4) { compares::<i32>() }
	fn c12_compare_i64(4) { compares::<i64>() }
	fn c12_compare_f32(4) { compares::<f32>() }
	fn c12_compare_f64(4) { compares::<f64>() }
}
