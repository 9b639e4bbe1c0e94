//! C18: keys of products.
use crate::src::*;
use crate::{harnesses, reach};
use annealers::set::NodeSet;

/// `n` distinct nodes in any order, and the same nodes in ascending order.
fn nodes<const N: usize>() -> ([usize; N], [usize; N]) {
	let mut a = [0usize; N];
	let mut i = 0;
	while i < N {
		a[i] = any();
		let mut j = 0;
		while j < i {
			assume(a[i] != a[j]);
			j += 1;
		}
		i += 1;
	}
	let mut s = a;
	// at most three nodes
	if N > 1 && s[0] > s[1] {
		s.swap(0, 1);
	}
	if N > 2 {
		if s[1] > s[2] {
			s.swap(1, 2);
		}
		if s[0] > s[1] {
			s.swap(0, 1);
		}
	}
	(a, s)
}
/// The iterator gives exactly these nodes and ends.
fn lists<const N: usize>(mut it: impl Iterator<Item = usize>, s: &[usize; N]) {
	let mut i = 0;
	while i < N {
		assert!(it.next() == Some(s[i]), "node listed");
		i += 1;
	}
	assert!(it.next().is_none(), "nothing else is listed");
	std::mem::forget(it);
}
/// Reads of a key that do not touch sets.
fn reads<K: NodeSet, const N: usize>(k: &K, s: &[usize; N]) {
	assert!(k.len() == N, "length");
	let x: usize = any();
	let mut has = false;
	let mut i = 0;
	while i < N {
		has |= s[i] == x;
		assert!(k.contains(s[i]), "its nodes are contained");
		i += 1;
	}
	assert!(k.contains(x) == has, "membership");
	reach!(has, "contained");
	reach!(!has, "not contained");
	lists(k.iter(), s);
}
fn vectors<K: NodeSet, const N: usize>(k: &K, s: &[usize; N]) {
	let v = k.clone().into_vec();
	assert!(v.len() == N, "vector length");
	let mut i = 0;
	while i < N {
		assert!(v[i] == s[i], "vector contents");
		i += 1;
	}
	std::mem::forget(v);
}
fn key<K: NodeSet, const N: usize>(a: [usize; N]) -> K {
	match K::from_vec(a.to_vec()) {
		Some(k) => k,
		None => panic!("a product of the model was refused"),
	}
}
fn describe<K: NodeSet, const N: usize>() {
	let (a, s) = nodes::<N>();
	let k: K = key(a);
	reads(&k, &s);
	vectors(&k, &s);
	std::mem::forget(k);
}
/// Keys are equal exactly for the same nodes.
fn distinguish<K: NodeSet, const N: usize, const M: usize>() -> bool {
	let (a, s) = nodes::<N>();
	let (b, t) = nodes::<M>();
	let k: K = key(a);
	let l: K = key(b);
	let mut same = N == M;
	let mut i = 0;
	while i < N && i < M {
		same &= s[i] == t[i];
		i += 1;
	}
	assert!((k == l) == same, "equal exactly for the same product");
	reach!(!same, "different products");
	std::mem::forget(k);
	std::mem::forget(l);
	same
}
/// A key made of a set or of a sorted list equals the one made of a list.
fn agree<K: NodeSet, const N: usize>() {
	let (a, s) = nodes::<N>();
	let k: K = key(a);
	let sorted = unsafe { K::from_vec_unchecked(s.to_vec()) };
	assert!(sorted.as_ref() == Some(&k), "sorted list");
	let it = K::from_it(s.iter().copied());
	assert!(it.as_ref() == Some(&k), "sorted iterator");
	std::mem::forget((it, sorted, k));
	reach!("end");
}
fn refuse<const N: usize>() {
	let (a, s) = nodes::<N>();
	let r = <[usize; 2]>::from_vec(a.to_vec());
	assert!(r.is_none(), "a list no product can represent was accepted");
	let r = <[usize; 2]>::from_it(s.iter().copied());
	assert!(r.is_none(), "a list no product can represent was accepted");
	reach!("end");
}
// Sets of the standard library are out of reach of bounded unrolling (their
// node surgery does not fold); symx executes the keys made of sets.
harnesses! {
	fn c18_pair_1(5) { describe::<[usize; 2], 1>() }
	fn c18_pair_2(5) { describe::<[usize; 2], 2>() }
	fn c18_pair_eq_11(26) { let same = distinguish::<[usize; 2], 1, 1>(); reach!(same, "the same product") }
	fn c18_pair_eq_12(26) { let same = distinguish::<[usize; 2], 1, 2>(); let _ = same; }
	fn c18_pair_eq_22(26) { let same = distinguish::<[usize; 2], 2, 2>(); reach!(same, "the same product") }
	fn c18_pair_agree_1(26) { agree::<[usize; 2], 1>() }
	fn c18_pair_agree_2(26) { agree::<[usize; 2], 2>() }
	fn c18_pair_refuse_0(5) { refuse::<0>() }
	fn c18_pair_refuse_3(5) { refuse::<3>() }
	fn c18_pair_refuse_4_t(6) { refuse::<4>() }
	fn c18_vec_1(5) { describe::<Vec<usize>, 1>() }
	fn c18_vec_2(5) { describe::<Vec<usize>, 2>() }
	fn c18_vec_3(5) { describe::<Vec<usize>, 3>() }
	fn c18_vec_eq_12(26) { let same = distinguish::<Vec<usize>, 1, 2>(); let _ = same; }
	fn c18_vec_eq_22(26) { let same = distinguish::<Vec<usize>, 2, 2>(); reach!(same, "the same product") }
	fn c18_vec_eq_33_t(26) { let same = distinguish::<Vec<usize>, 3, 3>(); reach!(same, "the same product") }
	fn c18_vec_agree_2(26) { agree::<Vec<usize>, 2>() }
	fn c18_vec_agree_3_t(26) { agree::<Vec<usize>, 3>() }
}
