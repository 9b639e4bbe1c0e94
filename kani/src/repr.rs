//! C09: the packed bit vector.
use crate::src::*;
use crate::{harnesses, must_panic, reach};
use annealers::repr::BinaryRepr;
use rand::{Error, RngCore};

/// A random source under the control of the harness.
pub struct Bytes(pub [u8; 8]);
impl RngCore for Bytes {
	fn next_u32(&mut self) -> u32 {
		u32::from_le_bytes([self.0[0], self.0[1], self.0[2], self.0[3]])
	}
	fn next_u64(&mut self) -> u64 {
		u64::from_le_bytes(self.0)
	}
	fn fill_bytes(&mut self, d: &mut [u8]) {
		let mut i = 0;
		for b in d.iter_mut() {
			*b = self.0[i % 8];
			i += 1;
		}
	}
	fn try_fill_bytes(&mut self, d: &mut [u8]) -> Result<(), Error> {
		self.fill_bytes(d);
		Ok(())
	}
}

fn bools<const N: usize>() -> [bool; N] {
	let mut b = [false; N];
	let mut i = 0;
	while i < N {
		b[i] = any();
		i += 1;
	}
	b
}

fn below(n: usize) -> usize {
	let i: usize = any();
	assume(i < n);
	i
}

fn reads_back<const N: usize>() {
	let b = bools::<N>();
	let r = BinaryRepr::from_vec(&b);
	assert!(r.len() == N, "length");
	assert!(r.is_empty() == (N == 0), "emptiness");
	if N > 0 {
		let i = below(N);
		assert!(r.get(i) == b[i], "get");
		assert!(r[i] == b[i], "index");
		assert!(unsafe { r.get_unchecked(i) } == b[i], "unchecked get");
	}
	let mut it = r.iter();
	let mut i = 0;
	while i < N {
		assert!(it.next() == Some(b[i]), "iterated value");
		i += 1;
	}
	assert!(it.next().is_none(), "iteration too long");
	assert!(it.next().is_none(), "iteration stays ended");
	let v = r.to_vec();
	assert!(v.len() == N, "length of the conversion");
	i = 0;
	while i < N {
		assert!(v[i] == b[i], "converted value");
		i += 1;
	}
}

/// The listing may be entered anywhere.
fn strides<const N: usize>() {
	let b = bools::<N>();
	let r = BinaryRepr::from_vec(&b);
	let (k, s) = (below(N + 2), below(N + 2));
	let at = |i: usize| if i < N { Some(b[i]) } else { None };
	let mut it = r.iter();
	let (lo, hi) = it.size_hint();
	assert!(lo <= N && hi.map(|h| h >= N).unwrap_or(true), "announced length");
	assert!(it.nth(k) == at(k), "value after skipping");
	assert!(it.next() == at(k + 1), "next value after skipping");
	assert!(it.nth(s) == at(k + 2 + s), "value after skipping again");
	reach!(at(k + 2 + s) == Some(true), "skipped twice");
	assert!(r.iter().last() == if N > 0 { at(N - 1) } else { None }, "last value");
	assert!(r.iter().count() == N, "number of values");
	let mut n = 0;
	r.iter().for_each(|x| {
		assert!(Some(x) == at(n), "visited value");
		n += 1;
	});
	assert!(n == N, "visited values");
}

fn changes<const N: usize>() {
	let mut b = bools::<N>();
	let mut r = BinaryRepr::from_vec(&b);
	// two arbitrary changes
	let mut k = 0;
	while k < 2 {
		let j = below(N);
		let op = upto(3);
		let v: bool = any();
		match op {
			0 => {
				r.set(j, v);
				b[j] = v;
			}
			1 => {
				r.flip(j);
				b[j] = !b[j];
			}
			2 => {
				unsafe { r.set_unchecked(j, v) };
				b[j] = v;
			}
			_ => {
				unsafe { r.flip_unchecked(j) };
				b[j] = !b[j];
			}
		}
		k += 1;
	}
	let i = below(N);
	assert!(r.get(i) == b[i], "value after changes");
	assert!(r.len() == N, "length after changes");
	let c = r.clone();
	r.flip(i);
	assert!(c.get(i) == b[i], "a copy is independent");
	assert!(r.get(i) != b[i], "flip");
	reach!(b[i], "a set position");
}

fn random<const N: usize>() {
	let mut g = Bytes([any(), any(), any(), any(), any(), any(), any(), any()]);
	let mut r = BinaryRepr::new_random(N, &mut g);
	assert!(r.len() == N, "requested length");
	if N > 0 {
		let (i, j) = (below(N), below(N));
		reach!(r.get(i), "a random bit set");
		reach!(!r.get(i), "a random bit clear");
		let (x, y) = (r.get(i), r.get(j));
		r.set(i, !x);
		assert!(r.get(i) != x, "set after random");
		assert!(i == j || r.get(j) == y, "others unchanged");
	}
	assert!(r.iter().count() == N, "iterated length");
}

fn outside<const N: usize>() -> (BinaryRepr, usize) {
	let b = bools::<N>();
	let r = BinaryRepr::from_vec(&b);
	let i: usize = any();
	assume(i >= N);
	(r, i)
}

/// Long vectors: a pattern with two arbitrary positions.
fn wide<const N: usize>() {
	let (fill, p, q): (bool, usize, usize) = (any(), below(N), below(N));
	let mut b = [false; N];
	let mut i = 0;
	while i < N {
		b[i] = (i % 3 == 0) == fill;
		i += 1;
	}
	b[p] = any();
	let r = BinaryRepr::from_vec(&b);
	assert!(r.len() == N, "length");
	assert!(r.get(q) == b[q], "get");
	assert!(r[q] == b[q], "index");
	assert!(unsafe { r.get_unchecked(q) } == b[q], "unchecked get");
	let v = r.to_vec();
	assert!(v.len() == N && v[q] == b[q], "converted value");
	assert!(r.iter().nth(q) == Some(b[q]), "iterated value");
}

/// Long vectors: a change leaves the other positions alone.
fn wide_change<const N: usize>() {
	let (fill, q): (bool, usize) = (any(), below(N));
	let mut b = [false; N];
	let mut i = 0;
	while i < N {
		b[i] = (i % 3 == 0) == fill;
		i += 1;
	}
	let mut r = BinaryRepr::from_vec(&b);
	let j = below(N);
	let x: bool = any();
	match upto(3) {
		0 => {
			r.set(j, x);
			b[j] = x;
		}
		1 => {
			r.flip(j);
			b[j] = !b[j];
		}
		2 => {
			unsafe { r.set_unchecked(j, x) };
			b[j] = x;
		}
		_ => {
			unsafe { r.flip_unchecked(j) };
			b[j] = !b[j];
		}
	}
	let c = r.clone();
	assert!(r.get(q) == b[q] && c.get(q) == b[q], "value after a change");
	reach!(j == q && b[q], "the changed position");
}

/// A random source which leaves the destination as it is (arbitrary bytes).
struct Rest(usize);
impl RngCore for Rest {
	fn next_u32(&mut self) -> u32 {
		any()
	}
	fn next_u64(&mut self) -> u64 {
		any()
	}
	fn fill_bytes(&mut self, d: &mut [u8]) {
		self.0 += d.len();
	}
	fn try_fill_bytes(&mut self, d: &mut [u8]) -> Result<(), Error> {
		self.fill_bytes(d);
		Ok(())
	}
}

fn any_len(max: usize) -> usize {
	let n: usize = any();
	assume(n > 0 && n <= max);
	n
}

/// Vectors of any length: an arbitrary change at an arbitrary position.
fn any_length(max: usize) {
	let n = any_len(max);
	let mut r = BinaryRepr::new_random(n, &mut Rest(0));
	assert!(r.len() == n && !r.is_empty(), "length");
	let (i, j, v) = (below(n), below(n), any());
	let before = r.get(j);
	let at = r.get(i);
	let now = match upto(3) {
		0 => {
			r.set(i, v);
			v
		}
		1 => {
			r.flip(i);
			!at
		}
		2 => {
			unsafe { r.set_unchecked(i, v) };
			v
		}
		_ => {
			unsafe { r.flip_unchecked(i) };
			!at
		}
	};
	assert!(r.get(i) == now && r[i] == now, "value after a change");
	assert!(r.get(j) == if i == j { now } else { before }, "the others stay");
	assert!(unsafe { r.get_unchecked(j) } == r.get(j), "unchecked get");
	reach!(i > max / 2 && j > max / 2 && i != j, "far positions");
}

/// Vectors of any length without content yet: two positions are written.
fn any_length_written(max: usize) {
	let n = any_len(max);
	let mut r = unsafe { BinaryRepr::with_len_unchecked(n) };
	assert!(r.len() == n, "length");
	let (i, j, v, w) = (below(n), below(n), any(), any());
	r.set(i, v);
	r.set(j, w);
	assert!(r.get(j) == w, "value last written");
	assert!(i == j || r.get(i) == v, "value written before");
	reach!(i > max / 2 && i != j && v && !w, "far positions");
}

/// Positions past the end of a vector of any length.
fn any_length_outside(max: usize, k: u8) {
	let n = any_len(max);
	let mut r = BinaryRepr::new_random(n, &mut Rest(0));
	let i: usize = any();
	assume(i >= n);
	match k {
		0 => must_panic!(r.get(i)),
		1 => must_panic!(r[i]),
		2 => {
			let v: bool = any();
			must_panic!(r.set(i, v))
		}
		_ => must_panic!(r.flip(i)),
	}
}

macro_rules! lens {
	($f:ident: $($n:literal)*) => {{ $($f::<$n>();)* }};
}
fn o<const N: usize>(k: u8) {
	let (mut r, i) = outside::<N>();
	match k {
		0 => must_panic!(r.get(i)),
		1 => must_panic!(r[i]),
		2 => {
			let v: bool = any();
			must_panic!(r.set(i, v))
		}
		_ => must_panic!(r.flip(i)),
	}
}
fn outs(k: u8) {
	// one length of several
	match upto(6) {
		0 => o::<0>(k),
		1 => o::<1>(k),
		2 => o::<7>(k),
		3 => o::<8>(k),
		4 => o::<9>(k),
		5 => o::<16>(k),
		_ => o::<17>(k),
	}
}

harnesses! {
	fn c09_reads_back(8) { lens!(reads_back: 0 1 2 3) }
	fn c09_reads_back7(12) { lens!(reads_back: 7) }
	fn c09_reads_back8(12) { lens!(reads_back: 8) }
	fn c09_reads_back9(12) { lens!(reads_back: 9) }
	fn c09_reads_back16(20) { lens!(reads_back: 16) }
	fn c09_reads_back17(20) { lens!(reads_back: 17) }
	fn c09_changes_short(12) { lens!(changes: 1 2 3) }
	fn c09_changes8(12) { lens!(changes: 7 8) }
	fn c09_changes9(12) { lens!(changes: 9) }
	fn c09_changes17(20) { lens!(changes: 17) }
	fn c09_strides9(14) { lens!(strides: 9) }
	fn c09_strides17(22) { lens!(strides: 17) }
	fn c09_strides33_t(38) { lens!(strides: 33) }
	fn c09_wide(75) { lens!(wide: 70) }
	fn c09_wide_change(135) { lens!(wide_change: 131) }
	fn c09_wide_t(135) { lens!(wide: 131) }
	fn c09_wide_change_t(265) { lens!(wide_change: 260) }
	fn c09_random(26) { lens!(random: 0 1 7 8 9 16 17) }
	fn c09_get_outside(20) { outs(0) }
	fn c09_index_outside(20) { outs(1) }
	fn c09_set_outside(20) { outs(2) }
	fn c09_flip_outside(20) { outs(3) }
	fn c09_any_length(4) { any_length(1 << 33) }
	fn c09_any_written(4) { any_length_written(1 << 33) }
	fn c09_any_outside(4) { any_length_outside(1 << 33, upto(3) as u8) }
	fn c09_reads_back5_t(10) { lens!(reads_back: 4 5 6) }
	fn c09_reads_back33_t(36) { lens!(reads_back: 33) }
	fn c09_reads_back65_t(68) { lens!(reads_back: 65) }
	fn c09_changes_t(68) { lens!(changes: 33) }
	fn c09_changes2_t(68) { lens!(changes: 64) }
	fn c09_random_t(68) { lens!(random: 24 25 32 33) }
}
