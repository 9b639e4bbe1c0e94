//! C10: coefficients of dense quadratic models; C11: their products and
//! neighbours.
use crate::src::*;
use crate::{harnesses, must_panic, reach};
use annealers::model::{FixedSingleModelView, FixedSingleQuadricModel, SingleModelView};
use annealers::node::{Binary, Spin};

fn below(n: usize) -> usize {
	let i: usize = any();
	assume(i < n);
	i
}
fn same(a: (usize, usize), b: (usize, usize)) -> bool {
	a == b || (a.1, a.0) == b
}

/// Two arbitrary additions; an arbitrary coefficient is the sum of what was
/// added for its pair.
fn storage<const N: usize>() {
	let mut m: FixedSingleQuadricModel<Binary<i32>> = FixedSingleQuadricModel::new(Binary::new(), N);
	assert!(FixedSingleModelView::size(&m) == N, "size");
	let (i, j, w) = (below(N), below(N), any::<i16>() as i32);
	let (k, l, v) = (below(N), below(N), any::<i16>() as i32);
	m.add_weight(i, j, w);
	m.add_weight(k, l, v);
	let (a, b) = (below(N), below(N));
	assume(a <= b);
	let mut want = 0;
	if same((i, j), (a, b)) {
		want += w;
	}
	if same((k, l), (a, b)) {
		want += v;
	}
	assert!(FixedSingleModelView::get_weight(&m, &[a, b]) == want, "coefficient");
	assert!(SingleModelView::get_weight(&m, &[a, b]) == want, "coefficient by the general view");
	assert!(unsafe { FixedSingleModelView::get_weight_unchecked(&m, &[a, b]) } == want, "coefficient, unchecked");
	reach!(want != 0, "a coefficient");
}
/// Floating point and spin models use the same storage.
fn storage_f<const N: usize>() {
	let mut m: FixedSingleQuadricModel<Spin<f64>> = FixedSingleQuadricModel::new(Spin::new(), N);
	let (i, j, w) = (below(N), below(N), any::<i8>() as f64);
	let (k, l, v) = (below(N), below(N), any::<i8>() as f64);
	m.add_weight(i, j, w);
	m.add_weight(k, l, v);
	let (a, b) = (below(N), below(N));
	assume(a <= b);
	let mut want = 0.0;
	if same((i, j), (a, b)) {
		want += w;
	}
	if same((k, l), (a, b)) {
		want += v;
	}
	assert!(FixedSingleModelView::get_weight(&m, &[a, b]) == want, "coefficient");
	reach!(want != 0.0, "a coefficient");
}
/// Every coefficient at once.
fn storage_all<const N: usize>() {
	let mut m: FixedSingleQuadricModel<Binary<i32>> = FixedSingleQuadricModel::new(Binary::new(), N);
	let mut w = [[0i32; 8]; 8];
	let mut i = 0;
	while i < N {
		let mut j = i;
		while j < N {
			w[i][j] = any::<i16>() as i32;
			m.add_weight(j, i, w[i][j]);
			j += 1;
		}
		i += 1;
	}
	i = 0;
	while i < N {
		let mut j = i;
		while j < N {
			assert!(FixedSingleModelView::get_weight(&m, &[i, j]) == w[i][j], "coefficient");
			j += 1;
		}
		i += 1;
	}
	reach!("end");
}

fn refuse_add<const N: usize>() {
	let mut m: FixedSingleQuadricModel<Binary<i32>> = FixedSingleQuadricModel::new(Binary::new(), N);
	let (i, j) = (any::<usize>(), any::<usize>());
	assume(i >= N || j >= N);
	must_panic!(m.add_weight(i, j, 1));
}
fn refuse_get<const N: usize>(general: bool) {
	let m: FixedSingleQuadricModel<Binary<i32>> = FixedSingleQuadricModel::new(Binary::new(), N);
	let (i, j) = (any::<usize>(), any::<usize>());
	assume(i <= j && j >= N);
	if general {
		must_panic!(SingleModelView::get_weight(&m, &[i, j]));
	} else {
		must_panic!(FixedSingleModelView::get_weight(&m, &[i, j]));
	}
}

fn products<const N: usize>() {
	let m: FixedSingleQuadricModel<Binary<i32>> = FixedSingleQuadricModel::new(Binary::new(), N);
	let (a, b) = (any::<usize>(), any::<usize>());
	assume(a <= b);
	let (mut count, mut total) = (0, 0);
	let mut it = m.prods();
	while let Some(p) = it.next() {
		assert!(p[0] <= p[1] && p[1] < N, "product of the model's variables");
		if p == [a, b] {
			count += 1;
		}
		assert!(total < N * (N + 1) / 2, "too many products");
		total += 1;
	}
	assert!(count == if b < N { 1 } else { 0 }, "each product once");
	assert!(total == N * (N + 1) / 2, "number of products");
	assert!(it.next().is_none(), "stays ended");
	let mut n = 0;
	for i in SingleModelView::nodes(&m) {
		assert!(i == n, "node");
		n += 1;
	}
	assert!(n == N && SingleModelView::size(&m) == N, "nodes");
}
fn neighbours<const N: usize>() {
	let m: FixedSingleQuadricModel<Binary<i32>> = FixedSingleQuadricModel::new(Binary::new(), N);
	let u = below(N);
	let v: usize = any();
	let (mut count, mut total) = (0, 0);
	let mut it = m.neighbors(u);
	while let Some(p) = it.next() {
		assert!(p[0] <= p[1] && p[1] < N, "product of the model's variables");
		assert!(p[0] == u || p[1] == u, "contains the variable");
		if p == [if u < v { u } else { v }, if u < v { v } else { u }] {
			count += 1;
		}
		assert!(total < N, "too many neighbours");
		total += 1;
	}
	assert!(count == if v < N { 1 } else { 0 }, "each neighbour once");
	assert!(total == N, "number of neighbours");
	assert!(it.next().is_none(), "stays ended");
}

harnesses! {
	fn c10_storage1(8) { storage::<1>() }
	fn c10_storage2(8) { storage::<2>() }
	fn c10_storage3(12) { storage::<3>() }
	fn c10_storage4(16) { storage::<4>() }
	fn c10_storage5(20) { storage::<5>() }
	fn c10_storage_spin3(12) { storage_f::<3>() }
	fn c10_storage_all3(12) { storage_all::<3>() }
	fn c10_storage_all5(20) { storage_all::<5>() }
	fn c10_add_outside0(4) { refuse_add::<0>() }
	fn c10_add_outside1(4) { refuse_add::<1>() }
	fn c10_add_outside2(6) { refuse_add::<2>() }
	fn c10_add_outside3(10) { refuse_add::<3>() }
	fn c10_get_outside0(4) { refuse_get::<0>(false) }
	fn c10_get_outside1(4) { refuse_get::<1>(false) }
	fn c10_get_outside2(6) { refuse_get::<2>(false) }
	fn c10_get_outside3(10) { refuse_get::<3>(false) }
	fn c10_view_outside2(6) { refuse_get::<2>(true) }
	fn c10_storage7_t(32) { storage::<7>() }
	fn c10_storage9_t(50) { storage::<9>() }
	fn c10_storage_all7_t(32) { storage_all::<7>() }
	fn c10_add_outside6_t(24) { refuse_add::<6>() }
	fn c10_get_outside6_t(24) { refuse_get::<6>(false) }

	fn c11_products0(24) { products::<0>() }
	fn c11_products1(24) { products::<1>() }
	fn c11_products2(24) { products::<2>() }
	fn c11_products3(24) { products::<3>() }
	fn c11_products4(24) { products::<4>() }
	fn c11_neighbours1(24) { neighbours::<1>() }
	fn c11_neighbours2(24) { neighbours::<2>() }
	fn c11_neighbours3(24) { neighbours::<3>() }
	fn c11_neighbours4(24) { neighbours::<4>() }
	fn c11_products5_t(24) { products::<5>() }
	fn c11_products6_t(26) { products::<6>() }
	fn c11_neighbours6_t(24) { neighbours::<6>() }
}
