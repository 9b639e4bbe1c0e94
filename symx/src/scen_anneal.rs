//! Scenarios about models, solutions and the annealer: C11 (sparse), C12, C13,
//! C17, C18.
use crate::eng::*;
use crate::run::Scen;
use crate::scen;
use annealers::model::{FixedSingleQuadricModel, SingleModel, SingleModelView};
use annealers::node::{Binary, SingleNode, Spin, TwoVal};
use annealers::order::{HighOrder, Order, Quadric};
use annealers::repr::BinaryRepr;
use annealers::solution::SingleSolution;
use annealers::solver::*;
use classical_solver::algo::simulated_annealing;
use rand::{Error, RngCore};
use std::cell::Cell;
use std::rc::Rc;
use std::cmp::Ordering;
use std::collections::{BTreeMap, BTreeSet};

type Terms<R> = Vec<(Vec<usize>, R)>;

fn bits(m: usize, n: usize) -> Vec<bool> {
	(0..n).map(|i| m >> i & 1 == 1).collect()
}
fn flipped(s: &[bool], i: usize) -> Vec<bool> {
	let mut t = s.to_vec();
	t[i] = !t[i];
	t
}
/// Nodes of a key.
fn nodes_of<K: annealers::set::NodeSet>(k: &K) -> Vec<usize> {
	annealers::set::NodeSet::iter(k).take(99).collect()
}
/// The definition of the energy.
fn energy<R: Num>(t: &Terms<R>, val: &dyn Fn(bool) -> R, s: &[bool]) -> R {
	let mut e = R::int(0);
	for (p, w) in t {
		let mut x = *w;
		for i in p {
			x = x * val(s[*i]);
		}
		e = e + x;
	}
	e
}

// ------------------------------------------------------------ models

/// The products of the sparse models, with repetitions.
fn shape(k: usize) -> Vec<Vec<usize>> {
	match k {
		0 => vec![],
		1 => vec![vec![0]],
		2 => vec![vec![1, 0], vec![0], vec![0, 1]],
		3 => vec![vec![2], vec![0, 2], vec![2, 1], vec![2], vec![2, 0]],
		// gaps between the nodes
		4 => vec![vec![1, 3], vec![3], vec![3, 1]],
		5 => vec![vec![4], vec![0, 4]],
		6 => vec![vec![0, 1], vec![1, 2], vec![3, 2], vec![0, 3], vec![1, 3], vec![2]],
		7 => vec![vec![7, 3]],
		// more than two
		8 => vec![vec![0, 1, 2]],
		9 => vec![vec![2, 0, 1], vec![1, 2], vec![1], vec![0, 2, 1]],
		10 => vec![vec![3, 1, 0], vec![0, 1, 3], vec![1, 3], vec![0]],
		11 => vec![vec![0, 1, 2, 3], vec![1, 2, 3], vec![3, 0], vec![2]],
		// far nodes
		20 => vec![vec![64, 63], vec![64], vec![127, 255], vec![256, 64], vec![1000], vec![64, 256], vec![65535, 65536], vec![0, 65536]],
		21 => vec![vec![8, 0], vec![16, 8], vec![32, 16], vec![64, 32], vec![128, 64], vec![256, 128], vec![0, 256], vec![128]],
		_ => vec![vec![0, 2, 5], vec![2, 5], vec![5, 0], vec![0], vec![2, 5, 0]],
	}
}
fn sparse<R: Num, N: SingleNode<RealType = R>, O: Order>(node: N, order: O, k: usize, r: i64) -> (SingleModel<N, O>, Terms<R>, usize) {
	let mut m = SingleModel::new(node, order);
	let mut t = vec![];
	let mut n = 0;
	for (i, p) in shape(k).into_iter().enumerate() {
		let w = R::var(&format!("w{}", i), -r, r);
		let key = <O::NodeSetType as annealers::set::NodeSet>::from_vec(p.clone()).expect("a product of the model was refused");
		m.add_weight(key, w);
		n = n.max(p.iter().max().unwrap() + 1);
		t.push((p, w));
	}
	(m, t, n)
}
fn dense<R: Num, N: SingleNode<RealType = R>>(node: N, n: usize, r: i64, back: bool) -> (FixedSingleQuadricModel<N>, Terms<R>) {
	let mut m = FixedSingleQuadricModel::new(node, n);
	let mut t = vec![];
	for i in 0..n {
		for j in i..n {
			let w = R::var(&format!("w{}_{}", i, j), -r, r);
			if back {
				m.add_weight(j, i, w);
			} else {
				m.add_weight(i, j, w);
			}
			t.push((if i == j { vec![i] } else { vec![i, j] }, w));
		}
	}
	if back && n > 1 {
		// a pair added twice, in either order
		let w = R::var("again", -r, r);
		m.add_weight(0, n - 1, w);
		t.push((vec![0, n - 1], w));
	}
	(m, t)
}

// ------------------------------------------------------------ C11

fn c11_sparse<R: Num, O: Order>(order: O, k: usize) {
	let (m, t, _) = sparse::<R, _, O>(Binary::new(), order, k, 50);
	let mut want: BTreeMap<BTreeSet<usize>, R> = BTreeMap::new();
	for (p, w) in &t {
		let e = want.entry(p.iter().cloned().collect()).or_insert(R::int(0));
		*e = *e + *w;
	}
	let mut got: BTreeMap<BTreeSet<usize>, usize> = BTreeMap::new();
	for p in m.prods() {
		let s: BTreeSet<usize> = nodes_of(&p).into_iter().collect();
		check(B::k(want.contains_key(&s)), || format!("product {:?} has no weight", s));
		if let Some(w) = want.get(&s) {
			let g = m.get_weight(&p);
			check(g.eqb(*w), || format!("weight of {:?} is {} instead of {}", s, g, w));
			R::observe("weight", g);
		}
		*got.entry(s).or_insert(0) += 1;
	}
	for s in want.keys() {
		let c = got.get(s).copied().unwrap_or(0);
		check(B::k(c == 1), || format!("product {:?} is listed {} times", s, c));
	}
	let nodes: Vec<usize> = m.nodes().into_iter().collect();
	let wanted: BTreeSet<usize> = t.iter().flat_map(|(p, _)| p.iter().cloned()).collect();
	check(B::k(nodes.len() == wanted.len() && nodes.iter().cloned().collect::<BTreeSet<_>>() == wanted), || format!("nodes {:?} instead of {:?}", nodes, wanted));
	check(B::k(m.size() == wanted.len()), || "size".to_string());
	let mut all: BTreeSet<usize> = (0..9).collect();
	for i in &wanted {
		all.extend([*i, *i + 1, i.saturating_sub(1), *i % 256, *i % 65536]);
	}
	for u in all.iter().cloned() {
		let mut g: BTreeMap<BTreeSet<usize>, usize> = BTreeMap::new();
		for p in m.neighbors(u) {
			*g.entry(nodes_of(&p).into_iter().collect()).or_insert(0) += 1;
		}
		let w: BTreeMap<BTreeSet<usize>, usize> = want.keys().filter(|p| p.contains(&u)).map(|p| (p.clone(), 1)).collect();
		check(B::k(g == w), || format!("neighbours {:?} of {} instead of {:?}", g, u, w));
	}
	// what the listing adds up to
	let x: BTreeMap<usize, R> = all.iter().map(|i| (*i, R::var(&format!("x{}", i), -3, 3))).collect();
	let mut a = R::int(0);
	for p in m.prods() {
		let mut y = m.get_weight(&p);
		for i in nodes_of(&p) {
			check(B::k(x.contains_key(&i)), || format!("node {}", i));
			if let Some(v) = x.get(&i) {
				y = y * *v;
			}
		}
		a = a + y;
	}
	let mut b = R::int(0);
	for (p, w) in &t {
		let mut y = *w;
		for i in p {
			y = y * x[i];
		}
		b = b + y;
	}
	check(a.eqb(b), || format!("the products add up to {} instead of {}", a, b));
}
fn c11_quadric<R: Num>(k: usize) {
	c11_sparse::<R, Quadric>(Quadric, k)
}
fn c11_high<R: Num>(k: usize, o: usize) {
	c11_sparse::<R, HighOrder>(HighOrder::new(o), k)
}

// ------------------------------------------------------------ C10, C11, wide

/// A dense model of n variables with a coefficient of its own for every pair,
/// all of them moved by one symbolic number.
fn wide_model<R: Num>(n: usize) -> (FixedSingleQuadricModel<Binary<R>>, R, R) {
	let v = R::var("v", -1_000_000, 1_000_000);
	let u = R::var("u", 1, 1000);
	let mut m = FixedSingleQuadricModel::new(Binary::new(), n);
	for i in 0..n {
		for j in (0..n).rev() {
			if (i + j) % 3 == 0 && i != j {
				// in two parts, in either order
				if i < j {
					m.add_weight(i, j, v);
				} else {
					m.add_weight(i, j, u * R::int((j * n + i) as i64));
				}
			} else if i <= j {
				m.add_weight(i, j, v + u * R::int((i * n + j) as i64));
			}
		}
	}
	(m, v, u)
}
fn wide_coef<R: Num>(n: usize, v: R, u: R, i: usize, j: usize) -> R {
	v + u * R::int((i.min(j) * n + i.max(j)) as i64)
}
fn c10_wide<R: Num>(n: usize) {
	use annealers::model::FixedSingleModelView;
	let (m, v, u) = wide_model::<R>(n);
	check(B::k(FixedSingleModelView::size(&m) == n && SingleModelView::size(&m) == n), || "size".to_string());
	for i in 0..n {
		for j in i..n {
			let w = wide_coef(n, v, u, i, j);
			let g = FixedSingleModelView::get_weight(&m, &[i, j]);
			check(g.eqb(w), || format!("coefficient of {},{} of {} is {} instead of {}", i, j, n, g, w));
			let g = SingleModelView::get_weight(&m, &[i, j]);
			check(g.eqb(w), || format!("coefficient of {},{} of {} is {} instead of {} by the general view", i, j, n, g, w));
		}
	}
	cover("read");
}
fn c11_wide<R: Num>(n: usize) {
	let (m, v, u) = wide_model::<R>(n);
	let mut seen = vec![0u32; n * n];
	let mut count = 0;
	for p in m.prods() {
		let p = nodes_of(&p);
		let (i, j) = (p[0], p[p.len() - 1]);
		check(B::k(i <= j && j < n && p.len() <= 2), || format!("product {:?} of {}", p, n));
		if i <= j && j < n {
			seen[i * n + j] += 1;
		}
		count += 1;
		if count > n * n + n {
			break;
		}
	}
	for i in 0..n {
		for j in 0..n {
			let c = seen[i * n + j];
			check(B::k(c == (i <= j) as u32), || format!("product {},{} of {} is listed {} times", i, j, n, c));
		}
	}
	let nodes: Vec<usize> = m.nodes().into_iter().take(n + 3).collect();
	check(B::k(nodes.len() == n && nodes.iter().cloned().collect::<BTreeSet<_>>() == (0..n).collect()), || format!("nodes {:?}", nodes));
	for a in 0..n {
		let mut got: Vec<Vec<usize>> = m.neighbors(a).take(n + 3).map(|p| nodes_of(&p)).collect();
		got.sort();
		let mut want: Vec<Vec<usize>> = (0..n).map(|b| if a == b { vec![a] } else { vec![a.min(b), a.max(b)] }).collect();
		want.sort();
		check(B::k(got == want), || format!("neighbours {:?} of {} out of {}", got, a, n));
	}
	// the weights found along the listing
	let mut s = R::int(0);
	let mut k = 0i64;
	let mut c = 0i64;
	for p in m.prods().take(n * n + n) {
		s = s + m.get_weight(&p);
		let p = nodes_of(&p);
		k += (p[0] * n + p[p.len() - 1]) as i64;
		c += 1;
	}
	check(s.eqb(v * R::int(c) + u * R::int(k)), || "sum of the coefficients".to_string());
	cover("listed");
}

/// The listings of a very large model, one pair of which has a weight.
fn c11_long<R: Num>(n: usize) {
	let mut m = FixedSingleQuadricModel::new(Binary::<R>::new(), n);
	let (a, b) = ([0, n / 2, n - 2][choose(3)], n - 1);
	let v = R::var("v", 1, 1000);
	m.add_weight(b, a, v);
	check(B::k(SingleModelView::size(&m) == n && m.nodes().into_iter().count() == n), || "size".to_string());
	let mut seen = vec![0u8; n * n];
	let mut sum = R::int(0);
	let mut count = 0usize;
	for p in m.prods().take(n * n + n) {
		let (i, j) = (p[0], p[1]);
		check(B::k(i <= j && j < n), || format!("product {:?} of {}", p, n));
		seen[i * n + j] += 1;
		count += 1;
		if (i, j) == (a, b) {
			sum += SingleModelView::get_weight(&m, &p);
		}
	}
	check(B::k(count == n * (n + 1) / 2), || format!("{} products of {}", count, n));
	check(B::k((0..n).all(|i| (i..n).all(|j| seen[i * n + j] == 1))), || "a product is missing".to_string());
	check(sum.eqb(v), || format!("weight {} instead of {}", sum, v));
	for x in [0, a, b, n / 3] {
		let mut got: Vec<Vec<usize>> = m.neighbors(x).take(n + 3).map(|p| nodes_of(&p)).collect();
		got.sort();
		let mut want: Vec<Vec<usize>> = (0..n).map(|y| if x == y { vec![x] } else { vec![x.min(y), x.max(y)] }).collect();
		want.sort();
		check(B::k(got == want), || format!("{} neighbours of {} out of {}", got.len(), x, n));
	}
	cover("listed");
}

// ------------------------------------------------------------ C12

fn c12<R: Num, P: SingleModelView>(m: &P, t: &Terms<R>, val: &dyn Fn(bool) -> R, n: usize, extra: usize)
where
	P::Node: SingleNode<RealType = R>,
{
	let len = n + extra;
	let s = bits(choose(1 << len), len);
	let e = energy(t, val, &s);
	R::observe("energy", e);
	let how = choose(3);
	let new = || {
		let sol = SingleSolution::<P::Node>::from_vec(&s);
		check(B::k(sol.energy.is_none() && sol.local_field.is_none()), || "a new solution knows its energy".to_string());
		sol
	};
	let sol = match how {
		0 => new().with_energy(m).with_local_field(m),
		1 => new().with_local_field(m).with_energy(m),
		_ => {
			// asking without storing
			let sol = new();
			let a = sol.calculate_energy(m);
			check(a.eqb(e), || format!("energy {} instead of {} at {:?}", a, e, s));
			let f = sol.clone().calculate_local_field(m);
			check(B::k(f.len() == len), || "length of the local field".to_string());
			check(B::k(sol.energy.is_none() && sol.local_field.is_none()), || "asking changed the solution".to_string());
			let sol = sol.with_energy(m).with_energy(m);
			sol.with_local_field(m).with_local_field(m)
		}
	};
	let a = sol.energy.expect("energy");
	check(a.eqb(e), || format!("energy {} instead of {} at {:?}", a, e, s));
	let a = sol.calculate_energy(m);
	check(a.eqb(e), || format!("energy {} instead of {} when asked again", a, e));
	let f = sol.local_field.clone().expect("local field");
	check(B::k(f.len() == len), || "length of the local field".to_string());
	for i in 0..len.min(f.len()) {
		let d = energy(t, val, &flipped(&s, i)) - e;
		R::observe("field", f[i]);
		check(f[i].eqb(d), || format!("local field {} of variable {} instead of {} at {:?}", f[i], i, d, s));
	}
	let f2 = sol.clone().calculate_local_field(m);
	for i in 0..len.min(f2.len()) {
		check(f2[i].eqb(f[i]), || "local field asked again".to_string());
	}
	check(B::k(sol.len() == len && sol.state.len() == len), || "length".to_string());
	for i in 0..len {
		check(B::k(sol.get(i) == s[i] && sol[i] == s[i] && sol.state.get(i) == s[i]), || "the state was changed".to_string());
	}
	check(B::k(sol.occurrences == 1), || "occurrences".to_string());
}
/// Orders of the energies of two solutions.
fn c12_compare<R: Num>(n: usize) {
	let (m, t) = dense::<R, _>(Binary::<R>::new(), n, 50, false);
	let val = |b: bool| R::int(b as i64);
	let (s, u) = (bits(choose(1 << n), n), bits(choose(1 << n), n));
	let new = |s: &[bool]| SingleSolution::<Binary<R>>::from_vec(s);
	let (a, b) = (new(&s).with_energy(&m), new(&u).with_energy(&m));
	let (x, y) = (energy(&t, &val, &s), energy(&t, &val, &u));
	match a.compare_energy(&b) {
		Some(Ordering::Less) => {
			cover("less");
			check(x.ltb(y), || format!("{} less than {}", x, y))
		}
		Some(Ordering::Greater) => {
			cover("greater");
			check(y.ltb(x), || format!("{} greater than {}", x, y))
		}
		Some(Ordering::Equal) => {
			cover("equal");
			check(x.eqb(y), || format!("{} equal to {}", x, y))
		}
		None => check(B::k(false), || "energies do not compare".to_string()),
	}
	check(B::k(new(&s).compare_energy(&b).is_none() && a.compare_energy(&new(&u)).is_none()), || "an unknown energy compares".to_string());
}
fn c12_dense<R: Num>(n: usize, kind: usize, back: bool) {
	let r = if R::INT { 50 } else { 9 };
	match kind {
		0 => {
			let (m, t) = dense(Binary::<R>::new(), n, r, back);
			c12(&m, &t, &|b| R::int(b as i64), n, 0)
		}
		1 => {
			let (m, t) = dense(Spin::<R>::new(), n, r, back);
			c12(&m, &t, &|b| R::int(if b { 1 } else { -1 }), n, 0)
		}
		_ => {
			let (hi, lo) = (R::var("hi", -9, 9), R::var("lo", -9, 9));
			let (m, t) = dense(TwoVal::new(hi, lo), n, r, back);
			c12(&m, &t, &|b| if b { hi } else { lo }, n, 0)
		}
	}
}
fn c12_sparse<R: Num, O: Order>(order: O, k: usize, kind: usize) {
	let r = if R::INT { 50 } else { 9 };
	let extra = if k % 3 == 0 { 1 } else { 0 };
	match kind {
		0 => {
			let (m, t, n) = sparse(Binary::<R>::new(), order, k, r);
			c12(&m, &t, &|b| R::int(b as i64), n, extra)
		}
		1 => {
			let (m, t, n) = sparse(Spin::<R>::new(), order, k, r);
			c12(&m, &t, &|b| R::int(if b { 1 } else { -1 }), n, extra)
		}
		_ => {
			let (hi, lo) = (R::var("hi", -5, 5), R::var("lo", -5, 5));
			let (m, t, n) = sparse(TwoVal::new(hi, lo), order, k, r);
			c12(&m, &t, &|b| if b { hi } else { lo }, n, extra)
		}
	}
}
fn c12_quadric<R: Num>(k: usize, kind: usize) {
	c12_sparse::<R, Quadric>(Quadric, k, kind)
}
fn c12_high<R: Num>(k: usize, kind: usize, o: usize) {
	c12_sparse::<R, HighOrder>(HighOrder::new(o), k, kind)
}

/// Many variables, of which three have symbolic weights; every other pair
/// has a constant of its own.
fn c12_wide<R: Num, N: SingleNode<RealType = R>>(node: N, val: &dyn Fn(bool) -> R, n: usize, picks: &[usize]) {
	let mut m = FixedSingleQuadricModel::new(node, n);
	let a = picks[choose(picks.len())] % n;
	let b = (a + 1 + choose(4) * (n / 4)) % n;
	let mut t: Terms<R> = vec![];
	for (k, (i, j)) in [(a, a), (a, b), (b, b)].into_iter().enumerate() {
		let w = R::var(&format!("w{}", k), -50, 50);
		m.add_weight(j, i, w);
		t.push((if i == j { vec![i] } else { vec![i, j] }, w));
	}
	for i in 0..n {
		let j = (i * 7 + 3) % n;
		let w = R::int((i % 11) as i64 - 5);
		m.add_weight(i, j, w);
		t.push((if i == j { vec![i] } else { vec![i, j] }, w));
	}
	let pat = choose(4);
	let s: Vec<bool> = (0..n)
		.map(|i| match pat {
			0 => true,
			1 => i % 2 == 0,
			2 => i * i % 7 < 3,
			_ => i == a || i == b || i % 5 == 1,
		})
		.collect();
	let e = energy(&t, val, &s);
	R::observe("energy", e);
	let sol = SingleSolution::<N>::from_vec(&s);
	let sol = if pat < 2 { sol.with_energy(&m).with_local_field(&m) } else { sol.with_local_field(&m).with_energy(&m) };
	let g = sol.energy.expect("energy");
	check(g.eqb(e), || format!("energy {} instead of {}", g, e));
	let f = sol.local_field.clone().expect("local field");
	check(B::k(f.len() == n && sol.len() == n), || "length".to_string());
	for i in 0..n.min(f.len()) {
		let d = energy(&t, val, &flipped(&s, i)) - e;
		check(f[i].eqb(d), || format!("local field {} of variable {} instead of {}", f[i], i, d));
		check(B::k(sol[i] == s[i] && sol.get(i) == s[i]), || "the state was changed".to_string());
	}
	cover("wide");
}
fn c12_wide_k<R: Num>(n: usize, kind: usize) {
	let picks: &[usize] = if n > 200 { &[255, 256, n - 1] } else { &[0, 7, 8, 31, 32, 33, 63, 64, n - 1, n / 2] };
	match kind {
		0 => c12_wide(Binary::<R>::new(), &|b| R::int(b as i64), n, picks),
		1 => c12_wide(Spin::<R>::new(), &|b| R::int(if b { 1 } else { -1 }), n, picks),
		_ => {
			let (hi, lo) = (R::int(3), R::int(-2));
			c12_wide(TwoVal::new(hi, lo), &|b| if b { hi } else { lo }, n, picks)
		}
	}
}

// ------------------------------------------------------------ C13

struct Fix(u64);
impl RngCore for Fix {
	fn next_u32(&mut self) -> u32 {
		(self.0 >> 32) as u32
	}
	fn next_u64(&mut self) -> u64 {
		self.0
	}
	fn fill_bytes(&mut self, d: &mut [u8]) {
		for b in d.iter_mut() {
			*b = (self.0 >> 56) as u8;
		}
	}
	fn try_fill_bytes(&mut self, d: &mut [u8]) -> Result<(), Error> {
		self.fill_bytes(d);
		Ok(())
	}
}
#[derive(Clone, Copy)]
struct Cold {
	n: usize,
	/// sparse shape, or dense
	sparse: Option<usize>,
	sweeps: usize,
	/// steps of the schedule; the first one infinitely hot?
	steps: usize,
	hot: bool,
	/// no move is free: the end has to be a local minimum
	local: bool,
}
fn c13<R: Num>(c: Cold) {
	set_mode(Mode::Sign);
	let val = |b: bool| R::int(b as i64);
	let go = |s: &[bool], run: &dyn Fn(&mut Fix, &mut BinaryRepr, &[R]), t: &Terms<R>| {
		let n = c.n;
		if c.local {
			for k in 0..1usize << n {
				let u = bits(k, n);
				for i in 0..n {
					if !u[i] {
						assume(energy(t, &val, &flipped(&u, i)).eqb(energy(t, &val, &u)).not());
					}
				}
			}
		}
		let mut st = BinaryRepr::from_vec(s);
		let cold = if is_tiny() { R::int(1 << 30) * R::int(1 << 30) } else { R::int(1_000_000) };
		let mut betas = vec![cold; c.steps];
		if c.hot {
			betas.insert(0, R::int(0));
		}
		let word = [0, u64::MAX][choose(2)];
		run(&mut Fix(word), &mut st, &betas);
		check(B::k(st.len() == n), || "length of the state".to_string());
		let end: Vec<bool> = (0..n).map(|i| st.get(i)).collect();
		// an infinitely hot sweep flips everything
		let from: Vec<bool> = if c.hot && c.sweeps % 2 == 1 { s.iter().map(|b| !b).collect() } else { s.to_vec() };
		let (a, b) = (energy(t, &val, &from), energy(t, &val, &end));
		R::observe("end", b);
		check(b.leb(a), || format!("the energy went up from {} at {:?} to {} at {:?}", a, from, b, end));
		if end != from {
			cover("moved");
		} else {
			cover("stayed");
		}
		if c.local {
			for i in 0..n {
				let e = energy(t, &val, &flipped(&end, i));
				check(b.leb(e), || format!("{:?} with energy {} is no local minimum: {} after flipping {}", end, b, e, i));
			}
		}
	};
	let s = bits(choose(1 << c.n), c.n);
	match c.sparse {
		None => {
			let (m, t) = dense(Binary::<R>::new(), c.n, 4_000_000, false);
			go(&s, &|r, st, b| simulated_annealing(r, st, b, c.sweeps, &m), &t)
		}
		Some(k) => {
			let (m, t, n) = sparse(Binary::<R>::new(), Quadric, k, 4_000_000);
			assert!(n == c.n);
			go(&s, &|r, st, b| simulated_annealing(r, st, b, c.sweeps, &m), &t)
		}
	}
}

/// Many variables; two of them, anywhere, have symbolic weights and interact,
/// the others are independent and prefer to be off.
fn c13_wide<R: Num>(n: usize, firsts: &[usize]) {
	set_mode(Mode::Sign);
	let a = firsts[choose(firsts.len())] % n;
	let b = if n <= 200 {
		(a + 1 + choose(n - 1)) % n
	} else {
		// some of the others
		let far = [0, 1, 127, 128, 129, 255, 256, 257, n / 2, n - 2, n - 1];
		let far: Vec<usize> = far.iter().cloned().filter(|x| *x != a).collect();
		far[choose(far.len())]
	};
	let r = 4_000_000;
	let (wa, wb, wab) = (R::var("wa", -r, r), R::var("wb", -r, r), R::var("wab", -r, r));
	let z = R::int(0);
	for x in [wa, wb, wa + wab, wb + wab] {
		// no move is free
		assume(x.eqb(z).not());
	}
	let mut m = FixedSingleQuadricModel::new(Binary::<R>::new(), n);
	m.add_weight(a, a, wa);
	m.add_weight(b, b, wb);
	m.add_weight(a, b, wab);
	for i in 0..n {
		if i != a && i != b {
			m.add_weight(i, i, R::int(1 + (i % 5) as i64));
		}
	}
	let from = choose(4);
	let s: Vec<bool> = (0..n).map(|i| if i == a { from & 1 == 1 } else if i == b { from & 2 == 2 } else { (i * 5) % 3 == 0 }).collect();
	let mut st = BinaryRepr::from_vec(&s);
	simulated_annealing(&mut Fix(u64::MAX), &mut st, &[R::int(1_000_000)], 4, &m);
	let e = |x: bool, y: bool| (if x { wa } else { z }) + (if y { wb } else { z }) + (if x && y { wab } else { z });
	let (x, y) = (st.get(a), st.get(b));
	R::observe("end", e(x, y));
	check(e(x, y).leb(e(s[a], s[b])), || format!("variables {} and {} out of {}: the energy went up from {} to {}", a, b, n, e(s[a], s[b]), e(x, y)));
	check(e(x, y).leb(e(!x, y)).and(e(x, y).leb(e(x, !y))), || format!("variables {} and {} out of {}: {} is no local minimum", a, b, n, e(x, y)));
	for i in 0..n {
		if i != a && i != b {
			check(B::k(!st.get(i)), || format!("variable {} out of {} is left on", i, n));
		}
	}
	cover(if (x, y) != (s[a], s[b]) { "moved" } else { "stayed" });
}

// ------------------------------------------------------------ C14

/// Draws, with the costs (times the inverse temperature) up to which they are
/// surely taken and from which on they are surely not.
const DRAWS: [(u64, (i64, i64), (i64, i64)); 3] = [
	// 1/2
	(1 << 63, (69, 100), (70, 100)),
	// exp(-3)
	(918_419_504_311_013_376, (299, 100), (301, 100)),
	// as close to 1 as it gets
	(u64::MAX, (0, 1), (1, 1_000_000)),
];
/// Two interacting variables with symbolic weights among many others that are
/// sure to be off; every move is decided with the Metropolis probability.
/// `betas` are in halves.
fn c14_pair<R: Num>(n: usize, pairs: &[(usize, usize)], betas: &[i64], sweeps: usize, draws: usize) {
	let (a, b) = pairs[choose(pairs.len())];
	let (word, lo, hi) = DRAWS[choose(draws)];
	let mut anchors = vec![];
	for c in betas {
		anchors.extend([(lo.0 * 2, lo.1 * c), (hi.0 * 2, hi.1 * c)]);
	}
	set_mode(Mode::Class);
	order_anchors_q(&anchors);
	let r = 4_000_000;
	let (wa, wb, wab) = (R::var("wa", -r, r), if a == b { R::int(0) } else { R::var("wb", -r, r) }, if a == b { R::int(0) } else { R::var("wab", -r, r) });
	let mut m = FixedSingleQuadricModel::new(Binary::<R>::new(), n);
	m.add_weight(a, a, wa);
	if a != b {
		m.add_weight(b, b, wb);
		m.add_weight(a, b, wab);
	}
	for i in 0..n {
		if i != a && i != b {
			m.add_weight(i, i, R::int(100 + (i % 5) as i64));
		}
	}
	let from = choose(if a == b { 2 } else { 4 });
	let s: Vec<bool> = (0..n).map(|i| if i == a { from & 1 == 1 } else if i == b { from & 2 == 2 } else { (i * 5) % 3 == 0 }).collect();
	let mut st = BinaryRepr::from_vec(&s);
	let schedule: Vec<R> = betas.iter().map(|c| R::frac(*c, 2)).collect();
	simulated_annealing(&mut Fix(word), &mut st, &schedule, sweeps, &m);
	let end = (st.get(a), st.get(b));
	let z = R::int(0);
	let mut fits = vec![];
	for ab in [true, false] {
		let mut cur = (s[a], s[b]);
		for c in betas {
			let (l, h) = (R::frac(lo.0 * 2, lo.1 * c), R::frac(hi.0 * 2, hi.1 * c));
			for _ in 0..sweeps {
				for first in [true, false] {
					let up;
					let at_a = ab == first;
					if at_a {
						up = if cur.1 { wa + wab } else { wa };
					} else if a == b {
						continue;
					} else {
						up = if cur.0 { wb + wab } else { wb };
					}
					let cost = if if at_a { cur.0 } else { cur.1 } { z - up } else { up };
					// costs on the edge are not judged
					let yes = cost <= l;
					if !yes && cost <= h {
						cover("on the edge");
						return;
					}
					if yes && at_a {
						cur.0 = !cur.0;
						if a == b {
							cur.1 = cur.0;
						}
					} else if yes {
						cur.1 = !cur.1;
					}
				}
			}
		}
		fits.push(cur);
	}
	check(B::k(fits.contains(&end)), || format!("variables {} and {} out of {}, draws of {}: from {:?} to {:?}, not {:?}", a, b, n, word as f64 / 1.8446744073709552e19, (s[a], s[b]), end, fits));
	check(B::k((0..n).all(|i| i == a || i == b || !st.get(i))), || "a variable was left on".to_string());
	cover(if end == (s[a], s[b]) { "stayed" } else { "moved" });
}

/// Words in a row, then another one for ever.
struct Script {
	words: Vec<u64>,
	rest: u64,
	pos: usize,
}
impl RngCore for Script {
	fn next_u32(&mut self) -> u32 {
		(self.next_u64() >> 32) as u32
	}
	fn next_u64(&mut self) -> u64 {
		self.pos += 1;
		self.words.get(self.pos - 1).copied().unwrap_or(self.rest)
	}
	fn fill_bytes(&mut self, d: &mut [u8]) {
		for b in d.iter_mut() {
			*b = (self.next_u64() >> 56) as u8;
		}
	}
	fn try_fill_bytes(&mut self, d: &mut [u8]) -> Result<(), Error> {
		self.fill_bytes(d);
		Ok(())
	}
}
/// Every move is decided with a draw of its own: of variables that do not
/// interact, with uphill moves to be decided by chance, no more move (stay)
/// than there are draws which tell so. `beta` is in halves.
fn c14_own<R: Num>(n: usize, beta: i64) {
	let (low, _, (hn, hd)) = (DRAWS[1].0, DRAWS[1].1, DRAWS[1].1);
	let (high, (ln, ld)) = (DRAWS[2].0, DRAWS[2].2);
	set_mode(Mode::Class);
	let (lo, hi) = (R::frac(ln * 2, ld * beta), R::frac(hn * 2, hd * beta));
	order_anchors_q(&[(-ln * 2, ld * beta), (-hn * 2, hd * beta), (ln * 2, ld * beta), (hn * 2, hd * beta)]);
	let mut m = FixedSingleQuadricModel::new(Binary::<R>::new(), n);
	let on = choose(2) == 1;
	let mut s = vec![];
	for i in 0..n {
		let c = R::var(&format!("c{}", i), 0, 1000);
		assume(lo.leb(c));
		assume(c.leb(hi));
		s.push(on && i % 2 == 0);
		m.add_weight(i, i, if s[i] { R::int(0) - c } else { c });
	}
	// the few and where they are among the many
	let (few, many) = if choose(2) == 1 { (low, high) } else { (high, low) };
	let k = 1 + choose((n - 1).min(2));
	let at = choose(n - k + 1);
	let words: Vec<u64> = (0..at + k).map(|i| if i < at { many } else { few }).collect();
	let mut st = BinaryRepr::from_vec(&s);
	simulated_annealing(&mut Script { words: words.clone(), rest: many, pos: 0 }, &mut st, &[R::frac(beta, 2)], 1, &m);
	let moved = (0..n).filter(|i| st.get(*i) != s[*i]).count();
	let like_few = if few == low { moved } else { n - moved };
	check(B::k(like_few <= k), || format!("{} of {} variables {} although only {} draws tell so", like_few, n, if few == low { "moved" } else { "stayed" }, k));
	cover(if like_few > 0 { "the few" } else { "none" });
}
/// The same over time: after draws against it a move is taken with the first
/// draw for it (and is followed by one that locks it).
fn c14_late<R: Num>(high: usize, betas: &[i64], sweeps: usize) {
	let (low, (hn, hd)) = (DRAWS[1].0, DRAWS[1].1);
	let (word, (ln, ld)) = (DRAWS[2].0, DRAWS[2].2);
	set_mode(Mode::Class);
	let mut anchors = vec![];
	let c = R::var("c", 0, 1000);
	for b in betas {
		anchors.extend([(ln * 2, ld * b), (hn * 2, hd * b)]);
		assume(R::frac(ln * 2, ld * b).leb(c));
		assume(c.leb(R::frac(hn * 2, hd * b)));
	}
	order_anchors_q(&anchors);
	let far = R::var("far", 1_000_000, 2_000_000);
	let (a, b) = if choose(2) == 1 { (0, 1) } else { (1, 0) };
	let mut m = FixedSingleQuadricModel::new(Binary::<R>::new(), 2);
	m.add_weight(a, a, c);
	m.add_weight(b, b, far);
	m.add_weight(0, 1, R::int(0) - far - far);
	let mut st = BinaryRepr::from_vec(&[false, false]);
	let schedule: Vec<R> = betas.iter().map(|c| R::frac(*c, 2)).collect();
	simulated_annealing(&mut Script { words: vec![word; high], rest: low, pos: 0 }, &mut st, &schedule, sweeps, &m);
	check(B::k(st.get(0) && st.get(1)), || format!("ended in {:?} although the draws after the first {} are for the move", (st.get(0), st.get(1)), high));
	cover("moved");
}

// ------------------------------------------------------------ C15

/// The schedule of an annealer.
fn schedule_of<R: Num>(t: classical_solver::beta::BetaType<R>, m: &FixedSingleQuadricModel<Binary<R>>) -> Vec<f64> {
	let mut g = classical_solver::sa::SimulatedAnnealerGenerator::<FixedSingleQuadricModel<Binary<R>>>::new();
	g.beta = t;
	let a = g.generate(m).ok().expect("generating an annealer failed");
	a.beta_schedule().iter().map(|x| *x as f64).collect()
}
fn positive(v: &[f64], n: usize) -> bool {
	check(B::k(v.len() == n), || format!("{} steps instead of {}", v.len(), n));
	let bad = v.iter().position(|x| !x.is_finite() || *x <= 0.0);
	check(B::k(bad.is_none()), || format!("step {} is {}", bad.unwrap(), v[bad.unwrap()]));
	v.len() == n && bad.is_none()
}
/// Schedules of any number of steps between two bounds.
fn c15_range<R: Num>(counts: &[usize], small: bool) {
	set_mode(Mode::Class);
	let n = counts[choose(counts.len())];
	order_anchors_q(if small { &[(1, 1000), (1, 50), (1, 2), (1, 1)] } else { &[(1, 1), (2, 1), (10, 1), (5000, 1)] });
	let lo = R::var("first", 0, 1_000_000);
	let hi = R::var("last", 0, 1_000_000);
	for x in [lo, hi] {
		assume(if small { R::frac(1, 5000).leb(x) } else { R::int(1).leb(x) });
	}
	let m = FixedSingleQuadricModel::new(Binary::<R>::new(), choose(2));
	let v = schedule_of(classical_solver::beta::BetaType::CountRange(n, lo, hi), &m);
	let (a, b) = (lo.as_f64(), hi.as_f64());
	note(|| format!("{} steps from {} to {}", n, a, b));
	if !positive(&v, n) || n == 0 {
		return;
	}
	let close = |x: f64, y: f64| (x - y).abs() <= y * 1e-6;
	check(B::k(close(v[0], a)), || format!("starts at {} instead of {}", v[0], a));
	if n > 1 {
		check(B::k(close(v[n - 1], b)), || format!("ends at {} instead of {}", v[n - 1], b));
	}
	let back = v.windows(2).position(|w| if a <= b { w[1] < w[0] * (1.0 - 1e-9) } else { w[1] > w[0] * (1.0 + 1e-9) });
	check(B::k(back.is_none()), || format!("step {} goes from {} to {}", back.unwrap(), v[back.unwrap()], v[back.unwrap() + 1]));
	cover(if a < b { "cooling" } else { "heating or the same" });
}
/// Schedules of which only the number of steps is given, for a model of any
/// weights.
fn c15_count<R: Num>(counts: &[usize], size: usize) {
	set_mode(Mode::Class);
	order_anchors_q(&[(1, 1000), (1, 1), (1000, 1), (1_000_000, 1)]);
	let n = counts[choose(counts.len())];
	let mut m = FixedSingleQuadricModel::new(Binary::<R>::new(), size);
	let r = 1_000_000;
	if size > 0 {
		let w = R::var("w", -r, r);
		m.add_weight(size - 1, size - 1, w);
	}
	if size > 1 {
		let w = R::var("q", -r, r);
		m.add_weight(0, size - 1, w);
	}
	let v = schedule_of(classical_solver::beta::BetaType::Count(n), &m);
	note(|| format!("{} steps, {} variables", n, size));
	if positive(&v, n) {
		cover("a schedule");
		let back = v.windows(2).position(|w| w[1] < w[0] * (1.0 - 1e-9));
		check(B::k(back.is_none()), || format!("step {} gets hotter", back.unwrap()));
	}
}
/// A manual schedule is used as it is.
fn c15_manual<R: Num>(lens: &[usize]) {
	set_mode(Mode::Class);
	order_anchors_q(&[(1, 1000), (1, 1), (1000, 1)]);
	let n = lens[choose(lens.len())];
	let v: Vec<R> = (0..n).map(|i| if i < 2 || i + 1 == n { R::var(&format!("b{}", i), 0, 1_000_000) } else { R::int((i as i64 * 37) % 101) }).collect();
	let m = FixedSingleQuadricModel::new(Binary::<R>::new(), 1);
	let s = schedule_of(classical_solver::beta::BetaType::Schedule(v.clone()), &m);
	let want: Vec<f64> = v.iter().map(|x| x.as_f64()).collect();
	let bad = (0..n.max(s.len())).find(|i| s.get(*i) != want.get(*i));
	check(B::k(bad.is_none()), || format!("step {} is {:?} instead of {:?}", bad.unwrap(), s.get(bad.unwrap()), want.get(bad.unwrap())));
	cover("used");
}

// ------------------------------------------------------------ C20

/// A stream of words that repeats itself; counts what was taken.
struct Tape {
	words: Vec<u64>,
	pos: usize,
	fills: usize,
}
impl RngCore for Tape {
	fn next_u32(&mut self) -> u32 {
		(self.next_u64() >> 32) as u32
	}
	fn next_u64(&mut self) -> u64 {
		self.pos += 1;
		if self.pos > 200_000 {
			panic!("annealing does not end");
		}
		self.words[(self.pos - 1) % self.words.len()]
	}
	fn fill_bytes(&mut self, d: &mut [u8]) {
		self.fills += 1;
		if self.fills > 10_000 {
			panic!("annealing does not end");
		}
		for b in d.iter_mut() {
			*b = (self.next_u64() >> 56) as u8;
		}
	}
	fn try_fill_bytes(&mut self, d: &mut [u8]) -> Result<(), Error> {
		self.fill_bytes(d);
		Ok(())
	}
}
/// The annealer as it is used by the solver: on any weights it ends, gives one
/// state of the right size, and gives it again on the same draws, whatever
/// other sources of chance there are.
fn c20<R: Num>(n: usize, sparse_k: Option<usize>, betas: &[i64], sweeps: usize, tapes: &[&[u64]]) {
	set_mode(Mode::Sign);
	let tape = tapes[choose(tapes.len())].to_vec();
	let r = 4_000_000;
	let mut m = FixedSingleQuadricModel::new(Binary::<R>::new(), n);
	let mut sm = SingleModel::new(Binary::<R>::new(), Quadric);
	let mut t: Terms<R> = vec![];
	if let Some(k) = sparse_k {
		let (a, b, _) = sparse::<R, _, _>(Binary::<R>::new(), Quadric, k, r);
		sm = a;
		t = b;
	} else if n <= 3 {
		let (a, b) = dense(Binary::<R>::new(), n, r, false);
		m = a;
		t = b;
	} else {
		let (i, j) = (n / 3, n - 1);
		for (x, y) in [(i, i), (i, j), (j, j)] {
			let w = R::var(&format!("w{}_{}", x, y), -r, r);
			m.add_weight(x, y, w);
			t.push((if x == y { vec![x] } else { vec![x, y] }, w));
		}
	}
	let run = |seed: u64| -> (Vec<Vec<bool>>, usize) {
		HASHSEED.with(|h| h.set(seed));
		let mut rng = Tape { words: tape.clone(), pos: 0, fills: 0 };
		let schedule: Vec<R> = betas.iter().map(|b| R::int(*b)).collect();
		let sols: Vec<Vec<bool>> = if sparse_k.is_some() {
			let mut g = classical_solver::sa::SimulatedAnnealerGenerator::<SingleModel<Binary<R>, Quadric>>::new();
			g.beta = classical_solver::beta::BetaType::Schedule(schedule);
			g.sweeps_per_round = sweeps;
			let a = g.generate(&sm).ok().expect("generating an annealer failed");
			let v = a.solve_with_rng(&mut rng).ok().expect("annealing failed");
			v.iter().map(|s| (0..s.len()).map(|i| s[i]).collect()).collect()
		} else {
			let mut g = classical_solver::sa::SimulatedAnnealerGenerator::<FixedSingleQuadricModel<Binary<R>>>::new();
			g.beta = classical_solver::beta::BetaType::Schedule(schedule);
			g.sweeps_per_round = sweeps;
			let a = g.generate(&m).ok().expect("generating an annealer failed");
			let v = a.solve_with_rng(&mut rng).ok().expect("annealing failed");
			v.iter().map(|s| (0..s.len()).map(|i| s[i]).collect()).collect()
		};
		(sols, rng.pos)
	};
	let (a, ca) = run(1);
	let (b, cb) = run(1000);
	let (c, cc) = run(77);
	check(B::k(a.len() == 1), || format!("{} solutions", a.len()));
	check(B::k(a.iter().all(|s| s.len() == n)), || "one value per variable".to_string());
	check(B::k(a == b && b == c), || format!("the same draws give {:?}, {:?} and {:?}", a, b, c));
	check(B::k(ca == cb && cb == cc), || format!("{}, {} and {} draws", ca, cb, cc));
	let val = |b: bool| R::int(b as i64);
	if let Some(s) = a.first() {
		if s.len() == n {
			R::observe("end", energy(&t, &val, s));
		}
	}
	cover("ended");
}

// ------------------------------------------------------------ C17

type QM<R> = FixedSingleQuadricModel<Binary<R>>;
/// capacity, and how many solvers it was asked for
#[derive(Clone)]
struct Gen17(Option<usize>, Rc<Cell<usize>>);
fn gen17(cap: Option<usize>) -> Gen17 {
	Gen17(cap, Rc::new(Cell::new(0)))
}
/// the symbolic weight of the only variable of the problem it was made for
struct Sol17<R>(R);
#[derive(Debug)]
struct Never(usize);
impl std::fmt::Display for Never {
	fn fmt(&self, _: &mut std::fmt::Formatter<'_>) -> std::fmt::Result {
		Ok(())
	}
}
impl std::error::Error for Never {}
impl<R: Num> Solver for Sol17<R> {
	type ErrorType = Never;
	type SolutionType = SingleSolution<Binary<R>>;
}
impl<'a, R: Num> SolverGenerator<'a, QM<R>> for Gen17 {
	type SolverType = Sol17<R>;
	type ErrorType = Never;
	fn value_range(&self) -> (R, R) {
		(R::int(-3), R::int(self.0.unwrap_or(100) as i64))
	}
	fn generate(&self, m: &'a QM<R>) -> Result<Sol17<R>, Never> {
		self.1.set(self.1.get() + 1);
		// more variables than there are places
		match self.0 {
			Some(n) if annealers::model::FixedSingleModelView::size(m) > n => Err(Never(n + 100 * self.1.get())),
			_ => Ok(Sol17(annealers::model::FixedSingleModelView::get_weight(m, &[0, 0]))),
		}
	}
}
impl<'a, R: Num> UnstructuredSolverGenerator<'a, QM<R>> for Gen17 {
	type Order = Quadric;
	fn order(&self) -> Quadric {
		Quadric
	}
	fn size(&self) -> Option<usize> {
		self.0
	}
}
/// The view makes the same solvers as the generator behind it and has the
/// same range of values.
fn c17_view<R: Num>() {
	let cap = [None, Some(0), Some(1), Some(2)][choose(4)];
	let size = 1 + choose(2);
	let behind = gen17(cap);
	let g = UnstructuredSolverGenerator::<QM<R>>::into_structured(behind.clone());
	let mut m = QM::<R>::new(Binary::new(), size);
	let w = R::var("w", -9, 9);
	m.add_weight(0, 0, w);
	match (SolverGenerator::generate(&gen17(cap), &m), SolverGenerator::generate(&g, &m)) {
		(Ok(a), Ok(b)) => {
			cover("made");
			R::observe("weight", b.0);
			check(b.0.eqb(a.0), || "another solver".to_string());
			check(b.0.eqb(w), || format!("the solver was made for the weight {} instead of {}", b.0, w));
		}
		(Err(a), Err(b)) => {
			cover("refused");
			check(B::k(a.0 == b.0), || format!("error {} instead of {}", b.0, a.0));
		}
		(a, b) => check(B::k(false), || format!("made {} instead of {}", b.is_ok(), a.is_ok())),
	}
	check(B::k(behind.1.get() == 1), || format!("the solver behind was asked {} times for one solver", behind.1.get()));
	let (lo, hi) = SolverGenerator::<QM<R>>::value_range(&g);
	let (l, h) = SolverGenerator::<QM<R>>::value_range(&gen17(cap));
	check(lo.eqb(l), || format!("values from {} instead of {}", lo, l));
	check(hi.eqb(h), || format!("values from {} to {} instead of {} to {}", lo, hi, l, h));
}
/// Long listings, and entering a listing anywhere: the k-th edge is the same
/// however it is reached; every pair once.
fn c17_wide<R: Num>(n: usize, cap: bool) {
	let g = UnstructuredSolverGenerator::<QM<R>>::into_structured(gen17(if cap { Some(n) } else { None }));
	let nodes: Vec<usize> = StructuredSolverGenerator::<QM<R>>::nodes(&g).take(n + 3).collect();
	check(B::k(nodes == (0..if cap { n } else { n + 3 }).collect::<Vec<_>>()), || format!("{} nodes, capacity {:?}", nodes.len(), cap));
	for k in vec![0, 1, 5, n / 2, n - 1, n, 2 * n] {
		check(B::k(StructuredSolverGenerator::<QM<R>>::nodes(&g).nth(k) == if !cap || k < n { Some(k) } else { None }), || format!("node number {}", k));
	}
	let (lo, hi) = StructuredSolverGenerator::<QM<R>>::nodes(&g).size_hint();
	if cap {
		check(B::k(lo <= n && hi.map(|h| h >= n).unwrap_or(true)), || format!("{} to {:?} nodes announced", lo, hi));
		check(B::k(StructuredSolverGenerator::<QM<R>>::nodes(&g).last() == if n > 0 { Some(n - 1) } else { None }), || "last node".to_string());
	}
	let all = n * (n - 1) / 2;
	let list: Vec<BTreeSet<usize>> = StructuredSolverGenerator::<QM<R>>::prods(&g).take(all + n + 12).collect();
	if cap {
		check(B::k(list.len() == all), || format!("{} edges of {} nodes", list.len(), n));
		check(B::k(StructuredSolverGenerator::<QM<R>>::prods(&g).count() == all), || "number of edges".to_string());
		check(B::k(StructuredSolverGenerator::<QM<R>>::prods(&g).last() == list.last().cloned()), || "last edge".to_string());
	}
	let (lo, hi) = StructuredSolverGenerator::<QM<R>>::prods(&g).size_hint();
	check(B::k(lo <= if cap { all } else { usize::MAX } && hi.map(|h| cap && h >= all).unwrap_or(true)), || format!("{} to {:?} edges announced", lo, hi));
	let entry = choose(18);
	let (k, s) = ([0, 1, 2, 5, n, all / 2][entry / 3], [0, 1, 3][entry % 3]);
	let mut it = StructuredSolverGenerator::<QM<R>>::prods(&g);
	let (a, b) = (it.nth(k), it.nth(s));
	let at = |i: usize| list.get(i).cloned();
	check(B::k(a == at(k)), || format!("edge number {}: {:?} instead of {:?}", k, a, at(k)));
	check(B::k(b == at(k + 1 + s)), || format!("edge number {} after {}: {:?} instead of {:?}", s, k, b, at(k + 1 + s)));
	// values on the nodes: the edges add up to the sum over all pairs
	let x: Vec<R> = (0..n).map(|i| if i == n / 3 || i == n / 2 || i + 1 == n { R::var(&format!("x{}", i), -9, 9) } else { R::int((i * i % 7) as i64) }).collect();
	let mut seen = BTreeSet::new();
	let mut got = R::int(0);
	for p in list.iter().take(all) {
		let p: Vec<usize> = p.iter().cloned().collect();
		check(B::k(p.len() == 2 && seen.insert(p.clone())), || format!("edge {:?}", p));
		if p.len() == 2 && cap && entry == 0 && p[1] < n {
			got = got + x[p[0]] + x[p[1]] * R::int(2);
		}
	}
	cover("listed");
	if cap && entry == 0 {
		let mut want = R::int(0);
		for j in 0..n {
			want = want + x[j] * R::int((n - 1 - j + 2 * j) as i64);
		}
		R::observe("sum", got);
		check(got.eqb(want), || format!("the edges add up to {} instead of {}", got, want));
	}
}
/// Arbitrary values on the pairs: the listing adds up to the sum over the
/// pairs, whatever the values are, exactly if it lists every pair once.
fn c17<R: Num>(max: usize) {
	let n = choose(max + 1);
	let g = UnstructuredSolverGenerator::<QM<R>>::into_structured(gen17(Some(n)));
	let nodes: Vec<usize> = StructuredSolverGenerator::<QM<R>>::nodes(&g).take(n + 3).collect();
	check(B::k(nodes.len() == n && nodes.iter().cloned().collect::<BTreeSet<_>>() == (0..n).collect()), || format!("nodes {:?} for {}", nodes, n));
	let mut y = BTreeMap::new();
	let mut want = R::int(0);
	for j in 0..n {
		for i in 0..j {
			let v = R::var(&format!("y{}_{}", i, j), -9, 9);
			y.insert(vec![i, j], v);
		}
	}
	for v in y.values().rev() {
		want = want + *v;
	}
	let mut it = StructuredSolverGenerator::<QM<R>>::prods(&g);
	let mut got = R::int(0);
	let mut count = 0;
	while let Some(p) = it.next() {
		count += 1;
		check(B::k(count <= n * n), || "the listing does not end".to_string());
		if count > n * n {
			return;
		}
		let p: Vec<usize> = p.into_iter().collect();
		match y.get(&p) {
			Some(v) => got = got + *v,
			None => check(B::k(false), || format!("{:?} is no pair of the {} nodes", p, n)),
		}
	}
	cover(if count == 0 { "nothing to list" } else { "listed" });
	R::observe("sum", got);
	check(got.eqb(want), || format!("the edges add up to {} instead of {}", got, want));
	for _ in 0..3 {
		let p = it.next();
		check(B::k(p.is_none()), || format!("{:?} after the end", p));
	}
}
/// A listing without an end: the coefficient of every pair is 0 or 1.
fn c17_endless<R: Num>(take: usize) {
	let k = choose(take + 1);
	let g = UnstructuredSolverGenerator::<QM<R>>::into_structured(gen17(None));
	let nodes: Vec<usize> = StructuredSolverGenerator::<QM<R>>::nodes(&g).take(take).collect();
	check(B::k(nodes == (0..take).collect::<Vec<_>>()), || format!("nodes {:?}", nodes));
	let mut y: BTreeMap<Vec<usize>, R> = BTreeMap::new();
	let mut got = R::int(0);
	let mut all = R::int(0);
	let ps: Vec<BTreeSet<usize>> = StructuredSolverGenerator::<QM<R>>::prods(&g).take(k).collect();
	check(B::k(ps.len() == k), || format!("the listing ended after {}", ps.len()));
	for p in ps {
		check(B::k(p.len() == 2), || format!("{:?} is no pair", p));
		let p: Vec<usize> = p.into_iter().collect();
		if !y.contains_key(&p) {
			let v = R::var(&format!("y{:?}", p).replace(|c: char| !c.is_alphanumeric(), "_"), 1, 9);
			y.insert(p.clone(), v);
		}
		got = got + y[&p];
	}
	for v in y.values().rev() {
		all = all + *v;
	}
	cover("endless");
	check(got.eqb(all), || format!("the edges add up to {} instead of {}: one is listed twice", got, all));
}

// ------------------------------------------------------------ C18

/// All views of a key, through the value of the product they describe:
/// arbitrary values on the nodes.
fn views<R: Num, K: annealers::set::NodeSet>(key: &K, want: &[usize], x: &[R], what: &str) {
	let sum = |v: &[usize]| v.iter().fold(R::int(0), |a, i| a + if *i < x.len() { x[*i] } else { R::int(1 << 20) });
	let mut e = R::int(0);
	for i in want.iter().rev() {
		e = x[*i] + e;
	}
	let same = |v: Vec<usize>, how: &str| {
		let s = sum(&v);
		R::observe("view", s);
		check(s.eqb(e), || format!("{} of the key {:?} of {:?} ({}) lists {:?}", how, key, want, what, v));
	};
	same(nodes_of(key), "iteration");
	same(annealers::set::NodeSet::into_vec(key.clone()), "the vector");
	same(annealers::set::NodeSet::into_set(key.clone()).into_iter().collect(), "the set");
	same((0..x.len()).filter(|i| annealers::set::NodeSet::contains(key, *i)).collect(), "membership");
	check(B::k(annealers::set::NodeSet::len(key) == want.len()), || format!("length {} of {:?}", annealers::set::NodeSet::len(key), want));
}
fn c18<R: Num, K: annealers::set::NodeSet>(nodes: usize, max: usize, refuse: bool) {
	let x: Vec<R> = (0..nodes).map(|i| R::var(&format!("x{}", i), 1, 99)).collect();
	// a list of distinct nodes in any order
	let n = choose(max + 1);
	let mut list: Vec<usize> = vec![];
	for _ in 0..n {
		let free: Vec<usize> = (0..nodes).filter(|i| !list.contains(i)).collect();
		list.push(free[choose(free.len())]);
	}
	let set: BTreeSet<usize> = list.iter().cloned().collect();
	let sorted: Vec<usize> = set.iter().cloned().collect();
	let made = [
		("list", K::from_vec(list.clone())),
		("set", K::from_set(set.clone())),
		("sorted list", unsafe { K::from_vec_unchecked(sorted.clone()) }),
		("sorted iterator", K::from_it(sorted.clone())),
		("iterator of a set", K::from_it(set.clone())),
	];
	if refuse && (n == 0 || n > 2) {
		cover("refused");
		for (how, k) in &made {
			check(B::k(k.is_none()), || format!("the {} {:?} gives the key {:?}", how, list, k));
		}
		return;
	}
	if n == 0 {
		return;
	}
	let first = made[0].1.clone();
	for (how, k) in &made {
		check(B::k(k.is_some() && *k == first), || format!("the {} {:?} gives the key {:?} instead of {:?}", how, list, k, first));
		if let Some(k) = k {
			views(k, &sorted, &x, how);
		}
	}
	cover("described");
	// another product
	let m = 1 + choose(max.min(if refuse { 2 } else { max }));
	let mut other: Vec<usize> = vec![];
	for _ in 0..m {
		let free: Vec<usize> = (0..nodes).filter(|i| !other.contains(i)).collect();
		other.push(free[choose(free.len())]);
	}
	let k = K::from_vec(other.clone());
	let same = other.iter().cloned().collect::<BTreeSet<_>>() == set;
	cover(if same { "same" } else { "different" });
	check(B::k((k == first) == same), || format!("{:?} and {:?} give the keys {:?} and {:?}", list, other, first, k));
}
/// Keys of many nodes, made from lists in many orders.
fn c18_long<R: Num, K: annealers::set::NodeSet>() {
	let n = [4, 5, 6, 7, 8, 9, 12, 16, 17, 20, 21, 25, 33, 40, 65][choose(15)];
	let sorted: Vec<usize> = (0..n).map(|i| 3 * i + i % 2).collect();
	let x: Vec<R> = (0..3 * n + 2).map(|i| if sorted.contains(&i) { R::var(&format!("x{}", i), 1, 99) } else { R::int(100) }).collect();
	let mut list = sorted.clone();
	match choose(8) {
		0 => list.reverse(),
		1 => list.rotate_left(1),
		2 => list.rotate_right(1),
		3 => list.rotate_left(n / 2),
		4 => list.swap(0, n - 1),
		5 => list.swap(n - 2, n - 1),
		6 => list.swap(0, 1),
		_ => {
			// odd places first, falling, then the even ones
			list = sorted.iter().cloned().skip(1).step_by(2).collect();
			list.reverse();
			list.extend(sorted.iter().step_by(2));
		}
	}
	let set: BTreeSet<usize> = list.iter().cloned().collect();
	let made = [
		("list", K::from_vec(list.clone())),
		("set", K::from_set(set.clone())),
		("sorted list", unsafe { K::from_vec_unchecked(sorted.clone()) }),
		("iterator of a set", K::from_it(set.clone())),
	];
	cover("described");
	for (how, k) in &made {
		check(B::k(k.is_some() && *k == made[3].1), || format!("the {} {:?} gives the key {:?}", how, list, k));
		if let Some(k) = k {
			views(k, &sorted, &x, how);
		}
	}
}
fn c18_pair<R: Num>(nodes: usize) {
	c18::<R, [usize; 2]>(nodes, 3, true)
}
fn c18_set<R: Num>(nodes: usize, max: usize) {
	c18::<R, BTreeSet<usize>>(nodes, max, false)
}
fn c18_vec<R: Num>(nodes: usize, max: usize) {
	c18::<R, Vec<usize>>(nodes, max, false)
}

// ------------------------------------------------------------ registration

pub fn register(prop: &str, thorough: bool, seed: u64, v: &mut Vec<Scen>) {
	let sd: Vec<u64> = if thorough { (seed..seed + 4).collect() } else { vec![seed] };
	match prop {
		"C10" => {
			let mut l: Vec<usize> = (0..=18).collect();
			l.extend([24, 31, 32, 33, 47, 48, 63, 64, 65, 100, 127, 128, 129]);
			if thorough {
				l.extend(19..=46);
				l.extend([180, 200, 255, 256, 257, 300, 361, 400]);
			} else {
				l.extend([181, 255, 256, 257, 300, 363]);
			}
			l.sort_unstable();
			l.dedup();
			for n in l {
				scen!(v, format!("wide{}", n), "dense model with a coefficient of its own for every pair", int, vec![seed], vec!["read"], c10_wide(n));
			}
			for n in [3, 10, 66] {
				scen!(v, format!("wide{}-real", n), "dense model with a coefficient of its own for every pair", real, vec![seed], vec!["read"], c10_wide(n));
			}
		}
		"C11" => {
			let mut l: Vec<usize> = (0..=18).collect();
			l.extend([31, 32, 33, 63, 64, 65, 127, 128, 129]);
			if thorough {
				l.extend([100, 200, 255, 256, 257, 300]);
			} else {
				l.extend([255, 257]);
			}
			for n in l {
				scen!(v, format!("wide{}", n), "products and neighbours of a dense model", int, vec![seed], vec!["listed"], c11_wide(n));
			}
			for n in if thorough { vec![1100usize, 2100, 4200] } else { vec![1100] } {
				scen!(v, format!("long{}", n), "products and neighbours of a large dense model", int, vec![seed], vec!["listed"], c11_long(n));
			}
			for k in 20..=21usize {
				scen!(v, format!("sparse{}", k), "sparse model of far nodes", int, sd.clone(), vec![], c11_quadric(k));
				scen!(v, format!("high{}", k), "sparse model of far nodes", int, sd.clone(), vec![], c11_high(k, 3));
			}
			for k in 0..=7usize {
				scen!(v, format!("sparse{}", k), "sparse model of singles and pairs", int, sd.clone(), vec![], c11_quadric(k));
			}
			for k in 0..=12usize {
				let o = if k == 11 { 4 } else { 3 };
				scen!(v, format!("high{}", k), "sparse model of products of up to four variables", int, sd.clone(), vec![], c11_high(k, o));
				scen!(v, format!("high{}-real", k), "sparse model of products of up to four variables", real, sd.clone(), vec![], c11_high(k, o));
			}
		}
		"C12" => {
			for n in 0..=(if thorough { 5usize } else { 4 }) {
				for kind in 0..3usize {
					for back in [false, true] {
						let name = format!("dense{}-k{}{}", n, kind, if back { "-back" } else { "" });
						let what = "dense model, every state";
						if (n + kind) % 2 == 0 || thorough {
							scen!(v, name.clone(), what, int, vec![seed], vec![], c12_dense(n, kind, back));
						}
						if (n + kind) % 2 == 1 || thorough {
							scen!(v, format!("{}-real", name), what, real, vec![seed], vec![], c12_dense(n, kind, back));
						}
					}
				}
			}
			for k in 0..=7usize {
				for kind in 0..3usize {
					if k == 7 && kind > 0 && !thorough {
						continue;
					}
					scen!(v, format!("sparse{}-k{}", k, kind), "sparse quadratic model, every state", int, sd.clone(), vec![], c12_quadric(k, kind));
				}
			}
			for k in 0..=12usize {
				for kind in 0..3usize {
					let o = if k == 11 { 4 } else { 3 };
					if k == 7 && !thorough {
						continue;
					}
					if (k + kind) % 2 == 0 || thorough {
						scen!(v, format!("high{}-k{}", k, kind), "sparse model of higher order, every state", int, sd.clone(), vec![], c12_high(k, kind, o));
					}
					if (k + kind) % 2 == 1 || thorough {
						scen!(v, format!("high{}-k{}-real", k, kind), "sparse model of higher order, every state", real, sd.clone(), vec![], c12_high(k, kind, o));
					}
				}
			}
			for n in [9usize, 17, 33, 66] {
				for kind in 0..3usize {
					scen!(v, format!("wide{}-k{}", n, kind), "dense model of many variables, three symbolic weights", int, vec![seed], vec!["wide"], c12_wide_k(n, kind));
				}
			}
			for n in if thorough { vec![300usize, 520] } else { vec![300] } {
				for kind in 0..3usize {
					scen!(v, format!("wide{}-k{}", n, kind), "dense model of many variables, three symbolic weights", int, vec![seed], vec!["wide"], c12_wide_k(n, kind));
				}
			}
			if thorough {
				for n in [64usize, 65, 130] {
					for kind in 0..3usize {
						scen!(v, format!("wide{}-k{}", n, kind), "dense model of many variables, three symbolic weights", int, vec![seed], vec!["wide"], c12_wide_k(n, kind));
					}
				}
			}
			scen!(v, "compare", "order of two energies", int, vec![seed], vec!["less", "greater", "equal"], c12_compare(2));
			scen!(v, "compare-real", "order of two energies", real, vec![seed], vec!["less", "greater", "equal"], c12_compare(2));
		}
		"C13" => {
			let mut l = vec![];
			let c = |n, sparse, sweeps, steps, hot, local| Cold { n, sparse, sweeps, steps, hot, local };
			l.push((c(1, None, 1, 1, false, false), true));
			l.push((c(2, None, 1, 1, false, false), true));
			l.push((c(2, None, 2, 1, false, false), true));
			l.push((c(2, None, 1, 2, false, false), true));
			l.push((c(2, None, 4, 1, false, true), true));
			l.push((c(2, None, 1, 2, true, false), true));
			l.push((c(3, None, 1, 1, false, false), true));
			l.push((c(3, None, 1, 2, false, false), true));
			l.push((c(3, None, 1, 1, true, false), true));
			l.push((c(3, None, 2, 1, true, false), true));
			l.push((c(3, None, 8, 1, false, true), true));
			l.push((c(2, Some(2), 2, 1, false, false), true));
			l.push((c(3, Some(3), 1, 2, false, false), true));
			l.push((c(3, Some(3), 1, 1, true, false), true));
			l.push((c(4, Some(6), 1, 1, false, false), true));
			if thorough {
				l.push((c(3, Some(3), 8, 1, false, true), true));
				l.push((c(4, None, 1, 1, false, false), true));
				l.push((c(4, None, 1, 1, true, false), true));
				l.push((c(4, None, 2, 1, false, false), true));
				l.push((c(3, None, 3, 2, false, false), true));
				l.push((c(4, Some(6), 2, 1, true, false), true));
				l.push((c(4, Some(6), 16, 1, false, true), true));
			}
			for n in [9usize, 17, 40, 72] {
				let all: &'static [usize] = if thorough { &[0, 1, 2, 3, 5, 7, 8, 9, 15, 16, 17, 23, 24, 31, 32, 33, 39, 40, 47, 48, 56, 63, 64, 65, 71] } else { &[0, 7, 8, 31, 33, 40, 63, 64, 71] };
				scen!(v, format!("wide{}", n), "cold annealing of many variables, two of which interact", int, vec![seed], vec!["moved", "stayed"], c13_wide(n, all));
			}
			scen!(v, "wide130", "cold annealing of many variables, two of which interact", int, vec![seed], vec!["moved", "stayed"], c13_wide(130, &[0, 128, 129]));
			for n in if thorough { vec![300usize, 520] } else { vec![300] } {
				scen!(v, format!("wide{}", n), "cold annealing of many variables, two of which interact", int, vec![seed], vec!["moved", "stayed"], c13_wide(n, if thorough { &[0, 128, 256, 299] } else { &[0, 256] }));
			}
			for (c, _) in l {
				let name = format!("cold-n{}{}-s{}x{}{}{}", c.n, c.sparse.map(|k| format!("-sparse{}", k)).unwrap_or_default(), c.steps, c.sweeps, if c.hot { "-hot" } else { "" }, if c.local { "-min" } else { "" });
				scen!(v, name, "cold annealing from every state", int, vec![seed], vec!["moved", "stayed"], c13(c));
				if c.steps * c.sweeps <= 1 && c.n <= 3 {
					scen!(v, format!("{}-real", name), "cold annealing from every state", real, vec![seed], vec![], c13(c));
				}
			}
		}
		"C14" => {
			let t = thorough;
			let one: &'static [(usize, usize)] = &[(0, 0)];
			let two: &'static [(usize, usize)] = &[(0, 1)];
			let some: &'static [(usize, usize)] = &[(0, 1), (7, 8), (2, 15), (16, 1)];
			let many: &'static [(usize, usize)] = &[(0, 69), (63, 64), (31, 65), (68, 4)];
			for (n, p, b, s) in [
				(1usize, one, &[2i64][..], 1usize),
				(1, one, &[2, 4], 1),
				(1, one, &[4, 2], 1),
				(1, one, &[4, 2, 4], 2),
				(2, two, &[2], 1),
				(2, two, &[2], 3),
				(2, two, &[4, 2], 1),
				(17, some, &[2], 2),
				(70, many, &[2], 1),
			] {
				let name = format!("moves-n{}-b{}x{}", n, b.iter().map(|x| x.to_string()).collect::<Vec<_>>().join("_"), s);
				let cv = vec!["moved", "stayed"];
				let d = if n == 1 || b.len() * s == 1 || t { 3 } else { 1 };
				scen!(v, name, "the annealer with scripted draws, symbolic costs", int, vec![seed], cv.clone(), c14_pair(n, p, b, s, d));
				if n <= 2 || t {
					scen!(v, format!("{}-real", name), "the annealer with scripted draws, symbolic costs", real, vec![seed], cv, c14_pair(n, p, b, s, d));
				}
			}
			for n in [2usize, 3, 5] {
				for b in [2i64, 1] {
					scen!(v, format!("own-n{}-b{}-real", n, b), "draws are not shared by the moves of a sweep", real, vec![seed], vec!["the few"], c14_own(n, b));
				}
				scen!(v, format!("own-n{}", n), "draws are not shared by the moves of a sweep", int, vec![seed], vec!["the few"], c14_own(n, 2));
			}
			let b2: &'static [i64] = &[2, 2, 2, 2];
			let b3: &'static [i64] = &[1, 2, 3, 4, 4, 4];
			let b4: &'static [i64] = &[2];
			for (i, (h, b, s)) in [(1usize, b2, 1usize), (2, b2, 2), (3, b3, 1), (2, b4, 5)].into_iter().enumerate() {
				scen!(v, format!("late{}-real", i), "draws are not shared by the sweeps and steps", real, vec![seed], vec!["moved"], c14_late(h, b, s));
			}
			scen!(v, "late", "draws are not shared by the sweeps and steps", int, vec![seed], vec!["moved"], c14_late(1, b2, 1));
			for (b, s) in [(&[1i64][..], 2usize), (&[1, 3], 1), (&[3, 1], 2), (&[3, 1, 8], 1)].into_iter().take(if t { 4 } else { 3 }) {
				let name = format!("moves-n2-b{}x{}-real", b.iter().map(|x| x.to_string()).collect::<Vec<_>>().join("_"), s);
				scen!(v, name, "the annealer with scripted draws, symbolic costs", real, vec![seed], vec!["moved", "stayed"], c14_pair(2, two, b, s, if t { 3 } else { 1 }));
			}
		}
		"C15" => {
			let counts: &'static [usize] = if thorough {
				&[0, 1, 2, 3, 4, 5, 7, 8, 9, 10, 15, 16, 17, 31, 32, 33, 63, 64, 65, 99, 100, 101, 127, 128, 129, 200, 255, 256, 257, 500, 511, 512, 513, 999, 1000, 1001, 1023, 1024, 1025, 2047, 2048, 2049, 4095, 4096, 4097, 5000, 8191, 8192, 8193, 10_000, 32767, 32768, 65535, 65536, 65537, 100_000, 1_000_001]
			} else {
				&[0, 1, 2, 3, 5, 10, 33, 64, 65, 100, 129, 256, 257, 1000, 1001, 1025, 4097, 10_000, 65537, 100_001]
			};
			scen!(v, "range", "schedules between two bounds", int, vec![seed], vec!["cooling", "heating or the same"], c15_range(counts, false));
			scen!(v, "range-real", "schedules between two bounds", real, vec![seed], vec!["cooling", "heating or the same"], c15_range(counts, false));
			scen!(v, "range-small-real", "schedules between two small bounds", real, vec![seed], vec!["cooling", "heating or the same"], c15_range(counts, true));
			for n in [0usize, 1, 2, 3, 70] {
				scen!(v, format!("count{}", n), "schedules for a model of any weights", int, vec![seed], vec!["a schedule"], c15_count(counts, n));
				scen!(v, format!("count{}-real", n), "schedules for a model of any weights", real, vec![seed], vec!["a schedule"], c15_count(counts, n));
			}
			let lens: &'static [usize] = &[0, 1, 2, 3, 10, 65, 257, 1000, 4097, 70_000];
			scen!(v, "manual", "manual schedules", int, vec![seed], vec!["used"], c15_manual(lens));
			scen!(v, "manual-real", "manual schedules", real, vec![seed], vec!["used"], c15_manual(lens));
		}
		"C20" => {
			let tapes: &'static [&'static [u64]] = &[&[0], &[u64::MAX], &[0x5555_5555_5555_5555, 0xaaaa_aaaa_aaaa_aaaa, 0x0123_4567_89ab_cdef], &[u64::MAX, 0, 0x8000_0000_0000_0000, 1]];
			let m = 1_000_000;
			let mut l: Vec<(usize, Option<usize>, Vec<i64>, usize)> = vec![
				(0, None, vec![0, m], 2),
				(1, None, vec![], 3),
				(1, None, vec![0, m], 2),
				(2, None, vec![m], 0),
				(2, None, vec![m, m], 1),
				(2, None, vec![0, m], 1),
				(3, None, vec![m], 1),
				(3, None, vec![0, m], 1),
				(2, Some(2), vec![0, m], 1),
				(3, Some(3), vec![m], 2),
				(9, None, vec![0, m], 1),
				(33, None, vec![m], 2),
				(65, None, vec![0, m], 1),
				(130, None, vec![m], 1),
				(260, None, vec![m], 1),
				(1100, None, vec![m], 0),
			];
			if thorough {
				l.push((3, None, vec![0, m], 2));
				l.push((3, None, vec![m, 0, m], 1));
				l.push((4, Some(6), vec![0, m], 1));
				l.push((129, None, vec![0, m], 2));
			}
			for (n, k, b, s) in l {
				let name = format!("run-n{}{}-b{}x{}{}", n, k.map(|k| format!("-sparse{}", k)).unwrap_or_default(), b.len(), s, if b.first() == Some(&0) { "-hot" } else { "" });
				let b: &'static [i64] = Box::leak(b.into_boxed_slice());
				scen!(v, name, "the annealer on any weights, twice on the same draws", int, vec![seed], vec!["ended"], c20(n, k, b, s, tapes));
			}
		}
		"C17" => {
			let m = if thorough { 9 } else { 7 };
			scen!(v, "edges", "solvers of 0 to 7 (thorough: 9) nodes, arbitrary values on the pairs", int, vec![seed], vec!["nothing to list", "listed"], c17(m));
			scen!(v, "edges-real", "solvers of 0 to 7 (thorough: 9) nodes, arbitrary values on the pairs", real, vec![seed], vec!["nothing to list", "listed"], c17(m));
			scen!(v, "view", "what a view makes of problems, its range of values", int, vec![seed], vec!["made", "refused"], c17_view());
			scen!(v, "view-real", "what a view makes of problems, its range of values", real, vec![seed], vec!["made", "refused"], c17_view());
			for n in if thorough { vec![2, 3, 10, 70, 140, 270, 300] } else { vec![2, 10, 70, 140, 270] } {
				scen!(v, format!("wide-{}", n), "long listings, entered anywhere", int, vec![seed], vec!["listed"], c17_wide(n, true));
				scen!(v, format!("wide-{}-endless", n), "long listings, entered anywhere", int, vec![seed], vec!["listed"], c17_wide(n, false));
			}
			let t = if thorough { 60 } else { 30 };
			scen!(v, "endless", "prefixes of the listing without an end", int, vec![seed], vec!["endless"], c17_endless(t));
		}
		"C18" => {
			let n = if thorough { 6 } else { 5 };
			scen!(v, "pair", "keys of one or two nodes out of five", int, vec![seed], vec!["refused", "described", "same", "different"], c18_pair(n));
			scen!(v, "set", "keys of up to three nodes out of four, sets", int, vec![seed], vec!["described", "same", "different"], c18_set(4, 3));
			scen!(v, "long-list", "keys of 4 to 65 nodes, lists in eight orders", int, vec![seed], vec!["described"], c18_long::<Vec<usize>>());
			scen!(v, "long-set", "keys of 4 to 65 nodes, sets from lists in eight orders", int, vec![seed], vec!["described"], c18_long::<BTreeSet<usize>>());
			scen!(v, "list", "keys of up to three nodes out of four, lists", int, vec![seed], vec!["described", "same", "different"], c18_vec(4, 3));
			if thorough {
				scen!(v, "set-5", "keys of up to three nodes out of five, sets", int, vec![seed], vec!["described", "same", "different"], c18_set(5, 3));
				scen!(v, "list-5", "keys of up to three nodes out of five, lists", int, vec![seed], vec!["described", "same", "different"], c18_vec(5, 3));
			}
		}
		_ => {}
	}
}
