//! Scenarios about compilation: C01, C02, C03.
use crate::ast::*;
use crate::eng::*;
use crate::run::Scen;
use crate::scen;
use crate::scen_solve::wide_expr;
use crate::stub::*;
use rustqubo::solve::SimpleSolver;
use std::collections::{BTreeMap, BTreeSet, HashMap};
use std::sync::{Arc, Mutex};

/// What the solver makes of a compiled model.
pub struct Table<R: Num> {
	/// number of variables of the problem, auxiliary ones included
	pub n: usize,
	/// energy of every state (index: bit mask over problem variables)
	pub energy: Vec<R>,
	/// user labels shown for every state
	pub view: Vec<BTreeMap<u16, bool>>,
	/// labels of the constraints that carry a weight
	pub weights: BTreeSet<u16>,
	pub model: M<R>,
}
impl<R: Num> Table<R> {
	pub fn labels(&self) -> BTreeSet<u16> {
		self.view[0].keys().cloned().collect()
	}
	pub fn weight(&self, strength: i64) -> impl Fn(u16) -> R {
		let k = self.weights.len().max(1) as i64;
		let w = if R::INT { R::int(strength / k) } else { R::frac(strength, k) };
		move |_| w
	}
}

/// names like "Constraint(3)" / "Placeholder(1)"
pub fn ph_names<T: std::fmt::Debug>(it: impl Iterator<Item = T>) -> (BTreeSet<u16>, BTreeSet<u16>) {
	let (mut p, mut c) = (BTreeSet::new(), BTreeSet::new());
	for x in it {
		let s = format!("{:?}", x);
		let n: String = s.chars().filter(|c| c.is_ascii_digit()).collect();
		let n: u16 = n.parse().unwrap_or(255);
		if s.starts_with("Constraint") {
			c.insert(n);
		} else {
			p.insert(n);
		}
	}
	(p, c)
}

/// Run the real solver with the scripted annealer once per state.
#[macro_export]
macro_rules! table {
	($r:ty, $compiled:expr, $strength:expr, $maxn:expr) => {{
		let compiled = &$compiled;
		set_mode(Mode::Opaque);
		let (_, weights) = $crate::scen_compile::ph_names(compiled.get_placeholders().into_iter());
		let run = |mask: u128| {
			let stub = Stub::<$r>::new(move |_, _| Answer::States(vec![mask]));
			let log = stub.log.clone();
			let mut s = SimpleSolver::with_solver(compiled, stub);
			s.iterations = 1;
			s.generations = 1;
			s.samples = 1;
			s.coeff_strength = <$r>::int($strength);
			let (e, view, _) = s.solve_with_constraints().expect("the scripted annealer does not fail");
			let m = log.lock().unwrap().models[0].clone();
			let mut v = std::collections::BTreeMap::new();
			for k in view.keys() {
				v.insert(*k, view[k]);
			}
			(e, v, m)
		};
		let (e0, v0, model) = run(0);
		let n = annealers::model::FixedSingleModelView::size(&model);
		if n > $maxn {
			stop(Stop::Inconclusive(format!("{} variables after compilation", n)));
		}
		let mut energy = vec![e0];
		let mut view = vec![v0];
		for mask in 1..1u128 << n {
			let (e, v, _) = run(mask);
			energy.push(e);
			view.push(v);
		}
		set_mode(Mode::Order);
		$crate::scen_compile::Table { n, energy, view, weights, model }
	}};
}

// ---------------------------------------------------------------- shapes

pub struct Gen {
	nums: usize,
	used: u16,
	maxq: u16,
	maxp: u16,
	cons: u16,
	pub leaves: u16,
	pub ops: u16,
	lo: i64,
	hi: i64,
	/// literal numbers instead of symbolic ones: index into LITS
	lits: bool,
}
pub const L_NUM: u16 = 1;
pub const L_BIN: u16 = 2;
pub const L_SPIN: u16 = 4;
pub const L_PH: u16 = 8;
pub const O_ADD: u16 = 1;
pub const O_SUB: u16 = 2;
pub const O_MUL: u16 = 4;
pub const O_NEG: u16 = 8;
pub const O_POW: u16 = 16;
pub const O_CONS: u16 = 32;
pub const O_PEN: u16 = 64;

impl Gen {
	pub fn new(maxq: u16, maxp: u16, leaves: u16, ops: u16) -> Gen {
		Gen { nums: 0, used: 0, maxq, maxp, cons: 0, leaves, ops, lo: -1000, hi: 1000, lits: false }
	}
	/// Smaller numbers.
	pub fn bounds(&mut self, b: i64) {
		self.lo = -b;
		self.hi = b;
	}
	pub fn num<R: Num>(&mut self) -> E<R> {
		self.nums += 1;
		E::Num(R::var(&format!("k{}", self.nums - 1), self.lo, self.hi))
	}
	fn label(&mut self) -> u16 {
		let n = (self.used + 1).min(self.maxq);
		let i = choose(n as usize) as u16;
		if i == self.used {
			self.used += 1;
		}
		i
	}
	fn leaf<R: Num>(&mut self) -> E<R> {
		let kinds: Vec<u16> = [L_NUM, L_BIN, L_SPIN, L_PH].into_iter().filter(|k| self.leaves & k != 0).collect();
		match kinds[choose(kinds.len())] {
			L_NUM => self.num(),
			L_BIN => E::Bin(self.label()),
			L_SPIN => E::Spin(self.label()),
			_ => E::Ph(choose(self.maxp as usize) as u16),
		}
	}
}

pub fn phvars<R: Num>(e: &E<R>) -> BTreeMap<u16, R> {
	e.phs().into_iter().map(|p| (p, R::var(&format!("p{}", p), 0, 1000))).collect()
}

/// Every expression with exactly n operators.
pub fn gen_size<R: Num>(g: &mut Gen, n: usize) -> E<R> {
	if n == 0 {
		return g.leaf();
	}
	let kinds: Vec<u16> =
		[O_ADD, O_SUB, O_MUL, O_NEG, O_POW, O_CONS, O_PEN].into_iter().filter(|k| g.ops & k != 0).collect();
	let k = kinds[choose(kinds.len())];
	match k {
		O_NEG => neg(gen_size(g, n - 1)),
		O_POW => {
			let e = [2, 0, 3][choose(3)];
			pow(gen_size(g, n - 1), e)
		}
		O_CONS => {
			let l = g.cons;
			g.cons += 1;
			cons(l, gen_size(g, n - 1))
		}
		_ => {
			let l = choose(n);
			let a = gen_size(g, l);
			let b = gen_size(g, n - 1 - l);
			match k {
				O_ADD => add(a, b),
				O_SUB => sub(a, b),
				O_MUL => mul(a, b),
				_ => pen(a, b),
			}
		}
	}
}

// ---------------------------------------------------------------- C01

/// The table of an expression of degree two agrees with its value.
pub fn check_quadratic<R: Num>(e: &E<R>, phv: &BTreeMap<u16, R>, t: &Table<R>, strength: i64) {
	let w = t.weight(strength);
	let qs = e.qubits();
	check(B::k(t.n <= qs.len()), || format!("{} auxiliary variables for {}", t.n - qs.len(), e.show()));
	check(B::k(t.labels().is_subset(&qs)), || format!("unknown labels {:?} in {}", t.labels(), e.show()));
	check(B::k(t.labels().len() == t.n), || format!("{} labels for {} variables in {}", t.labels().len(), t.n, e.show()));
	let ph = |p: u16| phv[&p];
	for m in 0..t.energy.len() {
		let view = &t.view[m];
		let q = |l: u16| view.get(&l).copied().unwrap_or(false);
		let v = e.eval(&Env { q: &q, ph: &ph, w: &w });
		R::observe("energy", t.energy[m]);
		check(t.energy[m].eqb(v), || format!("energy of {} at {:?}: {} instead of {}", e.show(), view, t.energy[m], v));
	}
}

fn c01_expr<R: Num>(e: E<R>, strength: i64) {
	note(|| e.show());
	let phv = phvars(&e);
	let compiled = e.build().compile();
	let dict: HashMap<u16, R> = phv.iter().map(|(k, v)| (*k, *v)).collect();
	let fed = compiled.feed_dict(dict);
	let t = table!(R, fed, strength, 8);
	if t.weights.len() > 1 {
		cover("several constraint weights");
	}
	check_quadratic(&e, &phv, &t, strength);
}

fn c01_size<R: Num>(n: usize, maxq: u16, leaves: u16, ops: u16) {
	let mut g = Gen::new(maxq, 1, leaves, ops);
	let e: E<R> = gen_size(&mut g, n);
	if e.expand().degree() > 2 {
		return;
	}
	cover("degree at most two");
	c01_expr(e, 60);
}

fn lin<R: Num>(g: &mut Gen, ls: &[E<R>], c: bool) -> E<R> {
	let mut v: Vec<E<R>> = ls.iter().map(|l| mul(g.num(), l.clone())).collect();
	if c {
		v.push(g.num());
	}
	sum(v)
}

/// Larger expressions.
pub fn c01_template<R: Num>(k: usize) -> E<R> {
	let mut g = Gen::new(8, 2, 15, 127);
	let (x, s) = (|i| E::<R>::Bin(i), |i| E::<R>::Spin(i));
	match k {
		// all pairs of mixed variables
		0 => {
			let l = [x(0), s(1), x(2), s(3)];
			let mut v = vec![g.num()];
			for i in 0..4 {
				v.push(mul(g.num(), l[i].clone()));
				for j in 0..i {
					v.push(prod(vec![g.num(), l[i].clone(), l[j].clone()]));
				}
			}
			sum(v)
		}
		// product of two linear forms
		1 => mul(lin(&mut g, &[x(0), s(1), x(2)], true), lin(&mut g, &[s(0), x(3), x(1)], true)),
		// square of a linear form
		2 => pow(lin(&mut g, &[x(0), s(1), x(2), s(3)], true), 2),
		// one-hot constraints and an objective
		3 => sum(vec![
			cons(0, pow(sub(add(x(0), x(1)), num(1)), 2)),
			cons(1, pow(sub(add(x(2), x(1)), g.num()), 2)),
			lin(&mut g, &[x(0), s(1), x(2)], false),
		]),
		// penalties under products
		4 => mul(pen(lin(&mut g, &[x(0)], true), lin(&mut g, &[s(1), x(2)], true)), pen(lin(&mut g, &[s(2)], true), mul(lin(&mut g, &[x(1)], true), lin(&mut g, &[x(3)], true)))),
		// constraints multiplied, nested and under a penalty
		5 => add(
			mul(cons(0, lin(&mut g, &[x(0)], true)), cons(1, lin(&mut g, &[s(1)], true))),
			pen(cons(2, pen(lin(&mut g, &[x(2)], true), cons(3, lin(&mut g, &[x(0), s(2)], true)))), g.num()),
		),
		// placeholders
		6 => add(
			mul(E::Ph(0), lin(&mut g, &[x(0), s(1)], true)),
			mul(add(E::Ph(1), g.num()), mul(add(E::Ph(0), x(1)), add(s(2), mul(E::Ph(1), g.num())))),
		),
		7 => cons(0, add(mul(E::Ph(0), pow(lin(&mut g, &[x(0), s(1)], true), 2)), mul(mul(E::Ph(0), E::Ph(1)), x(2)))),
		// repeated factors
		8 => prod(vec![g.num(), x(0), x(0), s(1), x(0), s(1), s(1), add(x(0), g.num())]),
		9 => pow(lin(&mut g, &[x(0), s(0)], true), 3),
		10 => {
			// long sum over five variables
			let mut v = vec![];
			for i in 0..5u16 {
				for j in i..5u16 {
					v.push(prod(vec![g.num(), if j % 2 == 0 { x(i) } else { s(i) }, if i % 2 == 0 { s(j) } else { x(j) }]));
				}
			}
			sum(v)
		}
		// the same label in two constraints, and a spin and a 0/1 factor of the same variable
		11 => add(
			cons(0, mul(g.num(), mul(x(0), s(0)))),
			add(cons(0, lin(&mut g, &[s(0), x(1)], true)), neg(cons(1, sub(g.num(), mul(s(1), s(0)))))),
		),
		// differences of nested sums
		_ => sub(
			sub(lin(&mut g, &[x(0)], true), sub(lin(&mut g, &[s(1)], true), mul(x(0), x(1)))),
			neg(sub(neg(lin(&mut g, &[x(2)], true)), pow(sub(s(0), x(2)), 2))),
		),
	}
}

fn c01_big<R: Num>(k: usize) {
	let e: E<R> = c01_template(k);
	assert!(e.expand().degree() <= 2, "template of degree > 2");
	cover("degree at most two");
	c01_expr(e, 60);
}

// ---------------------------------------------------------------- C02

/// For every assignment of the user's variables the minimum over the auxiliary
/// ones equals the value of the expression.
fn check_reduced<R: Num>(e: &E<R>, phv: &BTreeMap<u16, R>, t: &Reduced<R>, strength: i64) {
	let n = e.qubits().len();
	check_reduced_at(e, phv, t, strength, &(0..1u32 << n).collect::<Vec<_>>())
}
/// ... for these assignments.
fn check_reduced_at<R: Num>(e: &E<R>, phv: &BTreeMap<u16, R>, t: &Reduced<R>, strength: i64, states: &[u32]) {
	let w = t.weight(strength);
	let qs = e.qubits();
	let labels: BTreeSet<u16> = t.index.keys().cloned().collect();
	check(B::k(labels == qs), || format!("variables {:?} of {} became {:?}", qs, e.show(), labels));
	let ph = |p: u16| phv[&p];
	let users: Vec<u16> = labels.iter().cloned().collect();
	let anc: Vec<usize> = (0..t.n).filter(|i| !t.index.values().any(|j| j == i)).collect();
	if !anc.is_empty() {
		cover("auxiliary variables");
	}
	for um in states.iter().cloned() {
		let q = |l: u16| match users.iter().position(|x| *x == l) {
			Some(i) => um >> i & 1 == 1,
			None => false,
		};
		let f = e.eval(&Env { q: &q, ph: &ph, w: &w });
		R::observe("value", f);
		let mut ge = vec![];
		let mut eq = vec![];
		let mut shown = vec![];
		for am in 0..1u32 << anc.len() {
			let mut m = vec![false; t.n];
			for (i, l) in users.iter().enumerate() {
				m[t.index[l]] = um >> i & 1 == 1;
			}
			for (i, a) in anc.iter().enumerate() {
				m[*a] = am >> i & 1 == 1;
			}
			let en = t.c + t.energy(&m);
			if am < 4 {
				R::observe("energy", en);
			}
			ge.push(f.leb(en));
			eq.push(f.eqb(en));
			shown.push(en);
		}
		check(B::all(ge), || format!("{} at {:032b}: energies {:?} go below the value {}", e.show(), um, shown, f));
		check(B::any(eq), || format!("{} at {:032b}: no auxiliary values reach the value {} (energies {:?})", e.show(), um, f, shown));
	}
}

pub struct Reduced<R: Num> {
	pub n: usize,
	pub c: R,
	pub index: BTreeMap<u16, usize>,
	pub weights: BTreeSet<u16>,
	pub model: M<R>,
}
impl<R: Num> Reduced<R> {
	pub fn weight(&self, strength: i64) -> impl Fn(u16) -> R {
		let k = self.weights.len().max(1) as i64;
		let w = if R::INT { R::int(strength / k) } else { R::frac(strength, k) };
		move |_| w
	}
	pub fn energy(&self, s: &[bool]) -> R {
		annealers::solution::SingleSolution::from_vec(s).with_energy(&self.model).energy.unwrap()
	}
}

/// The problem the scripted annealer gets, its constant, and which variable
/// is which label.
#[macro_export]
macro_rules! reduced {
	($r:ty, $compiled:expr, $strength:expr, $maxn:expr) => {{
		let compiled = &$compiled;
		set_mode(Mode::Opaque);
		let (_, weights) = $crate::scen_compile::ph_names(compiled.get_placeholders().into_iter());
		let run = |mask: u128| {
			let stub = Stub::<$r>::new(move |_, _| Answer::States(vec![mask]));
			let log = stub.log.clone();
			let mut s = SimpleSolver::with_solver(compiled, stub);
			s.iterations = 1;
			s.generations = 1;
			s.samples = 1;
			s.coeff_strength = <$r>::int($strength);
			let (e, view, _) = s.solve_with_constraints().expect("the scripted annealer does not fail");
			let m = log.lock().unwrap().models[0].clone();
			let mut v = std::collections::BTreeMap::new();
			for k in view.keys() {
				v.insert(*k, view[k]);
			}
			(e, v, m)
		};
		let (c, v0, model) = run(0);
		let n = annealers::model::FixedSingleModelView::size(&model);
		if n > $maxn {
			stop(Stop::Inconclusive(format!("{} variables after compilation", n)));
		}
		let mut index = std::collections::BTreeMap::new();
		for i in 0..n {
			let (_, v, _) = run(1 << i);
			for (k, b) in v {
				if b && !v0[&k] {
					index.insert(k, i);
				}
			}
		}
		set_mode(Mode::Order);
		$crate::scen_compile::Reduced { n, c, index, weights, model }
	}};
}

fn c02_expr<R: Num>(e: E<R>, strength: i64, maxn: usize) {
	note(|| e.show());
	let phv = phvars(&e);
	let compiled = e.build().compile();
	let dict: HashMap<u16, R> = phv.iter().map(|(k, v)| (*k, *v)).collect();
	let fed = compiled.feed_dict(dict);
	let t = reduced!(R, fed, strength, maxn);
	check_reduced(&e, &phv, &t, strength);
}

pub fn c02_template<R: Num>(k: usize) -> E<R> {
	let mut g = Gen::new(8, 2, 15, 127);
	let (x, s) = (|i| E::<R>::Bin(i), |i| E::<R>::Spin(i));
	let mon = |g: &mut Gen, v: &[u16]| {
		let mut f: Vec<E<R>> = vec![g.num()];
		f.extend(v.iter().map(|i| x(*i)));
		prod(f)
	};
	match k {
		0 => mon(&mut g, &[0, 1, 2]),
		1 => sum(vec![mon(&mut g, &[0, 1, 2]), mon(&mut g, &[0, 1, 3]), mon(&mut g, &[0]), mon(&mut g, &[0, 1]), g.num()]),
		2 => mon(&mut g, &[0, 1, 2, 3]),
		3 => mon(&mut g, &[0, 1, 2, 3, 4]),
		4 => sum(vec![mon(&mut g, &[0, 1, 2]), mon(&mut g, &[1, 2, 3]), mon(&mut g, &[2, 3, 4])]),
		5 => prod(vec![g.num(), s(0), s(1), s(2)]),
		6 => add(prod(vec![E::Ph(0), g.num(), x(0), x(1), x(2)]), mon(&mut g, &[0, 1])),
		7 => add(cons(0, add(mon(&mut g, &[0, 1, 2]), g.num())), cons(1, mon(&mut g, &[0, 1, 3]))),
		8 => pow(add(mon(&mut g, &[0]), mon(&mut g, &[1, 2])), 2),
		9 => sum(vec![mon(&mut g, &[0, 1, 2, 3]), mon(&mut g, &[0, 1, 2]), mon(&mut g, &[0, 1, 4])]),
		10 => prod(vec![add(x(0), g.num()), add(x(1), g.num()), add(s(2), g.num())]),
		11 => pen(mon(&mut g, &[0]), mul(g.num(), prod(vec![x(0), s(1), x(2)]))),
		12 => mon(&mut g, &[0, 1, 2, 3, 4, 5]),
		13 => sum(vec![mon(&mut g, &[0, 1, 2]), mon(&mut g, &[0, 1, 3]), mon(&mut g, &[0, 1, 4])]),
		14 => sum(vec![prod(vec![E::Ph(0), g.num(), x(0), x(1), x(2)]), prod(vec![E::Ph(1), g.num(), x(0), x(1), x(2)])]),
		15 => sum(vec![mon(&mut g, &[0, 1, 2]), mon(&mut g, &[0, 1, 3]), mon(&mut g, &[2, 3, 4]), mon(&mut g, &[0, 2, 4])]),
		16 => sum(vec![mon(&mut g, &[0, 1, 2, 3]), mon(&mut g, &[0, 1, 2, 4])]),
		17 => cons(0, cons(1, mon(&mut g, &[0, 1, 2]))),
		18 => sum(vec![mon(&mut g, &[0, 1, 2]), prod(vec![E::Ph(0), x(0), x(1), x(3)])]),
		19 => mon(&mut g, &[0, 1, 2, 3, 4, 5, 6]),
		_ => sum(vec![mon(&mut g, &[0, 1, 2, 3, 4]), mon(&mut g, &[0, 1, 2, 3])]),
	}
}

/// One product of many variables, and another one.
fn c02_high<R: Num>(d: u16) {
	let mut g = Gen::new(60, 2, 15, 127);
	let x = |i: u16| E::<R>::Bin(i);
	let mon = |g: &mut Gen, v: Vec<u16>| {
		let mut f: Vec<E<R>> = vec![g.num()];
		f.extend(v.iter().map(|i| x(*i)));
		prod(f)
	};
	let e = match choose(2) {
		0 => mon(&mut g, (0..d).collect()),
		_ => sum(vec![mon(&mut g, (0..d).collect()), g.num(), mon(&mut g, vec![0]), mon(&mut g, vec![1, d - 1])]),
	};
	let mut states: Vec<u32> = (0..=d).map(|k| (1u32 << k) - 1).collect();
	states.extend((0..d).map(|k| ((1u32 << d) - 1) & !(1 << k)));
	states.extend([0x5555u32, 0xaaaa, 0x3333, 0x9249, 0xcccc].iter().map(|m| m & ((1 << d) - 1)));
	note(|| e.show());
	let compiled = e.build().compile();
	let fed = compiled.feed_dict(HashMap::new());
	let t = reduced!(R, fed, 60, d as usize + 9);
	check_reduced_at(&e, &BTreeMap::new(), &t, 60, &states);
}
/// Many products that share two variables, the coefficients of the first and
/// the last symbolic.
fn c02_shared<R: Num>(n: u16) {
	let mut g = Gen::new(60, 2, 15, 127);
	let x = |i: u16| E::<R>::Bin(i);
	let coef = |g: &mut Gen, k: u16| if k == 0 || k == n - 1 { g.num() } else { num([3, -2, 5, -7, 1, -1][k as usize % 6]) };
	let e = sum((0..n).map(|k| prod(vec![coef(&mut g, k), x(0), x(1), x(k + 2)])).collect());
	let states: Vec<u32> = (0..1u32 << (n + 2)).filter(|m| m >> 2 == 0 || (m & 3 == 3 && m % 7 == 3) || (m >> 2).count_ones() as u16 >= n || m % 37 == 5).collect();
	note(|| e.show());
	let fed = e.build().compile().feed_dict(HashMap::new());
	let t = reduced!(R, fed, 60, n as usize + 6);
	check_reduced_at(&e, &BTreeMap::new(), &t, 60, &states);
}
/// Very many products of three to five variables, each apart from the others;
/// the lowest energy is found one group of auxiliary variables at a time.
fn c02_many<R: Num>(count: u16) {
	let mut g = Gen::new(60, 0, 15, 127);
	let x = |i: u16| E::<R>::Bin(i);
	let mut l = vec![];
	let mut next = 0;
	let mut groups = vec![];
	for k in 0..count {
		let d = 3 + k % 3;
		let c = if k == 1 || k + 1 == count { g.num() } else { num([3, -2, 5, -7, 1, -1][k as usize % 6]) };
		let vs: Vec<u16> = (next..next + d).collect();
		next += d;
		let mut f = vec![c];
		f.extend(vs.iter().map(|i| x(*i)));
		l.push(prod(f));
		groups.push(vs);
	}
	let e = crate::scen_solve::balanced(l);
	note(|| format!("{} products apart from each other", count));
	let fed = e.build().compile().feed_dict(HashMap::new());
	set_mode(Mode::Opaque);
	let state: Arc<Mutex<Vec<bool>>> = Arc::new(Mutex::new(vec![]));
	let s2 = state.clone();
	let stub = Stub::<R>::new(move |_, n| {
		let s = s2.lock().unwrap();
		Answer::Bits(vec![(0..n).map(|i| s.get(i).copied().unwrap_or(false)).collect()])
	});
	let log = stub.log.clone();
	let mut s = SimpleSolver::with_solver(&fed, stub);
	s.iterations = 1;
	s.generations = 1;
	s.samples = 1;
	let (c, _, _) = s.solve_with_constraints().expect("the scripted annealer does not fail");
	let model = log.lock().unwrap().models[0].clone();
	let n = annealers::model::FixedSingleModelView::size(&model);
	let mut index: BTreeMap<u16, usize> = (0..next).map(|k| (k, 0)).collect();
	for b in 0..16 {
		if n >> b == 0 {
			break;
		}
		*state.lock().unwrap() = (0..n).map(|i| i >> b & 1 == 1).collect();
		let (_, v, _) = s.solve_with_constraints().expect("the scripted annealer does not fail");
		for (k, i) in index.iter_mut() {
			match v.get(k) {
				Some(true) => *i |= 1 << b,
				Some(false) => (),
				None => check(B::k(false), || format!("no variable {}", k)),
			}
		}
	}
	set_mode(Mode::Order);
	let w = |i: usize, j: usize| annealers::model::FixedSingleModelView::get_weight(&model, &[i.min(j), i.max(j)]);
	let z = R::int(0);
	let zero = |a: R| branch(a.eqb(z));
	let user: BTreeMap<usize, u16> = index.iter().map(|(k, i)| (*i, *k)).collect();
	check(B::k(user.len() == next as usize), || format!("{} places for {} variables", user.len(), next));
	// what is linked with what
	let mut link: Vec<Vec<(usize, R)>> = vec![vec![]; n];
	for i in 0..n {
		for j in i + 1..n {
			let a = w(i, j);
			if !zero(a) {
				link[i].push((j, a));
				link[j].push((i, a));
			}
		}
	}
	for pat in 0..6u16 {
		let on = |k: u16| match pat {
			0 => true,
			1 => groups.iter().position(|v| v.contains(&k)).unwrap() as u16 % 2 == 0,
			2 => k % 7 != 3,
			3 => k < 192,
			4 => k % 5 < 2,
			_ => k >= next / 2,
		};
		let mut st: Vec<bool> = (0..n).map(|i| user.get(&i).map(|k| on(*k)).unwrap_or(false)).collect();
		let mut low = c;
		for i in 0..n {
			if st[i] {
				low += w(i, i);
				for (j, a) in link[i].iter() {
					if *j > i && st[*j] {
						low += *a;
					}
				}
			}
		}
		// groups of auxiliary variables
		let mut done = vec![false; n];
		for a in (0..n).filter(|i| !user.contains_key(i)) {
			if done[a] {
				continue;
			}
			let mut grp = vec![a];
			done[a] = true;
			let mut k = 0;
			while k < grp.len() {
				for (j, _) in link[grp[k]].iter() {
					if !user.contains_key(j) && !done[*j] {
						done[*j] = true;
						grp.push(*j);
					}
				}
				k += 1;
			}
			if grp.len() > 10 {
				stop(Stop::Inconclusive(format!("{} auxiliary variables belong together", grp.len())));
			}
			cover("auxiliary variables");
			let mut best = z;
			for m in 1..1u32 << grp.len() {
				for (b, i) in grp.iter().enumerate() {
					st[*i] = m >> b & 1 == 1;
				}
				let mut en = z;
				for i in &grp {
					if st[*i] {
						en += w(*i, *i);
						for (j, a) in link[*i].iter() {
							if st[*j] && (user.contains_key(j) || j > i) {
								en += *a;
							}
						}
					}
				}
				if branch(en.ltb(best)) {
					best = en;
				}
			}
			for i in &grp {
				st[*i] = false;
			}
			low += best;
		}
		let q = |k: u16| on(k);
		let none = |_: u16| z;
		let f = e.eval(&Env { q: &q, ph: &none, w: &none });
		R::observe("value", f);
		check(low.eqb(f), || format!("{} products, assignment {}: the lowest energy is {} instead of {}", count, pat, low, f));
	}
}
fn c02_t<R: Num>(k: usize) {
	let e: E<R> = c02_template(k);
	c02_expr(e, 60, 12);
}

/// Every coefficient expression with n operators, before a product of d
/// variables.
fn c02_coef<R: Num>(n: usize, d: u16, maxp: u16, ops: u16) {
	let mut g = Gen::new(1, maxp, L_NUM | L_PH, ops);
	let k: E<R> = gen_size(&mut g, n);
	let mut f = vec![k];
	f.extend((0..d).map(|i| E::Bin(i)));
	c02_expr(prod(f), 60, 12);
}

/// Every set of products of three or more variables.
fn c02_sets<R: Num>(vars: u16, count: usize, maxd: u32, phs: bool) {
	let mons: Vec<u32> = (0..1u32 << vars).filter(|m| m.count_ones() >= 3 && m.count_ones() <= maxd).collect();
	let mut g = Gen::new(8, 2, 15, 127);
	let mut from = 0;
	let mut terms = vec![];
	for i in 0..count {
		if from >= mons.len() {
			break;
		}
		let k = from + choose(mons.len() - from);
		from = k + 1;
		let mut f: Vec<E<R>> = vec![g.num()];
		if phs && i == 0 {
			f.push(E::Ph(0));
		}
		f.extend((0..vars).filter(|b| mons[k] >> b & 1 == 1).map(|i| E::Bin(i)));
		terms.push(prod(f));
	}
	c02_expr(sum(terms), 60, 16);
}

// ---------------------------------------------------------------- C03

impl<R: Num> E<R> {
	fn subst(&self, f: &dyn Fn(u16) -> Option<R>) -> E<R> {
		let b = |e: &E<R>| Box::new(e.subst(f));
		match self {
			E::Ph(p) => match f(*p) {
				Some(r) => E::Num(r),
				None => E::Ph(*p),
			},
			E::Add(x, y) => E::Add(b(x), b(y)),
			E::Sub(x, y) => E::Sub(b(x), b(y)),
			E::Mul(x, y) => E::Mul(b(x), b(y)),
			E::Pen(x, y) => E::Pen(b(x), b(y)),
			E::Neg(x) => E::Neg(b(x)),
			E::Pow(x, n) => E::Pow(b(x), *n),
			E::Cons(l, x) => E::Cons(*l, b(x)),
			o => o.clone(),
		}
	}
}

/// The labels reported as unsatisfied at every assignment of the user's
/// variables (auxiliary ones all false).
#[macro_export]
macro_rules! verdicts {
	($r:ty, $compiled:expr, $index:expr, $mode:expr) => {{
		let compiled = &$compiled;
		let mut out: std::collections::BTreeMap<Vec<u16>, std::collections::BTreeSet<u16>> = Default::default();
		let users: Vec<u16> = $index.keys().cloned().collect();
		set_mode($mode);
		for um in 0..1u32 << users.len() {
			let mut mask = 0u128;
			let mut key = vec![];
			for (i, l) in users.iter().enumerate() {
				if um >> i & 1 == 1 {
					mask |= 1 << $index[l];
					key.push(*l);
				}
			}
			let stub = Stub::<$r>::new(move |_, _| Answer::States(vec![mask]));
			let mut s = SimpleSolver::with_solver(compiled, stub);
			s.iterations = 1;
			s.generations = 1;
			s.samples = 1;
			// the energy plays no role with a single sample
			let (_, _, l) = s.solve_with_constraints().expect("the scripted annealer does not fail");
			out.insert(key, l.into_iter().cloned().collect());
		}
		set_mode(Mode::Order);
		out
	}};
}

fn c03_expr<R: Num>(e: E<R>, strength: i64, route: usize, verdict: bool) {
	let phv = phvars(&e);
	// values for labels that do not occur change nothing
	let extra = R::var("extra", 0, 1000);
	let mut dict: HashMap<u16, R> = phv.iter().map(|(k, v)| (*k, *v)).collect();
	dict.insert(77, extra);
	let none: HashMap<u16, R> = HashMap::new();
	let names = ["fed after compiling", "substituted before compiling", "written as literals", "first before, the others after compiling", "fed after compiling in two steps"];
	note(|| format!("{}: {}", names[route], e.show()));
	let occurring: BTreeSet<u16> = e
		.expand()
		.0
		.values()
		.flat_map(|s| s.iter().filter_map(|a| if let Atom::Ph(p) = a { Some(*p) } else { None }))
		.collect();
	let first = phv.keys().next().cloned();
	let mut d1: HashMap<u16, R> = HashMap::new();
	if let Some(p) = first {
		d1.insert(p, phv[&p]);
	}
	let fed = match route {
		0 => {
			let c = e.build().compile();
			let (p, _) = ph_names(c.get_placeholders().into_iter());
			check(B::k(p == occurring), || format!("{} reports the placeholders {:?}", e.show(), p));
			if !p.is_empty() {
				cover("placeholder reported");
			}
			c.feed_dict(dict)
		}
		1 => {
			let c = e.build().feed_dict(&dict).compile();
			let (p, _) = ph_names(c.get_placeholders().into_iter());
			check(B::k(p.is_empty()), || format!("{} keeps the placeholders {:?} after feeding all", e.show(), p));
			c.feed_dict(none)
		}
		2 => {
			let c = e.subst(&|p| Some(phv[&p])).build().compile();
			let (p, _) = ph_names(c.get_placeholders().into_iter());
			check(B::k(p.is_empty()), || format!("placeholders {:?} in an expression without any", p));
			c.feed_dict(dict)
		}
		_ => {
			let c = e.build().feed_dict(&d1).compile();
			let (p, _) = ph_names(c.get_placeholders().into_iter());
			let mut left = occurring.clone();
			if let Some(f) = first {
				left.remove(&f);
			}
			check(B::k(p == left), || format!("{} reports {:?} after feeding {:?}", e.show(), p, first));
			c.feed_dict(dict)
		}
	};
	let (p, _) = ph_names(fed.get_placeholders().into_iter());
	check(B::k(p.is_empty()), || format!("{} keeps the placeholders {:?} after feeding all", e.show(), p));
	let t = reduced!(R, fed, strength, 10);
	check_reduced(&e, &phv, &t, strength);
	if e.expand().degree() <= 2 {
		check(B::k(t.n == e.qubits().len()), || format!("{} variables for {}", t.n, e.show()));
	}
	if verdict {
		for (on, labels) in verdicts!(R, fed, t.index, Mode::Sign) {
			let q = |l: u16| on.contains(&l);
			let ph = |p: u16| phv[&p];
			for l in e.clabels() {
				let viol = B::any(
					e.constraints().into_iter().filter(|(x, _)| *x == l).map(|(_, b)| b.cvalue(&q, &ph).eqb(R::int(0)).not()).collect(),
				);
				let rep = labels.contains(&l);
				cover(if rep { "violated" } else { "satisfied" });
				check(if rep { viol } else { viol.not() }, || format!("constraint {} of {} reported {} at {:?}", l, e.show(), rep, on));
			}
		}
	}
}

fn c03_t<R: Num>(k: usize) {
	let mut g = Gen::new(8, 3, 15, 127);
	let (x, s) = (|i| E::<R>::Bin(i), |i| E::<R>::Spin(i));
	let p = |i| E::<R>::Ph(i);
	let mut verdict = false;
	let e: E<R> = match k {
		0 => add(mul(p(0), x(0)), mul(p(1), mul(x(1), g.num()))),
		1 => {
			verdict = true;
			cons(0, mul(p(0), sub(x(0), s(1))))
		}
		2 => pen(x(0), mul(p(0), mul(s(1), g.num()))),
		3 => {
			verdict = true;
			add(pen(cons(0, add(mul(p(0), x(0)), mul(g.num(), x(1)))), mul(p(1), x(0))), x(1))
		}
		4 => pow(add(mul(p(0), x(0)), sub(p(1), x(1))), 2),
		5 => mul(mul(p(0), p(0)), mul(x(0), add(x(1), p(1)))),
		6 => prod(vec![p(0), g.num(), x(0), x(1), x(2)]),
		7 => add(prod(vec![p(0), g.num(), x(0), x(1), x(2)]), prod(vec![p(1), x(0), x(1), x(3)])),
		8 => cons(0, prod(vec![p(0), x(0), s(1), x(2)])),
		9 => {
			verdict = true;
			pen(mul(p(0), x(0)), cons(0, mul(pen(p(1), mul(p(2), x(1))), sub(x(0), p(0)))))
		}
		10 => add(p(0), mul(neg(p(1)), x(0))),
		_ => {
			verdict = true;
			// two constraints, one placeholder in both
			add(cons(0, sub(mul(p(0), x(0)), num(3))), cons(1, mul(sub(p(0), num(2)), x(1))))
		}
	};
	let route = choose(4);
	c03_expr(e, 60, route, verdict);
}

/// Very many placeholders.
fn c03_wide<R: Num>(m: u16) {
	let mut g = Gen::new(30, 0, 15, 127);
	let x = |i: u16| E::<R>::Bin(i);
	let mut l = vec![];
	for i in 0..m {
		let c = if i % 50 == 7 { g.num() } else { num(i as i64 % 7 - 3) };
		let t = prod(vec![c, E::Ph(i), x(i)]);
		l.push(match i % 4 {
			1 => cons(i, t),
			2 => pen(x(i), t),
			_ => t,
		});
		l.push(mul(E::Ph(i / 2), x(i)));
	}
	let e = crate::scen_solve::balanced(l);
	let vals: BTreeMap<u16, R> = (0..m).map(|p| (p, if p % 40 == 3 || p + 1 == m { R::var(&format!("p{}", p), 0, 50) } else { R::int(p as i64 % 11) })).collect();
	let mut dict: HashMap<u16, R> = vals.iter().map(|(k, v)| (*k, *v)).collect();
	for k in 0..40 {
		dict.insert(m + 5 + k, R::int(k as i64));
	}
	let route = choose(3);
	note(|| format!("{} placeholders, way {}", m, route));
	let fed = match route {
		0 => {
			let c = e.build().compile();
			let (p, _) = ph_names(c.get_placeholders().into_iter());
			check(B::k(p == (0..m).collect()), || format!("{} of {} placeholders reported", p.len(), m));
			c.feed_dict(dict)
		}
		1 => {
			let c = e.build().feed_dict(&dict).compile();
			let (p, _) = ph_names(c.get_placeholders().into_iter());
			check(B::k(p.is_empty()), || format!("keeps the placeholders {:?} after feeding all", p));
			c.feed_dict(HashMap::new())
		}
		_ => e.subst(&|p| Some(vals[&p])).build().compile().feed_dict(dict),
	};
	let (p, cs) = ph_names(fed.get_placeholders().into_iter());
	check(B::k(p.is_empty()), || format!("keeps the placeholders {:?} after feeding all", p));
	let strength = 60;
	let k = cs.len().max(1) as i64;
	let wt = R::frac(strength, k);
	set_mode(Mode::Opaque);
	let state: Arc<Mutex<Vec<bool>>> = Arc::new(Mutex::new(vec![]));
	let s2 = state.clone();
	let stub = Stub::<R>::new(move |_, n| {
		let s = s2.lock().unwrap();
		Answer::Bits(vec![(0..n).map(|i| s.get(i).copied().unwrap_or(false)).collect()])
	});
	let mut s = SimpleSolver::with_solver(&fed, stub);
	s.iterations = 1;
	s.generations = 1;
	s.samples = 1;
	s.coeff_strength = R::int(strength);
	let ph = |p: u16| vals[&p];
	let w = |_: u16| wt;
	for pat in 0..8usize {
		*state.lock().unwrap() = (0..m as usize).map(|i| [true, i % 2 == 0, i % 3 == 1, i < 50, i >= 64, i / 4 % 2 == 1, i / 16 % 2 == 0, i / 32 % 2 == 1][pat]).collect();
		let (en, v, _) = s.solve_with_constraints().expect("the scripted annealer does not fail");
		let q = |k: u16| v.get(&k) == Some(true);
		let want = e.eval(&Env { q: &q, ph: &ph, w: &w });
		R::observe("energy", en);
		check(en.eqb(want), || format!("{} placeholders, way {}: energy {} instead of {}", m, route, en, want));
	}
	cover("has a placeholder");
	set_mode(Mode::Order);
}

fn c03_size<R: Num>(n: usize, leaves: u16, ops: u16) {
	let mut g = Gen::new(2, 2, leaves, ops);
	let e: E<R> = gen_size(&mut g, n);
	if e.phs().is_empty() || e.expand().degree() > 2 {
		return;
	}
	cover("has a placeholder");
	let route = choose(4);
	c03_expr(e, 60, route, false);
}

pub fn register(prop: &str, thorough: bool, seed: u64, v: &mut Vec<Scen>) {
	let all = L_NUM | L_BIN | L_SPIN | L_PH;
	match prop {
		"C01" => {
			for k in 0..=12usize {
				let sd: Vec<u64> = if thorough { (seed..seed + 6).collect() } else { vec![seed, seed + 1] };
				scen!(v, format!("template{}", k), "expression template with symbolic coefficients", real, sd.clone(), vec!["degree at most two"], c01_big(k));
				scen!(v, format!("template{}-int", k), "expression template with symbolic integer coefficients", int, vec![seed], vec!["degree at most two"], c01_big(k));
			}
			for n in if thorough { vec![70u16, 270, 600, 1100] } else { vec![270, 600] } {
				scen!(v, format!("many{}", n), "an expression of many variables", int, vec![seed], vec![], wide_expr(n, false));
				scen!(v, format!("many{}-real", n), "an expression of many variables", real, vec![seed], vec![], wide_expr(n, false));
			}
			let mut sizes = vec![
				(0usize, 2u16, all, 127u16),
				(1, 2, all, 127),
				(2, 2, all, 127),
				(3, 2, L_NUM | L_BIN, O_ADD | O_MUL | O_CONS | O_PEN),
			];
			if thorough {
				sizes.push((3, 2, all, 127 & !O_SUB));
				sizes.push((4, 2, L_NUM | L_BIN, O_ADD | O_MUL | O_PEN));
			}
			for (i, (n, q, l, o)) in sizes.into_iter().enumerate() {
				scen!(v, format!("size{}-{}", n, i), format!("every expression with {} operators (leaf kinds {:#x}, operators {:#x})", n, l, o), real, vec![seed], vec!["degree at most two"], c01_size(n, q, l, o));
			}
		}
		"C02" => {
			for k in 0..=20usize {
				let sd: Vec<u64> = if thorough { (seed..seed + 12).collect() } else { (seed..seed + 3).collect() };
				scen!(v, format!("reduce{}", k), "expression of degree three or more with symbolic coefficients", real, sd, vec!["auxiliary variables"], c02_t(k));
			}
			for d in if thorough { vec![7u16, 8, 9, 10, 11, 12, 13] } else { vec![8, 9, 10] } {
				scen!(v, format!("high{}", d), "a product of many variables", real, vec![seed], vec!["auxiliary variables"], c02_high(d));
				scen!(v, format!("high{}-int", d), "a product of many variables", int, vec![seed], vec!["auxiliary variables"], c02_high(d));
			}
			for n in if thorough { vec![4u16, 6, 8, 10, 12, 16] } else { vec![4, 6, 8, 10] } {
				scen!(v, format!("shared{}", n), "many products that share two variables", real, vec![seed], vec!["auxiliary variables"], c02_shared(n));
			}
			for n in if thorough { vec![20u16, 70, 140] } else { vec![20, 70] } {
				scen!(v, format!("apart{}", n), "many products apart from each other", real, vec![seed], vec!["auxiliary variables"], c02_many(n));
			}
			let all = O_ADD | O_SUB | O_MUL | O_NEG;
			let mut l = vec![(0usize, 3u16, 1u16, all), (1, 3, 2, all), (2, 3, 2, all), (1, 4, 1, all), (1, 5, 1, all), (3, 3, 1, O_SUB | O_NEG)];
			if thorough {
				l.extend([(3usize, 3u16, 1u16, all), (2, 4, 2, all), (4, 3, 1, O_SUB | O_NEG), (2, 5, 1, all)]);
			}
			for (n, d, p, o) in l {
				scen!(v, format!("coef{}-d{}-p{}-o{}", n, d, p, o), format!("every coefficient of {} operators before a product of {} variables", n, d), real, vec![seed], vec!["auxiliary variables"], c02_coef(n, d, p, o));
				if n <= 1 {
					scen!(v, format!("coef{}-d{}-p{}-o{}-int", n, d, p, o), format!("every coefficient of {} operators before a product of {} variables", n, d), int, vec![seed], vec!["auxiliary variables"], c02_coef(n, d, p, o));
				}
			}
			let mut l = vec![(4u16, 2usize, 4u32, false), (5, 2, 4, false), (4, 3, 4, false), (4, 2, 4, true)];
			if thorough {
				l.extend([(5u16, 3usize, 4u32, false), (5, 2, 5, true), (6, 2, 4, false), (4, 4, 4, false), (4, 3, 4, true)]);
			}
			for (n, c, d, p) in l {
				scen!(v, format!("sets{}-{}-{}{}", n, c, d, if p { "-ph" } else { "" }), format!("every set of {} products of three to {} out of {} variables", c, d, n), real, vec![seed], vec!["auxiliary variables"], c02_sets(n, c, d, p));
			}
		}
		"C03" => {
			for k in 0..=11usize {
				let sd: Vec<u64> = if thorough { (seed..seed + 8).collect() } else { vec![seed, seed + 1] };
				scen!(v, format!("feed{}", k), "expression with placeholders, four ways to give their values", real, sd.clone(), vec![], c03_t(k));
				scen!(v, format!("feed{}-int", k), "the same over the integers", int, sd, vec![], c03_t(k));
			}
			let sizes: Vec<(usize, u16, u16)> = if thorough {
				vec![(1, all, 127), (2, all, 127), (3, L_PH | L_BIN, O_ADD | O_MUL | O_CONS | O_PEN)]
			} else {
				vec![(1, all, 127), (2, L_PH | L_BIN | L_NUM, O_ADD | O_MUL | O_CONS | O_PEN | O_NEG)]
			};
			for m in if thorough { vec![70u16, 130, 300] } else { vec![70, 130] } {
				scen!(v, format!("feed-many{}", m), "very many placeholders", real, vec![seed], vec!["has a placeholder"], c03_wide(m));
			}
			for (n, l, o) in sizes {
				scen!(v, format!("feed-size{}", n), format!("every expression with {} operators and a placeholder", n), real, vec![seed], vec!["has a placeholder"], c03_size(n, l, o));
			}
		}
		_ => {}
	}
}
