//! Scenarios about the operators of expressions: C08, and about rewriting
//! them: C23.
use crate::ast::*;
use crate::eng::*;
use crate::run::Scen;
use crate::scen;
use crate::scen_compile::*;
use rustqubo::Expr;
use std::collections::BTreeMap;

/// Values of all labels.
struct Vals<R> {
	q: BTreeMap<u16, bool>,
	ph: BTreeMap<u16, R>,
	w: BTreeMap<u16, R>,
}
impl<R: Num> Vals<R> {
	fn q(&self, l: u16) -> bool {
		self.q.get(&l).copied().unwrap_or(false)
	}
	fn ph(&self, l: u16) -> R {
		self.ph.get(&l).copied().unwrap_or(R::int(7919))
	}
	fn w(&self, l: u16) -> R {
		self.w.get(&l).copied().unwrap_or(R::int(7907))
	}
	fn of(e: &E<R>) -> Self {
		let qs = e.qubits();
		let m = choose(1 << qs.len());
		let q = qs.into_iter().enumerate().map(|(i, l)| (l, m >> i & 1 == 1)).collect();
		let mut ls = std::collections::BTreeSet::new();
		e.walk(&mut |x| {
			if let E::Cons(l, _) = x {
				ls.insert(*l);
			}
		});
		let w = ls.into_iter().map(|l| (l, R::var(&format!("w{}", l), 1, 50))).collect();
		Vals { q, ph: phvars(e), w }
	}
}

/// (objective, penalty) of an expression of the library, read off its public
/// structure.
fn value<R: Num>(x: &X<R>, v: &Vals<R>) -> (R, R) {
	let z = R::int(0);
	match x {
		Expr::Number(n) => (*n, z),
		Expr::Binary(q) => (R::int(v.q(*q) as i64), z),
		Expr::Spin(q) => (R::int(if v.q(*q) { 1 } else { -1 }), z),
		Expr::Placeholder(p) => (v.ph(*p), z),
		Expr::Add(a, b) => {
			let (a, b) = (value(a, v), value(b, v));
			(a.0 + b.0, a.1 + b.1)
		}
		Expr::Mul(a, b) => {
			let (a, b) = (value(a, v), value(b, v));
			(a.0 * b.0, a.1 + b.1)
		}
		Expr::Constraint { label, expr } => {
			let e = value(expr, v);
			(e.0 * v.w(*label), e.1)
		}
		Expr::WithPenalty { expr, penalty } => {
			let (e, p) = (value(expr, v), value(penalty, v));
			(e.0, e.1 + p.0 + p.1)
		}
	}
}

/// The expression built with the assigning operators.
fn build_assign<R: Num>(e: &E<R>) -> X<R> {
	match e {
		E::Add(a, b) => {
			let mut x = build_assign(a);
			match &**b {
				E::Num(n) => x += *n,
				b => x += build_assign(b),
			}
			x
		}
		E::Sub(a, b) => {
			let mut x = build_assign(a);
			match &**b {
				E::Num(n) => x -= *n,
				b => x -= build_assign(b),
			}
			x
		}
		E::Mul(a, b) => {
			let mut x = build_assign(a);
			match &**b {
				E::Num(n) => x *= *n,
				b => x *= build_assign(b),
			}
			x
		}
		E::Pow(a, n) => {
			let mut x = build_assign(a);
			x ^= *n;
			x
		}
		E::Neg(a) => -build_assign(a),
		E::Num(n) => Expr::from(*n),
		E::Cons(l, e) => Expr::Constraint { label: *l, expr: Box::new(build_assign(e)) },
		E::Pen(e, p) => Expr::WithPenalty { expr: Box::new(build_assign(e)), penalty: Box::new(build_assign(p)) },
		e => e.build(),
	}
}

fn ops<R: Num>(e: E<R>) {
	note(|| e.show());
	let v = Vals::of(&e);
	let (q, ph, w) = (|l| v.q(l), |l| v.ph(l), |l| v.w(l));
	let (a, b) = e.mp_pub(&Env { q: &q, ph: &ph, w: &w });
	let assign = choose(2) == 1;
	let x = if assign { build_assign(&e) } else { e.build() };
	let (c, d) = value(&x, &v);
	R::observe("value", c);
	R::observe("penalty", d);
	check(c.eqb(a), || format!("{} became {:?} with the value {} instead of {}", e.show(), x, c, a));
	check(d.eqb(b), || format!("{} became {:?} with the penalty {} instead of {}", e.show(), x, d, b));
}
fn ops_size<R: Num>(n: usize, leaves: u16, kinds: u16) {
	let mut g = Gen::new(2, 1, leaves, kinds);
	g.bounds(9);
	ops(gen_size::<R>(&mut g, n))
}
fn base<R: Num>(g: &mut Gen, k: usize) -> E<R> {
	let (x, s) = (|i| E::<R>::Bin(i), |i| E::<R>::Spin(i));
	match k {
		0 => g.num(),
		1 => x(0),
		2 => s(0),
		3 => E::Ph(0),
		4 => add(x(0), g.num()),
		5 => sub(g.num(), s(0)),
		6 => cons(1, sub(x(0), num(2))),
		7 => pen(add(s(1), num(1)), sub(x(0), g.num())),
		_ => neg(mul(g.num(), add(x(0), x(1)))),
	}
}
/// Powers.
fn ops_pow<R: Num>(max: usize) {
	let mut g = Gen::new(8, 2, 15, 127);
	g.bounds(3);
	let b = base::<R>(&mut g, choose(9));
	let n = choose(max + 1);
	cover(if n > 4 { "high power" } else { "low power" });
	let e = pow(b, n);
	// a power among other operators
	let e = match choose(4) {
		0 => e,
		1 => mul(e, num(2)),
		2 => sub(num(5), e),
		_ => pow(e, choose(3)),
	};
	ops(e)
}
/// High powers: the exponent shows in the penalty, and in the value as far as
/// numbers go.
fn ops_high<R: Num>(ns: &[usize]) {
	let mut g = Gen::new(8, 2, 15, 127);
	g.bounds(1000);
	let n = ns[choose(ns.len())];
	let b: E<R> = match choose(if n <= 100 { 6 } else { 4 }) {
		0 => pen(E::Spin(0), g.num()),
		1 => pen(neg(E::Spin(0)), mul(g.num(), E::Bin(1))),
		2 => E::Spin(0),
		3 => pen(E::Bin(0), cons(0, add(g.num(), E::Spin(0)))),
		4 => num(2),
		_ => add(E::Bin(0), num(1)),
	};
	cover("high power");
	ops(pow(b, n))
}
/// Sequences of operators applied to one expression.
fn ops_chain<R: Num>(len: usize) {
	let mut g = Gen::new(8, 2, 15, 127);
	g.bounds(5);
	let mut e: E<R> = base(&mut g, choose(4));
	for _ in 0..len {
		let op = choose(5);
		if op == 3 {
			e = pow(e, choose(4));
			continue;
		}
		if op == 4 {
			e = neg(e);
			continue;
		}
		// the operand: a number, another expression, or the expression itself
		let o = match choose(4) {
			0 => g.num(),
			1 => E::Bin(1),
			2 => sub(E::Spin(0), g.num()),
			_ => e.clone(),
		};
		e = match op {
			0 => add(e, o),
			1 => sub(e, o),
			_ => mul(e, o),
		};
	}
	ops(e)
}
const MARK: u32 = 0x5AFE_C0DE;
thread_local! {
	static LABELS: std::cell::Cell<(i64, i64)> = Default::default();
}
/// A label which notices how often it is dropped.
#[derive(Debug, PartialEq, Eq, PartialOrd, Ord, Hash)]
struct Lab(u32, u16);
impl Lab {
	fn new(n: u16) -> Self {
		LABELS.with(|c| c.set((c.get().0 + 1, c.get().1)));
		Lab(MARK, n)
	}
}
impl Clone for Lab {
	fn clone(&self) -> Self {
		Lab::new(self.1)
	}
}
impl Drop for Lab {
	fn drop(&mut self) {
		let bad = (std::mem::replace(&mut self.0, 0) != MARK) as i64;
		LABELS.with(|c| c.set((c.get().0 - 1, c.get().1 + bad)));
	}
}
type L<R> = Expr<Lab, Lab, Lab, R>;
fn label_expr<R: Num>(k: usize, n: R) -> L<R> {
	let l = |i| Lab::new(i);
	match k {
		0 => Expr::Number(n),
		1 => Expr::Binary(l(1)),
		2 => Expr::Spin(l(2)),
		3 => Expr::Placeholder(l(3)),
		4 => Expr::Add(Box::new(Expr::Binary(l(4))), Box::new(Expr::Spin(l(5)))),
		5 => Expr::Mul(Box::new(Expr::Number(n)), Box::new(Expr::Placeholder(l(6)))),
		6 => Expr::Constraint { label: l(7), expr: Box::new(Expr::Binary(l(8))) },
		_ => Expr::WithPenalty { expr: Box::new(Expr::Spin(l(9))), penalty: Box::new(Expr::Binary(l(10))) },
	}
}
/// The labels in order.
fn labels_of<R: Num>(x: &L<R>, v: &mut Vec<u16>) {
	match x {
		Expr::Number(_) => {}
		Expr::Binary(l) | Expr::Spin(l) | Expr::Placeholder(l) => {
			check(B::k(l.0 == MARK), || "a dropped label".to_string());
			v.push(l.1)
		}
		Expr::Add(a, b) | Expr::Mul(a, b) => {
			labels_of(a, v);
			labels_of(b, v)
		}
		Expr::Constraint { label, expr } => {
			check(B::k(label.0 == MARK), || "a dropped label".to_string());
			v.push(label.1);
			labels_of(expr, v)
		}
		Expr::WithPenalty { expr, penalty } => {
			labels_of(expr, v);
			labels_of(penalty, v)
		}
	}
}
fn labels_in<R: Num>(x: &L<R>) -> Vec<u16> {
	let mut v = vec![];
	labels_of(x, &mut v);
	v.sort();
	v
}
/// Operators keep the labels of their operands, drop none they keep and none
/// they never had.
fn ops_labels<R: Num>() {
	LABELS.with(|c| c.set((0, 0)));
	let n = R::var("n", -9, 9);
	let a = label_expr(choose(8), n);
	let mut want = labels_in(&a);
	let op = choose(11);
	let other = |want: &mut Vec<u16>| {
		let b = label_expr(choose(8), n);
		want.extend(labels_in(&b));
		want.sort();
		b
	};
	let plain = |mut x: L<R>| {
		match op {
			3 => x += n,
			4 => x -= n,
			5 => x *= n,
			_ => x ^= 1,
		}
		x
	};
	let x = match op {
		0 => a + other(&mut want),
		1 => a - other(&mut want),
		2 => a * other(&mut want),
		3 | 4 | 5 | 6 => plain(a),
		7 => -a,
		_ => {
			let mut x = a;
			let b = other(&mut want);
			match op {
				8 => x += b,
				9 => x -= b,
				_ => x *= b,
			}
			x
		}
	};
	let got = labels_in(&x);
	check(B::k(got == want), || format!("the labels {:?} became {:?}", want, got));
	let (live, bad) = LABELS.with(|c| c.get());
	check(B::k(bad == 0), || format!("{} labels were dropped that were never made", bad));
	check(B::k(live == got.len() as i64), || format!("{} labels are alive instead of {} in {:?}", live, got.len(), x));
	drop(x);
	let (live, bad) = LABELS.with(|c| c.get());
	check(B::k(live == 0 && bad == 0), || format!("{} labels left, {} dropped that were never made", live, bad));
	cover("labels");
}
fn ops_consts<R: Num>() {
	let v = Vals::<R> { q: Default::default(), ph: Default::default(), w: Default::default() };
	let (a, b) = (value(&X::<R>::zero(), &v), value(&X::<R>::one(), &v));
	check(a.0.eqb(R::int(0)).and(a.1.eqb(R::int(0))), || "zero".to_string());
	check(b.0.eqb(R::int(1)).and(b.1.eqb(R::int(0))), || "one".to_string());
	let k = R::var("k", -1000, 1000);
	let c = value(&X::<R>::from(k), &v);
	R::observe("number", c.0);
	check(c.0.eqb(k), || "a number".to_string());
}

// ---------------------------------------------------------------- C23

impl<R: Num> E<R> {
	/// Replacement of leaves and labels.
	fn rewrite(&self, f: &mut dyn FnMut(&E<R>) -> Option<E<R>>) -> E<R> {
		let e = f(self).unwrap_or_else(|| self.clone());
		let mut b = |e: &E<R>| Box::new(e.rewrite(f));
		match &e {
			E::Add(x, y) => E::Add(b(x), b(y)),
			E::Sub(x, y) => E::Sub(b(x), b(y)),
			E::Mul(x, y) => E::Mul(b(x), b(y)),
			E::Pen(x, y) => E::Pen(b(x), b(y)),
			E::Neg(x) => E::Neg(b(x)),
			E::Pow(x, n) => E::Pow(b(x), *n),
			E::Cons(l, x) => E::Cons(*l, b(x)),
			o => o.clone(),
		}
	}
}
/// What a rewriting function does: to expressions of the library and to ours.
fn map_check<R: Num>(e: E<R>, how: usize) {
	note(|| format!("{}: {}", how, e.show()));
	let d = R::var("d", -9, 9);
	let mut calls = 0usize;
	let before = e.build();
	let nodes = count(&before);
	let same = before.clone();
	let after = before.map(&mut |x| {
		calls += 1;
		match (how, x) {
			(0, x) => x,
			(1, Expr::Binary(q)) => Expr::Binary(q + 20),
			(1, Expr::Spin(q)) => Expr::Spin(q + 20),
			(2, Expr::Placeholder(_)) => Expr::Number(d),
			(3, Expr::Constraint { label, expr }) => Expr::Constraint { label: label + 20, expr },
			(4, Expr::WithPenalty { expr, penalty: _ }) => Expr::WithPenalty { expr, penalty: Box::new(Expr::Number(d)) },
			// a leaf becomes a sum (of which the parts are no spins)
			(5, Expr::Spin(q)) => Expr::Number(d) * Expr::Binary(q) - Expr::Binary(q),
			(6, Expr::Constraint { label: _, expr }) => *expr,
			(_, x) => x,
		}
	});
	let want = match how {
		0 => e.clone(),
		1 => e.rewrite(&mut |x| match x {
			E::Bin(q) => Some(E::Bin(q + 20)),
			E::Spin(q) => Some(E::Spin(q + 20)),
			_ => None,
		}),
		2 => e.rewrite(&mut |x| if let E::Ph(_) = x { Some(E::Num(d)) } else { None }),
		3 => e.rewrite(&mut |x| if let E::Cons(l, b) = x { Some(E::Cons(l + 20, b.clone())) } else { None }),
		4 => e.rewrite(&mut |x| if let E::Pen(a, _) = x { Some(E::Pen(a.clone(), Box::new(E::Num(d)))) } else { None }),
		5 => e.rewrite(&mut |x| if let E::Spin(q) = x { Some(sub(mul(E::Num(d), E::Bin(*q)), E::Bin(*q))) } else { None }),
		_ => e.rewrite(&mut |x| {
			// the body itself is not offered again
			if let E::Cons(_, b) = x {
				Some((**b).clone())
			} else {
				None
			}
		}),
	};
	if how == 0 {
		check(B::k(calls == nodes), || format!("{} nodes were visited instead of {} in {:?}", calls, nodes, same));
		check(B::k(count(&after) == nodes), || format!("{:?} became {:?}", same, after));
	}
	let v = Vals::of(&want);
	let (q, ph, w) = (|l| v.q(l), |l| v.ph(l), |l| v.w(l));
	let (a, b) = want.mp_pub(&Env { q: &q, ph: &ph, w: &w });
	let (c, f) = value(&after, &v);
	R::observe("value", c);
	check(c.eqb(a), || format!("{:?} became {:?} with the value {} instead of {}", same, after, c, a));
	check(f.eqb(b), || format!("{:?} became {:?} with the penalty {} instead of {}", same, after, f, b));
}
fn count<R: Num>(x: &X<R>) -> usize {
	1 + match x {
		Expr::Add(a, b) | Expr::Mul(a, b) => count(a) + count(b),
		Expr::Constraint { expr, .. } => count(expr),
		Expr::WithPenalty { expr, penalty } => count(expr) + count(penalty),
		_ => 0,
	}
}
fn map_size<R: Num>(n: usize, leaves: u16, kinds: u16, hows: usize) {
	let how = choose(hows);
	let mut g = Gen::new(2, 1, leaves, kinds);
	g.bounds(9);
	let e = gen_size::<R>(&mut g, n);
	map_check(e, how)
}
fn map_t<R: Num>(k: usize, hows: usize) {
	map_check(if k < 13 { c01_template::<R>(k) } else { c02_template::<R>(k - 13) }, choose(hows))
}

pub fn register(prop: &str, thorough: bool, seed: u64, v: &mut Vec<Scen>) {
	let all = L_NUM | L_BIN | L_SPIN | L_PH;
	match prop {
		"C08" => {
			scen!(v, "constants", "zero, one and plain numbers", int, vec![seed], vec![], ops_consts());
			scen!(v, "constants-real", "zero, one and plain numbers", real, vec![seed], vec![], ops_consts());
			scen!(v, "labels", "labels with an owner, all operators", int, vec![seed], vec!["labels"], ops_labels());
			scen!(v, "labels-real", "labels with an owner, all operators", real, vec![seed], vec!["labels"], ops_labels());
			let m = if thorough { 20 } else { 12 };
			scen!(v, "powers", "powers up to 12 (thorough: 20) of nine kinds of expressions, among other operators", int, vec![seed], vec!["high power", "low power"], ops_pow(m));
			let ns: &'static [usize] = if thorough {
				&[13, 14, 15, 16, 17, 18, 19, 20, 21, 24, 25, 27, 31, 32, 33, 40, 47, 48, 49, 50, 60, 63, 64, 65, 70, 81, 96, 99, 100, 101, 127, 128, 129, 200, 254, 255, 256, 257, 300, 500, 511, 512, 513, 1000, 1023, 1024, 1025, 2000]
			} else {
				&[13, 15, 16, 17, 20, 25, 31, 32, 33, 40, 63, 64, 65, 70, 100, 101, 127, 128, 129, 255, 256, 257, 300, 1000]
			};
			scen!(v, "high-powers", "powers of 13 to 1000 (thorough: 2000) of six kinds of expressions", real, vec![seed], vec!["high power"], ops_high(ns));
			let l = if thorough { 3 } else { 2 };
			scen!(v, "chain", "sequences of two (thorough: three) operators on one expression, operand possibly the expression itself", int, vec![seed], vec![], ops_chain(l));
			let mut sizes = vec![(0usize, all, 127u16), (1, all, 127), (2, all, 127), (3, L_NUM | L_BIN, O_ADD | O_SUB | O_MUL | O_NEG)];
			if thorough {
				sizes.push((3, all, 127));
			}
			for (i, (n, l, o)) in sizes.into_iter().enumerate() {
				scen!(v, format!("ops{}-{}", n, i), format!("every expression with {} operators", n), int, vec![seed], vec![], ops_size(n, l, o));
				if n < 2 {
					scen!(v, format!("ops{}-{}-real", n, i), format!("every expression with {} operators", n), real, vec![seed], vec![], ops_size(n, l, o));
				}
			}
		}
		"C23" => {
			for k in 0..=33usize {
				scen!(v, format!("map-t{}", k), "rewriting of an expression template", int, vec![seed], vec![], map_t(k, 6));
			}
			let mut sizes = vec![(0usize, all, 127u16), (1, all, 127), (2, L_BIN | L_SPIN | L_PH, 127 & !O_POW)];
			if thorough {
				sizes.push((2, all, 127));
				sizes.push((3, L_SPIN | L_PH, O_ADD | O_MUL | O_CONS | O_PEN));
			}
			for (i, (n, l, o)) in sizes.into_iter().enumerate() {
				scen!(v, format!("map{}-{}", n, i), format!("rewriting of every expression with {} operators", n), int, vec![seed], vec![], map_size(n, l, o, 6));
			}
		}
		_ => {}
	}
}
