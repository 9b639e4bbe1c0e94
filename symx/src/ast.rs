//! Reference semantics of expressions, independent of the code under test.
use crate::eng::*;
use rustqubo::Expr;
use std::collections::{BTreeMap, BTreeSet};

/// Labels: placeholders, qubits and constraints are small integers.
pub type X<R> = Expr<u16, u16, u16, R>;

#[derive(Clone)]
pub enum E<R> {
	Num(R),
	Bin(u16),
	Spin(u16),
	Ph(u16),
	Add(Box<E<R>>, Box<E<R>>),
	Sub(Box<E<R>>, Box<E<R>>),
	Mul(Box<E<R>>, Box<E<R>>),
	Neg(Box<E<R>>),
	Pow(Box<E<R>>, usize),
	Cons(u16, Box<E<R>>),
	Pen(Box<E<R>>, Box<E<R>>),
}
pub fn add<R>(a: E<R>, b: E<R>) -> E<R> {
	E::Add(Box::new(a), Box::new(b))
}
pub fn sub<R>(a: E<R>, b: E<R>) -> E<R> {
	E::Sub(Box::new(a), Box::new(b))
}
pub fn mul<R>(a: E<R>, b: E<R>) -> E<R> {
	E::Mul(Box::new(a), Box::new(b))
}
pub fn neg<R>(a: E<R>) -> E<R> {
	E::Neg(Box::new(a))
}
pub fn pow<R>(a: E<R>, n: usize) -> E<R> {
	E::Pow(Box::new(a), n)
}
pub fn cons<R>(l: u16, a: E<R>) -> E<R> {
	E::Cons(l, Box::new(a))
}
pub fn pen<R>(a: E<R>, b: E<R>) -> E<R> {
	E::Pen(Box::new(a), Box::new(b))
}
pub fn sum<R: Num>(v: Vec<E<R>>) -> E<R> {
	let mut it = v.into_iter();
	let f = it.next().unwrap_or(E::Num(R::int(0)));
	it.fold(f, add)
}
pub fn prod<R: Num>(v: Vec<E<R>>) -> E<R> {
	let mut it = v.into_iter();
	let f = it.next().unwrap_or(E::Num(R::int(1)));
	it.fold(f, mul)
}
pub fn num<R: Num>(i: i64) -> E<R> {
	E::Num(R::int(i))
}

/// Values for the evaluation of an expression.
pub struct Env<'a, R> {
	pub q: &'a dyn Fn(u16) -> bool,
	pub ph: &'a dyn Fn(u16) -> R,
	pub w: &'a dyn Fn(u16) -> R,
}

impl<R: Num> E<R> {
	/// The expression of the library, built with its operators.
	pub fn build(&self) -> X<R> {
		match self {
			E::Num(n) => Expr::Number(*n),
			E::Bin(q) => Expr::Binary(*q),
			E::Spin(q) => Expr::Spin(*q),
			E::Ph(p) => Expr::Placeholder(*p),
			E::Add(a, b) => a.build() + b.build(),
			E::Sub(a, b) => a.build() - b.build(),
			E::Mul(a, b) => a.build() * b.build(),
			E::Neg(a) => -a.build(),
			E::Pow(a, n) => a.build() ^ *n,
			E::Cons(l, e) => Expr::Constraint { label: *l, expr: Box::new(e.build()) },
			E::Pen(e, p) => Expr::WithPenalty { expr: Box::new(e.build()), penalty: Box::new(p.build()) },
		}
	}
	/// (objective, penalty): products multiply objectives and keep the
	/// penalties of both factors.
	fn mp(&self, env: &Env<R>) -> (R, R) {
		let z = R::int(0);
		match self {
			E::Num(n) => (*n, z),
			E::Bin(q) => (R::int((env.q)(*q) as i64), z),
			E::Spin(q) => (R::int(if (env.q)(*q) { 1 } else { -1 }), z),
			E::Ph(p) => ((env.ph)(*p), z),
			E::Add(a, b) => {
				let (a, b) = (a.mp(env), b.mp(env));
				(a.0 + b.0, a.1 + b.1)
			}
			E::Sub(a, b) => {
				let (a, b) = (a.mp(env), b.mp(env));
				(a.0 - b.0, a.1 + b.1)
			}
			E::Mul(a, b) => {
				let (a, b) = (a.mp(env), b.mp(env));
				(a.0 * b.0, a.1 + b.1)
			}
			E::Neg(a) => {
				let a = a.mp(env);
				(-a.0, a.1)
			}
			E::Pow(a, n) => {
				let mut r = (R::int(1), z);
				for _ in 0..*n {
					let v = a.mp(env);
					r = (r.0 * v.0, r.1 + v.1);
				}
				r
			}
			E::Cons(l, e) => {
				let v = e.mp(env);
				(v.0 * (env.w)(*l), v.1)
			}
			E::Pen(e, p) => {
				let (a, b) = (e.mp(env), p.mp(env));
				(a.0, a.1 + b.0 + b.1)
			}
		}
	}
	pub fn mp_pub(&self, env: &Env<R>) -> (R, R) {
		self.mp(env)
	}
	pub fn eval(&self, env: &Env<R>) -> R {
		let (m, p) = self.mp(env);
		m + p
	}
	/// Value of a constraint's expression: weights and penalties do not count.
	pub fn cvalue(&self, q: &dyn Fn(u16) -> bool, ph: &dyn Fn(u16) -> R) -> R {
		let one = |_: u16| R::int(1);
		self.mp(&Env { q, ph, w: &one }).0
	}
	pub fn walk(&self, f: &mut dyn FnMut(&E<R>)) {
		f(self);
		match self {
			E::Add(a, b) | E::Sub(a, b) | E::Mul(a, b) | E::Pen(a, b) => {
				a.walk(f);
				b.walk(f);
			}
			E::Neg(a) | E::Pow(a, _) | E::Cons(_, a) => a.walk(f),
			_ => {}
		}
	}
	pub fn qubits(&self) -> BTreeSet<u16> {
		let mut s = BTreeSet::new();
		self.walk(&mut |e| {
			if let E::Bin(q) | E::Spin(q) = e {
				s.insert(*q);
			}
		});
		s
	}
	pub fn phs(&self) -> BTreeSet<u16> {
		let mut s = BTreeSet::new();
		self.walk(&mut |e| {
			if let E::Ph(q) = e {
				s.insert(*q);
			}
		});
		s
	}
	/// Every constraint, with its label.
	pub fn constraints(&self) -> Vec<(u16, E<R>)> {
		match self {
			E::Add(a, b) | E::Sub(a, b) | E::Mul(a, b) | E::Pen(a, b) => {
				let mut v = a.constraints();
				v.extend(b.constraints());
				v
			}
			// the zeroth power is the number one
			E::Pow(_, 0) => vec![],
			E::Neg(a) | E::Pow(a, _) => a.constraints(),
			E::Cons(l, b) => {
				let mut v = vec![(*l, (**b).clone())];
				v.extend(b.constraints());
				v
			}
			_ => vec![],
		}
	}
	pub fn clabels(&self) -> BTreeSet<u16> {
		self.constraints().into_iter().map(|(l, _)| l).collect()
	}
	/// Expansion: (objective, penalty) as maps from sets of qubits to the set
	/// of atoms (placeholders, weights) in a coefficient.
	pub fn expand(&self) -> Poly {
		self.exp2().0.plus(&self.exp2().1)
	}
	fn exp2(&self) -> (Poly, Poly) {
		match self {
			E::Num(_) => (Poly::atom(Atom::Num), Poly::default()),
			E::Bin(q) => (Poly::qubit(*q), Poly::default()),
			E::Spin(q) => (Poly::qubit(*q).plus(&Poly::atom(Atom::Num)), Poly::default()),
			E::Ph(p) => (Poly::atom(Atom::Ph(*p)), Poly::default()),
			E::Add(a, b) | E::Sub(a, b) => {
				let (a, b) = (a.exp2(), b.exp2());
				(a.0.plus(&b.0), a.1.plus(&b.1))
			}
			E::Mul(a, b) => {
				let (a, b) = (a.exp2(), b.exp2());
				(a.0.times(&b.0), a.1.plus(&b.1))
			}
			E::Neg(a) => a.exp2(),
			E::Pow(a, n) => {
				let mut r = Poly::atom(Atom::Num);
				let mut p = Poly::default();
				let x = a.exp2();
				for _ in 0..*n {
					r = r.times(&x.0);
					p = p.plus(&x.1);
				}
				(r, p)
			}
			E::Cons(l, e) => {
				let e = e.exp2();
				(e.0.times(&Poly::atom(Atom::W(*l))), e.1)
			}
			E::Pen(e, p) => {
				let (a, b) = (e.exp2(), p.exp2());
				(a.0, a.1.plus(&b.0).plus(&b.1))
			}
		}
	}
	pub fn show(&self) -> String {
		match self {
			E::Num(n) => n.show(),
			E::Bin(q) => format!("x{}", q),
			E::Spin(q) => format!("s{}", q),
			E::Ph(q) => format!("P{}", q),
			E::Add(a, b) => format!("({} + {})", a.show(), b.show()),
			E::Sub(a, b) => format!("({} - {})", a.show(), b.show()),
			E::Mul(a, b) => format!("{}*{}", a.show(), b.show()),
			E::Neg(a) => format!("-({})", a.show()),
			E::Pow(a, n) => format!("({})^{}", a.show(), n),
			E::Cons(l, e) => format!("Constraint{}[{}]", l, e.show()),
			E::Pen(e, p) => format!("[{} with penalty {}]", e.show(), p.show()),
		}
	}
}

#[derive(Clone, PartialEq, Eq, PartialOrd, Ord, Debug)]
pub enum Atom {
	Num,
	Ph(u16),
	W(u16),
}
/// Monomials over 0/1 variables (no cancellation between coefficients).
#[derive(Clone, Default)]
pub struct Poly(pub BTreeMap<BTreeSet<u16>, BTreeSet<Atom>>);
impl Poly {
	fn atom(a: Atom) -> Poly {
		Poly([(BTreeSet::new(), [a].into_iter().collect())].into_iter().collect())
	}
	fn qubit(q: u16) -> Poly {
		Poly([([q].into_iter().collect(), [Atom::Num].into_iter().collect())].into_iter().collect())
	}
	pub fn plus(&self, o: &Poly) -> Poly {
		let mut r = self.clone();
		for (k, v) in &o.0 {
			r.0.entry(k.clone()).or_default().extend(v.iter().cloned());
		}
		r
	}
	pub fn times(&self, o: &Poly) -> Poly {
		let mut r = Poly::default();
		for (k, v) in &self.0 {
			for (k2, v2) in &o.0 {
				let e = r.0.entry(k.union(k2).cloned().collect()).or_default();
				e.extend(v.iter().cloned());
				e.extend(v2.iter().cloned());
			}
		}
		r
	}
	pub fn degree(&self) -> usize {
		self.0.keys().map(|k| k.len()).max().unwrap_or(0)
	}
}
