//! C08: operators of expressions.
use crate::src::*;
use crate::{harnesses, reach};
use annealers::variable::Real;
use rustqubo::Expr;

type X<R> = Expr<u8, u8, u8, R>;

/// Values of the leaves.
#[derive(Clone, Copy)]
struct Env<R> {
	x: bool,
	s: bool,
	p: R,
}

/// Value of the objective of an expression of depth at most `d`, and the
/// number of its constraints (1 each) and penalties (100 each).
fn ev<R: Real>(e: &X<R>, v: &Env<R>, d: u8) -> (R, usize) {
	assert!(d > 0, "the expression is deeper than it should be");
	let (kind, l, r) = match e {
		Expr::Number(n) => return (*n, 0),
		Expr::Binary(0) => return (R::from_i32(v.x as i32), 0),
		Expr::Spin(1) => return (R::from_i32(if v.s { 1 } else { -1 }), 0),
		Expr::Placeholder(2) => return (v.p, 0),
		Expr::Add(a, b) => (0, a, Some(b)),
		Expr::Mul(a, b) => (1, a, Some(b)),
		Expr::Constraint { label: 3, expr } => (2, expr, None),
		Expr::WithPenalty { expr, penalty } => (3, expr, Some(penalty)),
		_ => panic!("a leaf nobody wrote"),
	};
	let (x, m) = ev(l, v, d - 1);
	let (y, n) = match r {
		Some(r) => ev(r, v, d - 1),
		None => (x, 0),
	};
	match kind {
		0 => (x + y, m + n),
		1 => (x * y, m + n),
		2 => (x, m + 1),
		_ => (x, m + n + 100),
	}
}
fn sm<R: Real>(m: i8) -> R {
	R::from_i32(small(m) as i32)
}
fn env<R: Real>() -> Env<R> {
	Env { x: any(), s: any(), p: R::from_i32(upto(3) as i32) }
}
/// An operand with its value.
fn operand<R: Real>(k: u8, v: &Env<R>) -> (X<R>, R) {
	let n: R = sm(3);
	let x = || R::from_i32(v.x as i32);
	let s = || R::from_i32(if v.s { 1 } else { -1 });
	match k {
		0 => (Expr::Number(n), n),
		1 => (Expr::Binary(0), x()),
		2 => (Expr::Spin(1), s()),
		3 => (Expr::Placeholder(2), v.p),
		4 => (Expr::Add(Box::new(Expr::Number(n)), Box::new(Expr::Binary(0))), n + x()),
		5 => (Expr::Mul(Box::new(Expr::Spin(1)), Box::new(Expr::Number(n))), n * s()),
		6 => (Expr::Constraint { label: 3, expr: Box::new(Expr::Spin(1)) }, s()),
		_ => (Expr::WithPenalty { expr: Box::new(Expr::Number(n)), penalty: Box::new(Expr::Binary(0)) }, n),
	}
}
/// Constraints and penalties of an operand.
fn marks(k: u8) -> usize {
	match k {
		6 => 1,
		7 => 100,
		_ => 0,
	}
}
fn is_<R: Real, const D: u8>(e: X<R>, v: &Env<R>, want: R, m: usize) {
	let (x, k) = ev(&e, v, D);
	assert!(x == want, "value");
	assert!(k == m, "constraints and penalties");
	std::mem::forget(e);
}

fn is<R: Real>(e: X<R>, v: &Env<R>, want: R, m: usize) {
	is_::<R, 5>(e, v, want, m)
}

macro_rules! binary {
	($t:ty, $k:expr, $l:expr, $op:tt) => {{
		let v = env::<$t>();
		let (a, x) = operand::<$t>($k, &v);
		let (b, y) = operand::<$t>($l, &v);
		is(a $op b, &v, x $op y, marks($k) + marks($l));
		reach!(x != y, "different operands");
	}};
}
macro_rules! assigning {
	($t:ty, $k:expr, $l:expr, $op:tt, $as:tt) => {{
		let v = env::<$t>();
		let (mut a, x) = operand::<$t>($k, &v);
		let (b, y) = operand::<$t>($l, &v);
		a $as b;
		is(a, &v, x $op y, marks($k) + marks($l));
		reach!(x != y, "different operands");
	}};
	($t:ty, $k:expr, $op:tt, $as:tt) => {{
		let v = env::<$t>();
		let (mut a, x) = operand::<$t>($k, &v);
		let n: $t = sm(3);
		a $as n;
		is(a, &v, x $op n, marks($k));
		reach!(x != n, "different operands");
	}};
}
/// Mixed forms with a plain number.
macro_rules! mixed {
	($t:ty, $k:expr) => {{
		let v = env::<$t>();
		let n: $t = sm(7);
		let m = marks($k);
		let (a, x) = operand::<$t>($k, &v);
		is(a + n, &v, x + n, m);
		let (a, x) = operand::<$t>($k, &v);
		is(n + a, &v, n + x, m);
		let (a, x) = operand::<$t>($k, &v);
		is(a - n, &v, x - n, m);
		let (a, x) = operand::<$t>($k, &v);
		is(n - a, &v, n - x, m);
		let (a, x) = operand::<$t>($k, &v);
		is(a * n, &v, x * n, m);
		let (a, x) = operand::<$t>($k, &v);
		is(n * a, &v, n * x, m);
		reach!(x != n, "different operands");
	}};
}
macro_rules! negation {
	($t:ty, $k:expr) => {{
		let v = env::<$t>();
		let (a, x) = operand::<$t>($k, &v);
		is(-a, &v, -x, marks($k));
		is(X::<$t>::zero(), &v, 0 as $t, 0);
		is(X::<$t>::one(), &v, 1 as $t, 0);
		let n: $t = sm(7);
		is(X::<$t>::from(n), &v, n, 0);
		reach!(x != n, "different operands");
	}};
}
macro_rules! power {
	($t:ty, $k:expr, $n:expr) => {{
		let v = env::<$t>();
		let (a, x) = operand::<$t>($k, &v);
		let mut want: $t = 1 as $t;
		let mut i = 0;
		while i < $n {
			want *= x;
			i += 1;
		}
		is_::<$t, 7>(a ^ $n, &v, want, marks($k) * $n);
		reach!(x != 0 as $t, "the base is not zero");
	}};
	($t:ty, $k:expr, $n:expr, assign) => {{
		let v = env::<$t>();
		let (mut a, x) = operand::<$t>($k, &v);
		let mut want: $t = 1 as $t;
		let mut i = 0;
		while i < $n {
			want *= x;
			i += 1;
		}
		a ^= $n;
		is(a, &v, want, marks($k) * $n);
		reach!(x != 0 as $t, "the base is not zero");
	}};
}

harnesses! {
	fn c08_mixed_i8(8) { mixed!(i8, 4) }
	fn c08_mixed_i16(8) { mixed!(i16, 5) }
	fn c08_mixed_i32(8) { mixed!(i32, 6) }
	fn c08_mixed_i64(8) { mixed!(i64, 4) }
	fn c08_mixed_i128(8) { mixed!(i128, 1) }
	fn c08_mixed_f32(8) { mixed!(f32, 4) }
	fn c08_mixed_f64(8) { mixed!(f64, 6) }
	fn c08_mixed_leaf_i32(8) { mixed!(i32, 2) }
	fn c08_mixed_ph_f64(8) { mixed!(f64, 3) }
	fn c08_mixed_pen_i64(8) { mixed!(i64, 7) }
	fn c08_add(8) { binary!(i32, 4, 5, +) ; binary!(i32, 6, 7, +) }
	fn c08_sub(8) { binary!(i32, 4, 5, -) ; binary!(i32, 7, 6, -) }
	fn c08_mul(8) { binary!(i32, 4, 5, *) ; binary!(i32, 6, 7, *) }
	fn c08_add_f64(8) { binary!(f64, 4, 3, +) }
	fn c08_sub_f64(8) { binary!(f64, 5, 3, -) }
	fn c08_mul_f64(8) { binary!(f64, 4, 2, *) }
	fn c08_neg(8) { negation!(i32, 4); negation!(i32, 6) }
	fn c08_neg_f64(8) { negation!(f64, 5) }
	fn c08_pow0(8) { power!(i32, 4, 0usize); power!(i32, 6, 0usize) }
	fn c08_pow1(8) { power!(i32, 4, 1usize); power!(i32, 6, 1usize) }
	fn c08_pow2(8) { power!(i32, 4, 2usize); power!(i32, 7, 2usize) }
	fn c08_pow3(8) { power!(i32, 4, 3usize) }
	fn c08_pow2_f64(8) { power!(f64, 5, 2usize) }
	fn c08_add_assign(8) { assigning!(i32, 4, 5, +, +=); assigning!(i32, 6, 7, +, +=) }
	fn c08_sub_assign(8) { assigning!(i32, 4, 5, -, -=); assigning!(i32, 7, 6, -, -=) }
	fn c08_mul_assign(8) { assigning!(i32, 4, 5, *, *=); assigning!(i32, 6, 4, *, *=) }
	fn c08_add_assign_f64(8) { assigning!(f64, 4, 3, +, +=) }
	fn c08_sub_assign_f64(8) { assigning!(f64, 1, 5, -, -=) }
	fn c08_mul_assign_f64(8) { assigning!(f64, 4, 2, *, *=) }
	fn c08_mixed_leaves_t(8) { mixed!(i8, 0); mixed!(i16, 1); mixed!(i64, 2); mixed!(i128, 3) }
	fn c08_mixed_floats_t(8) { mixed!(f32, 5); mixed!(f32, 6); mixed!(f64, 7) }
	fn c08_mixed_ints_t(8) { mixed!(i8, 6); mixed!(i16, 7); mixed!(i32, 4); mixed!(i128, 2) }
	fn c08_pow4_t(9) { power!(i64, 4, 4usize); reach!("end") }
	fn c08_pow3_f64_t(8) { power!(f64, 4, 3usize) }
	fn c08_ops_i8_t(8) { binary!(i8, 4, 1, +); binary!(i8, 4, 6, -); binary!(i8, 4, 5, *) }
	fn c08_ops_f32_t(8) { binary!(f32, 4, 6, +); binary!(f32, 5, 4, -); binary!(f32, 4, 5, *) }
	fn c08_ops_i128_t(8) { binary!(i128, 4, 6, +); binary!(i128, 5, 4, -); binary!(i128, 4, 5, *) }
	fn c08_assign_i64_t(8) { assigning!(i64, 4, 6, +, +=); assigning!(i64, 5, 4, -, -=); assigning!(i64, 4, 5, *, *=) }
}
