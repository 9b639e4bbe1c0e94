//! Symbolic execution engine.
//!
//! The code under test is generic over a number type `R: Real`.  `S<INT>` is
//! such a type whose values are exact rational constants or nodes of a term
//! graph over symbolic variables; every decision the real code takes on such a
//! value (comparison, conversion to f64) forks the execution.  Forking is done
//! by re-execution: a path is the list of the outcomes of its decisions.  An
//! SMT solver (z3 over a pipe) decides which outcomes are feasible and, at the
//! end of a path, whether the recorded assertions can be broken on it.
use std::cell::{Cell, RefCell};
use std::cmp::Ordering;
use std::collections::BTreeMap;
use std::fmt::Write as _;
use std::io::{BufRead, BufReader, Write};
use std::sync::Arc;
use std::process::{Child, ChildStdin, ChildStdout, Command, Stdio};

use annealers::variable::Real;

// ---------------------------------------------------------------- rationals

fn gcd(a: i128, b: i128) -> i128 {
	let (mut a, mut b) = (a.unsigned_abs(), b.unsigned_abs());
	while b != 0 {
		let t = a % b;
		a = b;
		b = t;
	}
	a as i128
}

fn ovf<T>(x: Option<T>) -> T {
	match x {
		Some(x) => x,
		None => stop(Stop::Inconclusive("constant arithmetic overflow in the engine".into())),
	}
}

#[derive(Clone, Copy, PartialEq, Eq, Hash, Debug)]
pub struct Q(pub i128, pub i128);
impl Q {
	pub fn new(n: i128, d: i128) -> Q {
		assert!(d != 0);
		let g = gcd(n, d);
		let g = if g == 0 { 1 } else { g };
		let s = if d < 0 { -1 } else { 1 };
		Q(s * n / g, s * d / g)
	}
	fn add(self, o: Q) -> Q {
		let a = ovf(self.0.checked_mul(o.1));
		let b = ovf(o.0.checked_mul(self.1));
		Q::new(ovf(a.checked_add(b)), ovf(self.1.checked_mul(o.1)))
	}
	fn mul(self, o: Q) -> Q {
		Q::new(ovf(self.0.checked_mul(o.0)), ovf(self.1.checked_mul(o.1)))
	}
	fn cmp(self, o: Q) -> Ordering {
		ovf(self.0.checked_mul(o.1)).cmp(&ovf(o.0.checked_mul(self.1)))
	}
	pub fn f64(self) -> f64 {
		self.0 as f64 / self.1 as f64
	}
	fn smt(self) -> String {
		let n = if self.0 < 0 {
			format!("(- {}.0)", self.0.unsigned_abs())
		} else {
			format!("{}.0", self.0)
		};
		if self.1 == 1 {
			n
		} else {
			format!("(/ {} {}.0)", n, self.1)
		}
	}
	fn smt_int(self) -> String {
		assert!(self.1 == 1, "fraction in an integer term");
		if self.0 < 0 {
			format!("(- {})", self.0.unsigned_abs())
		} else {
			format!("{}", self.0)
		}
	}
	fn from_f64(f: f64) -> Option<Q> {
		if !f.is_finite() || f.abs() > 1e18 {
			return None;
		}
		if f == f.trunc() {
			return Some(Q::new(f as i128, 1));
		}
		// snap to a nearby small fraction (floating point rounding is outside
		// of the model)
		for d in 2..=120i128 {
			let n = (f * d as f64).round();
			if (n / d as f64 - f).abs() <= 1e-12 * f.abs().max(1e-3) {
				return Some(Q::new(n as i128, d));
			}
		}
		// exact dyadic
		let mut d = 1i128;
		let mut x = f;
		while x != x.trunc() && d < (1i128 << 60) {
			x *= 2.0;
			d *= 2;
		}
		if x.abs() > 1e36 {
			return None;
		}
		Some(Q::new(x as i128, d))
	}
}

// ---------------------------------------------------------------- values

#[derive(Clone, Copy, PartialEq, Eq, Hash)]
pub enum V {
	C(Q),
	T(u32),
	NaN,
	Inf(bool), // true: +inf
}

#[derive(Clone, Copy)]
pub struct S<const INT: bool>(pub V);
pub type SI = S<true>;
pub type SR = S<false>;

#[derive(Clone, PartialEq, Eq, Hash, PartialOrd, Ord, Copy, Debug)]
pub enum Cmp {
	Eq,
	Le,
	Lt,
}

#[derive(Clone, Copy, PartialEq, Eq, Hash)]
enum Op {
	Var(u32),
	Add(V, V),
	Mul(V, V),
	Neg(V),
	Abs(V),
	Max(V, V),
	Min(V, V),
	IDiv(V, V), // truncating
	RDiv(V, V),
	Trunc(V),
}

type Poly = Arc<BTreeMap<Vec<u32>, Q>>;

struct Node {
	op: Op,
	lo: f64,
	hi: f64,
	emitted: bool,
	nonlin: bool,
}

/// Symbolic boolean.
#[derive(Clone)]
pub struct B {
	pub k: Option<bool>,
	s: String,
	roots: Vec<u32>,
}
impl B {
	pub fn k(b: bool) -> B {
		B { k: Some(b), s: if b { "true" } else { "false" }.into(), roots: vec![] }
	}
	pub fn not(self) -> B {
		match self.k {
			Some(b) => B::k(!b),
			None => B { k: None, s: format!("(not {})", self.s), roots: self.roots },
		}
	}
	pub fn and(self, o: B) -> B {
		B::all(vec![self, o])
	}
	pub fn or(self, o: B) -> B {
		B::any(vec![self, o])
	}
	pub fn implies(self, o: B) -> B {
		self.not().or(o)
	}
	fn nary(op: &str, unit: bool, v: Vec<B>) -> B {
		let mut parts = vec![];
		let mut roots = vec![];
		for b in v {
			match b.k {
				Some(x) if x == unit => {}
				Some(_) => return B::k(!unit),
				None => {
					parts.push(b.s);
					roots.extend(b.roots);
				}
			}
		}
		if parts.is_empty() {
			return B::k(unit);
		}
		roots.sort_unstable();
		roots.dedup();
		if parts.len() == 1 {
			return B { k: None, s: parts.pop().unwrap(), roots };
		}
		parts.dedup();
		B { k: None, s: format!("({} {})", op, parts.join(" ")), roots }
	}
	pub fn all(v: Vec<B>) -> B {
		B::nary("and", true, v)
	}
	pub fn any(v: Vec<B>) -> B {
		B::nary("or", false, v)
	}
	/// Value in a concrete run.
	pub fn conc(&self) -> bool {
		self.k.expect("symbolic condition in a concrete run")
	}
}

// ---------------------------------------------------------------- stopping

#[derive(Clone, Debug)]
pub enum Stop {
	Infeasible,
	Inconclusive(String),
}
pub fn stop(s: Stop) -> ! {
	std::panic::panic_any(s)
}

// ---------------------------------------------------------------- z3

pub struct Z3 {
	child: Child,
	stdin: ChildStdin,
	out: BufReader<ChildStdout>,
	pub queries: u64,
	pub time: f64,
	pub errors: u64,
	pub unsat: u64,
	pub sat: u64,
	pub unknown: u64,
	timeout_ms: u64,
	buf: String,
	int: bool,
}
#[derive(PartialEq, Clone, Copy, Debug)]
pub enum Sat {
	Sat,
	Unsat,
	Unknown,
}
impl Z3 {
	pub fn new(int: bool, timeout_ms: u64) -> Z3 {
		let mut child = Command::new("z3-new")
			.args(["-in", "-smt2"])
			.stdin(Stdio::piped())
			.stdout(Stdio::piped())
			.stderr(Stdio::null())
			.spawn()
			.expect("z3-new");
		let stdin = child.stdin.take().unwrap();
		let out = BufReader::new(child.stdout.take().unwrap());
		let mut z = Z3 {
			child,
			stdin,
			out,
			queries: 0,
			time: 0.0,
			errors: 0,
			unsat: 0,
			sat: 0,
			unknown: 0,
			timeout_ms,
			buf: String::new(),
			int,
		};
		z.buf.push_str(&format!(
			"(set-option :produce-models true)\n(set-option :timeout {})\n",
			timeout_ms
		));
		z
	}
	pub fn send(&mut self, s: &str) {
		self.buf.push_str(s);
		self.buf.push('\n');
	}
	fn flush(&mut self) {
		let b = std::mem::take(&mut self.buf);
		self.stdin.write_all(b.as_bytes()).expect("z3 write");
		self.stdin.flush().expect("z3 flush");
	}
	fn line(&mut self) -> String {
		let mut l = String::new();
		let n = self.out.read_line(&mut l).expect("z3 read");
		if n == 0 {
			stop(Stop::Inconclusive("the solver process ended".into()));
		}
		l.trim().to_string()
	}
	pub fn check(&mut self) -> Sat {
		self.send("(check-sat)");
		self.flush();
		live(|l| l.solver = true);
		let t = std::time::Instant::now();
		self.queries += 1;
		let mut bad = false;
		let r = loop {
			let l = self.line();
			match l.as_str() {
				"sat" => break Sat::Sat,
				"unsat" => break Sat::Unsat,
				"unknown" => break Sat::Unknown,
				"" => {}
				x => {
					if x.starts_with("(error") {
						self.errors += 1;
						bad = true;
						LASTERR.with(|e| *e.borrow_mut() = x.to_string());
					}
				}
			}
		};
		self.time += t.elapsed().as_secs_f64();
		live(|l| l.solver = false);
		let r = if bad { Sat::Unknown } else { r };
		match r {
			Sat::Sat => self.sat += 1,
			Sat::Unsat => self.unsat += 1,
			Sat::Unknown => self.unknown += 1,
		}
		r
	}
	/// A query whose answer only makes a model prettier: short time limit, and
	/// not counted.
	pub fn check_pref(&mut self) -> Sat {
		self.send("(set-option :timeout 300)");
		let (q, u, s, k, t) = (self.queries, self.unsat, self.sat, self.unknown, self.time);
		let r = self.check();
		self.queries = q;
		self.unsat = u;
		self.sat = s;
		self.unknown = k;
		self.time = t;
		let t = self.timeout_ms;
		self.send(&format!("(set-option :timeout {})", t));
		r
	}
	/// get-value of names -> s-expression values
	pub fn values(&mut self, names: &[String]) -> Vec<Option<Q>> {
		if names.is_empty() {
			return vec![];
		}
		let mut res = vec![];
		for ch in names.chunks(50) {
			self.send(&format!("(get-value ({}))", ch.join(" ")));
			self.flush();
			let mut txt = String::new();
			let mut depth = 0i32;
			loop {
				let l = self.line();
				for c in l.chars() {
					match c {
						'(' => depth += 1,
						')' => depth -= 1,
						_ => {}
					}
				}
				txt.push_str(&l);
				txt.push(' ');
				if depth <= 0 {
					break;
				}
			}
			let toks = tokens(&txt);
			// ((name val) (name val))
			let mut p = 1;
			for _ in ch {
				if toks.get(p).map(|s| s.as_str()) != Some("(") {
					res.push(None);
					continue;
				}
				p += 1;
				skip(&toks, &mut p); // name
				res.push(num(&toks, &mut p));
				p += 1; // ')'
			}
		}
		res
	}
	pub fn finish(mut self) {
		let _ = self.stdin.write_all(b"(exit)\n");
		let _ = self.child.kill();
		let _ = self.child.wait();
	}
}
/// What a worker is doing, for noticing code that does not end.
pub struct Live {
	pub last: std::time::Instant,
	pub scen: usize,
	pub seed: u64,
	pub choices: Vec<u32>,
	pub vars: BTreeMap<String, f64>,
	pub busy: bool,
	/// waiting for the solver
	pub solver: bool,
}
thread_local! { pub static LIVE: RefCell<Option<std::sync::Arc<std::sync::Mutex<Live>>>> = const { RefCell::new(None) }; }
pub fn live(f: impl FnOnce(&mut Live)) {
	LIVE.with(|l| {
		if let Some(l) = &*l.borrow() {
			let mut l = l.lock().unwrap();
			l.last = std::time::Instant::now();
			f(&mut l);
		}
	})
}
thread_local! { pub static LASTERR: RefCell<String> = const { RefCell::new(String::new()) }; }
fn tokens(s: &str) -> Vec<String> {
	let mut v = vec![];
	let mut cur = String::new();
	for c in s.chars() {
		if c == '(' || c == ')' || c.is_whitespace() {
			if !cur.is_empty() {
				v.push(std::mem::take(&mut cur));
			}
			if !c.is_whitespace() {
				v.push(c.to_string());
			}
		} else {
			cur.push(c);
		}
	}
	if !cur.is_empty() {
		v.push(cur);
	}
	v
}
fn skip(t: &[String], p: &mut usize) {
	if t.get(*p).map(|s| s.as_str()) == Some("(") {
		*p += 1;
		while t[*p] != ")" {
			skip(t, p);
		}
	}
	*p += 1;
}
fn num(t: &[String], p: &mut usize) -> Option<Q> {
	let tok = t.get(*p)?.clone();
	*p += 1;
	if tok == "(" {
		let op = t.get(*p)?.clone();
		*p += 1;
		let a = num(t, p);
		let r = match op.as_str() {
			"-" => a.map(|a| Q(-a.0, a.1)),
			"/" => {
				let b = num(t, p);
				match (a, b) {
					(Some(a), Some(b)) if b.0 != 0 => Some(Q::new(
						a.0.checked_mul(b.1)?,
						a.1.checked_mul(b.0)?,
					)),
					_ => None,
				}
			}
			_ => None,
		};
		// up to the closing parenthesis
		while t.get(*p)?.as_str() != ")" {
			skip(t, p);
		}
		*p += 1;
		r
	} else {
		let s = tok.trim_end_matches('?');
		if let Some((a, b)) = s.split_once('.') {
			let frac = b.trim_end_matches('0');
			let mut d = 1i128;
			for _ in 0..frac.len() {
				d = d.checked_mul(10)?;
			}
			let n: i128 = format!("{}{}", a, frac).parse().ok()?;
			Some(Q::new(n, d))
		} else {
			s.parse::<i128>().ok().map(|n| Q(n, 1))
		}
	}
}

// ---------------------------------------------------------------- context

#[derive(Clone, Copy, PartialEq, Debug)]
pub enum Mode {
	/// as_f64 of a symbolic value gives an arbitrary finite number and does
	/// not fork (only for runs whose outcome cannot depend on it).
	Opaque,
	/// as_f64 forks on the order of the value among 0 and the values
	/// converted earlier, and gives a number in the same order.
	Order,
	/// as_f64 forks on the interval between anchors the value is in (for runs
	/// which compare values with them but never with each other).
	Class,
	/// as_f64 forks on the sign only (for runs which compare values with
	/// zero but never with each other).
	Sign,
}

#[derive(Clone, Debug)]
pub struct VarInfo {
	pub name: String,
	pub lo: i64,
	pub hi: i64,
}

#[derive(Clone, Copy, Debug, PartialEq)]
pub struct Dec {
	pub out: u32,
	pub kind: u8, // 0 branch forced, 1 branch free, 2 choose
}

pub struct SymCtx {
	pub int: bool,
	nodes: Vec<Node>,
	cons: BTreeMap<(u8, i128, i128, u8, i128, i128, u8), u32>,
	polys: BTreeMap<u32, Option<Poly>>,
	pub vars: Vec<VarInfo>,
	declared: usize,
	prefix: Vec<u32>,
	pub trace: Vec<Dec>,
	pub alts: Vec<Vec<u32>>,
	pub z3: Option<Z3>,
	pub checks: Vec<(B, String)>,
	pub observed: Vec<(String, V)>,
	pub notes: Vec<String>,
	mode: Mode,
	order: Vec<(f64, V)>,
	/// distance of the numbers given to terms beyond all others
	gap: f64,
	/// variables are multiples of 2^-30, and as_f64 gives small numbers
	tiny: bool,
	/// the numbers as_f64 gave for terms
	reps: Vec<(V, f64)>,
	pub panic_msg: Option<String>,
	pub maxabs: f64,
	pub unknown_branches: u64,
	pub trivially_true: u64,
	pub choices: Vec<u32>,
	pub covers: Vec<String>,
	pub max_dec: usize,
	/// constants instead of variables: exact concrete run
	pub fixed: Option<BTreeMap<String, Q>>,
}

pub struct ConcCtx {
	/// relative tolerance for rounding
	pub tol: f64,
	pub tiny: bool,
	pub vars: BTreeMap<String, f64>,
	pub choices: Vec<u32>,
	pub pos: usize,
	pub failed: Vec<String>,
	pub observed: Vec<(String, f64)>,
	pub notes: Vec<String>,
	pub panic_msg: Option<String>,
	pub checks: usize,
	pub covers: Vec<String>,
}

pub enum Ctx {
	None,
	Sym(Box<SymCtx>),
	Conc(Box<ConcCtx>),
}
thread_local! {
	pub static CTX: RefCell<Ctx> = const { RefCell::new(Ctx::None) };
	pub static HASHSEED: Cell<u64> = const { Cell::new(0) };
	pub static HASHED: Cell<bool> = const { Cell::new(false) };
}
fn sym<T>(f: impl FnOnce(&mut SymCtx) -> T) -> T {
	CTX.with(|c| match &mut *c.borrow_mut() {
		Ctx::Sym(s) => f(s),
		_ => panic!("no symbolic context"),
	})
}

/// std takes the keys of its hash maps from this symbol: hash order becomes a
/// function of the scenario's seed.
#[no_mangle]
pub extern "C" fn getrandom(buf: *mut u8, len: usize, _flags: u32) -> isize {
	let mut x = HASHSEED.with(|s| s.get()).wrapping_mul(0x9E3779B97F4A7C15).wrapping_add(0x1234567);
	for i in 0..len {
		x ^= x << 13;
		x ^= x >> 7;
		x ^= x << 17;
		unsafe { *buf.add(i) = (x >> 24) as u8 };
	}
	HASHED.with(|h| h.set(true));
	len as isize
}

impl SymCtx {
	pub fn new(int: bool, prefix: Vec<u32>, mut z3: Z3) -> Self {
		z3.send("(push 1)");
		SymCtx {
			int,
			nodes: vec![],
			cons: BTreeMap::new(),
			polys: BTreeMap::new(),
			vars: vec![],
			declared: 0,
			prefix,
			trace: vec![],
			alts: vec![],
			z3: Some(z3),
			checks: vec![],
			observed: vec![],
			notes: vec![],
			mode: Mode::Order,
			order: vec![],
			gap: (1u64 << 24) as f64,
			tiny: false,
			reps: vec![],
			panic_msg: None,
			maxabs: 0.0,
			unknown_branches: 0,
			trivially_true: 0,
			choices: vec![],
			covers: vec![],
			max_dec: 20000,
			fixed: None,
		}
	}
	fn iv(&self, v: V) -> (f64, f64) {
		match v {
			V::C(q) => (q.f64(), q.f64()),
			V::T(i) => (self.nodes[i as usize].lo, self.nodes[i as usize].hi),
			V::NaN | V::Inf(_) => (f64::NEG_INFINITY, f64::INFINITY),
		}
	}
	fn mk(&mut self, op: Op) -> V {
		fn k(v: V) -> (i128, i128) {
			match v {
				V::C(q) => (q.0, q.1),
				V::T(i) => (i as i128, 0),
				V::NaN => (0, -1),
				V::Inf(b) => (b as i128, -2),
			}
		}
		let z = (0, 0);
		let (t, a, b) = match op {
			Op::Var(i) => (0u8, (i as i128, 0), z),
			Op::Add(a, b) => (1, k(a), k(b)),
			Op::Mul(a, b) => (2, k(a), k(b)),
			Op::Neg(a) => (3, k(a), z),
			Op::Abs(a) => (4, k(a), z),
			Op::Max(a, b) => (5, k(a), k(b)),
			Op::Min(a, b) => (6, k(a), k(b)),
			Op::IDiv(a, b) => (7, k(a), k(b)),
			Op::RDiv(a, b) => (8, k(a), k(b)),
			Op::Trunc(a) => (9, k(a), z),
		};
		let (a, b) = if (t == 1 || t == 2) && b < a { (b, a) } else { (a, b) };
		let key = (t, a.0, a.1, 0u8, b.0, b.1, 0u8);
		if let Some(i) = self.cons.get(&key) {
			return V::T(*i);
		}
		let (lo, hi) = match op {
			Op::Var(i) => (self.vars[i as usize].lo as f64, self.vars[i as usize].hi as f64),
			Op::Add(a, b) => {
				let (a, b) = (self.iv(a), self.iv(b));
				(a.0 + b.0, a.1 + b.1)
			}
			Op::Mul(a, b) => {
				let (a, b) = (self.iv(a), self.iv(b));
				let p = [a.0 * b.0, a.0 * b.1, a.1 * b.0, a.1 * b.1];
				(p.iter().cloned().fold(f64::INFINITY, f64::min), p.iter().cloned().fold(f64::NEG_INFINITY, f64::max))
			}
			Op::Neg(a) => {
				let a = self.iv(a);
				(-a.1, -a.0)
			}
			Op::Abs(a) => {
				let a = self.iv(a);
				(0.0, a.0.abs().max(a.1.abs()))
			}
			Op::Max(a, b) => {
				let (a, b) = (self.iv(a), self.iv(b));
				(a.0.max(b.0), a.1.max(b.1))
			}
			Op::Min(a, b) => {
				let (a, b) = (self.iv(a), self.iv(b));
				(a.0.min(b.0), a.1.min(b.1))
			}
			Op::IDiv(a, _) | Op::Trunc(a) => {
				let a = self.iv(a);
				let m = a.0.abs().max(a.1.abs());
				(-m, m)
			}
			Op::RDiv(_, _) => (-1e30, 1e30),
		};
		let slop = 1e-9 * lo.abs().max(hi.abs());
		let (lo, hi) = (lo - slop, hi + slop);
		if lo.abs().max(hi.abs()) > self.maxabs {
			self.maxabs = lo.abs().max(hi.abs());
		}
		let id = self.nodes.len() as u32;
		let nonlin = {
			let k = |v: V| matches!(v, V::T(i) if self.nodes[i as usize].nonlin);
			match op {
				Op::Mul(V::T(_), V::T(_)) => true,
				Op::Add(a, b) | Op::Mul(a, b) | Op::Max(a, b) | Op::Min(a, b) | Op::IDiv(a, b) | Op::RDiv(a, b) => k(a) || k(b),
				Op::Neg(a) | Op::Abs(a) | Op::Trunc(a) => k(a),
				Op::Var(_) => false,
			}
		};
		self.nodes.push(Node { op, lo, hi, emitted: false, nonlin });
		self.cons.insert(key, id);
		V::T(id)
	}
	fn lit(&self, v: V) -> String {
		match v {
			V::C(q) => {
				if self.int {
					q.smt_int()
				} else {
					q.smt()
				}
			}
			V::T(i) => format!("t{}", i),
			_ => stop(Stop::Inconclusive("non-finite constant reached the solver".into())),
		}
	}
	fn emit(&mut self, roots: &[u32]) {
		let mut z3 = self.z3.take().unwrap();
		let sort = if self.int { "Int" } else { "Real" };
		while self.declared < self.vars.len() {
			let v = &self.vars[self.declared];
			z3.send(&format!("(declare-const {} {})", v.name, sort));
			let q = |n: i64| {
				let q = Q(n as i128, 1);
				if self.int {
					q.smt_int()
				} else {
					q.smt()
				}
			};
			z3.send(&format!("(assert (and (<= {} {}) (<= {} {})))", q(v.lo), v.name, v.name, q(v.hi)));
			self.declared += 1;
		}
		let mut stack: Vec<(u32, bool)> = roots.iter().map(|r| (*r, false)).collect();
		while let Some((i, done)) = stack.pop() {
			if self.nodes[i as usize].emitted {
				continue;
			}
			let op = self.nodes[i as usize].op;
			let kids: Vec<V> = match op {
				Op::Var(_) => vec![],
				Op::Add(a, b) | Op::Mul(a, b) | Op::Max(a, b) | Op::Min(a, b) | Op::IDiv(a, b) | Op::RDiv(a, b) => vec![a, b],
				Op::Neg(a) | Op::Abs(a) | Op::Trunc(a) => vec![a],
			};
			if !done {
				stack.push((i, true));
				for k in kids {
					if let V::T(j) = k {
						stack.push((j, false));
					}
				}
				continue;
			}
			let l = |v: V| self.lit(v);
			let body = match op {
				Op::Var(v) => self.vars[v as usize].name.clone(),
				Op::Add(a, b) => format!("(+ {} {})", l(a), l(b)),
				Op::Mul(a, b) => format!("(* {} {})", l(a), l(b)),
				Op::Neg(a) => format!("(- {})", l(a)),
				Op::Abs(a) => format!("(ite (>= {0} 0) {0} (- {0}))", l(a)),
				Op::Max(a, b) => format!("(ite (>= {0} {1}) {0} {1})", l(a), l(b)),
				Op::Min(a, b) => format!("(ite (<= {0} {1}) {0} {1})", l(a), l(b)),
				Op::IDiv(a, b) => {
					// truncation towards zero from the floor-like SMT division
					format!("(ite (>= {0} 0) (div {0} {1}) (- (div (- {0}) {1})))", l(a), l(b))
				}
				Op::RDiv(a, b) => format!("(/ {} {})", l(a), l(b)),
				Op::Trunc(a) => format!("(ite (>= {0} 0.0) (to_real (to_int {0})) (- (to_real (to_int (- {0})))))", l(a)),
			};
			z3.send(&format!("(define-fun t{} () {} {})", i, sort, body));
			self.nodes[i as usize].emitted = true;
		}
		self.z3 = Some(z3);
	}
	pub fn assert(&mut self, b: &B) {
		if b.k == Some(true) {
			return;
		}
		self.emit(&b.roots);
		self.z3.as_mut().unwrap().send(&format!("(assert {})", b.s));
	}
	/// Is the path condition together with b satisfiable?
	fn feasible(&mut self, b: &B) -> Sat {
		self.emit(&b.roots);
		let z = self.z3.as_mut().unwrap();
		z.send(&format!("(push 1)\n(assert {})", b.s));
		let r = z.check();
		z.send("(pop 1)");
		r
	}
	fn decide(&mut self, b: &B) -> bool {
		if let Some(k) = b.k {
			return k;
		}
		if self.trace.len() > self.max_dec {
			stop(Stop::Inconclusive(format!("more than {} decisions on a path", self.max_dec)));
		}
		let pos = self.trace.len();
		if pos < self.prefix.len() {
			let o = self.prefix[pos] != 0;
			self.trace.push(Dec { out: o as u32, kind: 1 });
			let c = if o { b.clone() } else { b.clone().not() };
			self.assert(&c);
			return o;
		}
		let t = self.feasible(b);
		let nb = b.clone().not();
		let f = self.feasible(&nb);
		if t == Sat::Unknown {
			self.unknown_branches += 1;
		}
		if f == Sat::Unknown {
			self.unknown_branches += 1;
		}
		let (o, free) = match (t, f) {
			(Sat::Unsat, Sat::Unsat) => stop(Stop::Infeasible),
			(Sat::Unsat, _) => (false, false),
			(_, Sat::Unsat) => (true, false),
			_ => (true, true),
		};
		if free {
			let mut alt: Vec<u32> = self.trace.iter().map(|d| d.out).collect();
			alt.push(0);
			self.alts.push(alt);
		}
		self.trace.push(Dec { out: o as u32, kind: free as u8 });
		let c = if o { b.clone() } else { nb };
		self.assert(&c);
		o
	}
	/// The polynomial a term stands for, over the variables and the terms
	/// which are no sums or products; None when it has too many monomials.
	fn poly(&mut self, v: V) -> Option<Poly> {
		const MAX: usize = 400;
		let i = match v {
			V::C(q) => {
				let mut m = BTreeMap::new();
				if q.0 != 0 {
					m.insert(vec![], q);
				}
				return Some(Arc::new(m));
			}
			V::T(i) => i,
			_ => return None,
		};
		if let Some(p) = self.polys.get(&i) {
			return p.clone();
		}
		fn put(m: &mut BTreeMap<Vec<u32>, Q>, k: Vec<u32>, q: Q) {
			let e = m.entry(k.clone()).or_insert(Q(0, 1));
			*e = e.add(q);
			if e.0 == 0 {
				m.remove(&k);
			}
		}
		let r = match self.nodes[i as usize].op {
			Op::Add(a, b) => match (self.poly(a), self.poly(b)) {
				(Some(x), Some(y)) => {
					let mut m = (*x).clone();
					for (k, q) in y.iter() {
						put(&mut m, k.clone(), *q);
					}
					Some(m)
				}
				_ => None,
			},
			Op::Neg(a) => self.poly(a).map(|x| x.iter().map(|(k, q)| (k.clone(), Q(-q.0, q.1))).collect()),
			Op::Mul(a, b) => match (self.poly(a), self.poly(b)) {
				(Some(x), Some(y)) if x.len() * y.len() <= 4 * MAX => {
					let mut m = BTreeMap::new();
					for (k, q) in x.iter() {
						for (l, p) in y.iter() {
							let mut n = k.clone();
							n.extend_from_slice(l);
							n.sort_unstable();
							put(&mut m, n, q.mul(*p));
						}
					}
					Some(m)
				}
				_ => None,
			},
			_ => Some(std::iter::once((vec![i], Q(1, 1))).collect()),
		};
		let r: Option<Poly> = r.filter(|m| m.len() <= MAX).map(Arc::new);
		self.polys.insert(i, r.clone());
		r
	}
	/// a - b when it is the same number whatever the variables are.  Only
	/// asked about non-linear terms: the solver is good at the others.
	fn poly_diff(&mut self, a: V, b: V) -> Option<Q> {
		let nl = |s: &Self, v: V| matches!(v, V::T(i) if s.nodes[i as usize].nonlin);
		if !(nl(self, a) && nl(self, b)) {
			return None;
		}
		let (x, y) = (self.poly(a)?, self.poly(b)?);
		let z = Q(0, 1);
		for k in x.keys().chain(y.keys()) {
			if !k.is_empty() && x.get(k).unwrap_or(&z).cmp(*y.get(k).unwrap_or(&z)) != Ordering::Equal {
				return None;
			}
		}
		let c = *y.get(&vec![]).unwrap_or(&z);
		Some(x.get(&vec![]).unwrap_or(&z).add(Q(-c.0, c.1)))
	}
	fn cmpb(&mut self, op: Cmp, a: V, b: V) -> B {
		match (a, b) {
			(V::NaN, _) | (_, V::NaN) => return B::k(false),
			(V::Inf(x), V::Inf(y)) => {
				return B::k(match op {
					Cmp::Eq => x == y,
					Cmp::Le => x <= y,
					Cmp::Lt => x < y,
				})
			}
			(V::Inf(x), _) => return B::k(if op == Cmp::Eq { false } else { !x }),
			(_, V::Inf(x)) => return B::k(if op == Cmp::Eq { false } else { x }),
			(V::C(x), V::C(y)) => {
				let o = x.cmp(y);
				return B::k(match op {
					Cmp::Eq => o == Ordering::Equal,
					Cmp::Le => o != Ordering::Greater,
					Cmp::Lt => o == Ordering::Less,
				});
			}
			_ => {}
		}
		if a == b {
			return B::k(op != Cmp::Lt);
		}
		let (ia, ib) = (self.iv(a), self.iv(b));
		if ia.1 < ib.0 {
			return B::k(op != Cmp::Eq);
		}
		if ib.1 < ia.0 {
			return B::k(false);
		}
		let (mut a, mut b) = (a, b);
		if op == Cmp::Eq {
			// canonical operand order
			if let (V::T(x), V::T(y)) = (a, b) {
				if y < x {
					std::mem::swap(&mut a, &mut b);
				}
			}
		}
		if self.int {
			// a fraction against an integer term
			for (p, q) in [(a, b), (b, a)] {
				if let (V::T(_), V::C(c)) = (p, q) {
					if c.1 != 1 {
						let fl = c.0.div_euclid(c.1);
						if op == Cmp::Eq {
							return B::k(false);
						}
						return if p == a {
							self.cmpb(Cmp::Le, p, V::C(Q(fl, 1)))
						} else {
							self.cmpb(Cmp::Lt, V::C(Q(fl, 1)), p)
						};
					}
				}
			}
		}
		if let Some(d) = self.poly_diff(a, b) {
			let o = d.cmp(Q(0, 1));
			return B::k(match op {
				Cmp::Eq => o == Ordering::Equal,
				Cmp::Le => o != Ordering::Greater,
				Cmp::Lt => o == Ordering::Less,
			});
		}
		let o = match op {
			Cmp::Eq => "=",
			Cmp::Le => "<=",
			Cmp::Lt => "<",
		};
		let mut roots = vec![];
		for v in [a, b] {
			if let V::T(i) = v {
				roots.push(i);
			}
		}
		B { k: None, s: format!("({} {} {})", o, self.lit(a), self.lit(b)), roots }
	}
	/// All terms equal the numbers as_f64 gave for them: on such inputs the
	/// native run gets the same numbers.
	pub fn faithful(&mut self) -> B {
		let l: Vec<(V, f64)> = self.reps.clone();
		let mut v = vec![];
		for (t, r) in l {
			if let Some(q) = Q::from_f64(r) {
				v.push(self.cmpb(Cmp::Eq, t, V::C(q)));
			}
		}
		B::all(v)
	}
	fn as_f64(&mut self, v: V) -> f64 {
		let r = self.as_f64_rep(v);
		if let (V::T(_), true) = (v, self.mode != Mode::Opaque && self.reps.len() < 200) {
			if !self.reps.iter().any(|(t, _)| *t == v) {
				self.reps.push((v, r));
			}
		}
		r
	}
	fn as_f64_rep(&mut self, v: V) -> f64 {
		match v {
			V::C(q) => {
				return q.f64();
			}
			V::NaN => return f64::NAN,
			V::Inf(true) => return f64::INFINITY,
			V::Inf(false) => return f64::NEG_INFINITY,
			V::T(i) => {
				if self.mode == Mode::Opaque {
					return (1000.0 + i as f64) * if self.tiny { TINY * TINY } else { 1.0 };
				}
			}
		}
		if self.mode == Mode::Sign {
			let z = V::C(Q(0, 1));
			let e = self.cmpb(Cmp::Eq, v, z);
			if self.decide(&e) {
				return 0.0;
			}
			let l = self.cmpb(Cmp::Lt, v, z);
			let i = if let V::T(i) = v { i as f64 } else { 0.0 };
			let u = if self.tiny { TINY * TINY } else { 1.0 };
			return if self.decide(&l) { (-1e6 - i) * u } else { (1e6 + i) * u };
		}
		if self.order.is_empty() {
			self.order.push((0.0, V::C(Q(0, 1))));
		}
		if self.mode == Mode::Class {
			let c: Vec<(f64, V)> = self.order.clone();
			let i = if let V::T(i) = v { i as f64 } else { 0.0 };
			let (mut lo, mut hi) = (0usize, c.len());
			while lo < hi {
				let mid = (lo + hi) / 2;
				if c[mid].1 == V::C(Q(0, 1)) {
					let e = self.cmpb(Cmp::Eq, v, c[mid].1);
					if self.decide(&e) {
						return c[mid].0;
					}
				}
				let l = self.cmpb(Cmp::Le, v, c[mid].1);
				if self.decide(&l) {
					hi = mid;
				} else {
					lo = mid + 1;
				}
			}
			return if lo == 0 {
				c[0].0 - self.gap - i
			} else if lo == c.len() {
				c[lo - 1].0 + self.gap + i
			} else {
				c[lo - 1].0 + (c[lo].0 - c[lo - 1].0) * (0.25 + (i + 1.0) / 1e7)
			};
		}
		// look for the same term
		if let Some((r, _)) = self.order.iter().find(|(_, t)| *t == v) {
			return *r;
		}
		// position by binary search over the (sorted) list
		let (mut lo, mut hi) = (0usize, self.order.len());
		while lo < hi {
			let mid = (lo + hi) / 2;
			let (rep, t) = self.order[mid];
			let e = self.cmpb(Cmp::Eq, v, t);
			if self.decide(&e) {
				return rep;
			}
			let l = self.cmpb(Cmp::Lt, v, t);
			if self.decide(&l) {
				hi = mid;
			} else {
				lo = mid + 1;
			}
		}
		let gap = self.gap;
		let rep = if self.order.is_empty() {
			0.0
		} else if lo == 0 {
			self.order[0].0 - gap
		} else if lo == self.order.len() {
			self.order[lo - 1].0 + gap
		} else {
			(self.order[lo - 1].0 + self.order[lo].0) / 2.0
		};
		self.order.insert(lo, (rep, v));
		rep
	}
}

// ---------------------------------------------------------------- harness API

fn conc_tol() -> f64 {
	CTX.with(|c| match &*c.borrow() {
		Ctx::Conc(s) => s.tol,
		_ => 1e-7,
	})
}

pub fn is_conc() -> bool {
	CTX.with(|c| matches!(&*c.borrow(), Ctx::Conc(_)))
}

pub fn set_mode(m: Mode) {
	CTX.with(|c| {
		if let Ctx::Sym(s) = &mut *c.borrow_mut() {
			s.mode = m;
		}
	})
}

pub fn order_anchors_q(v: &[(i64, i64)]) {
	CTX.with(|c| {
		if let Ctx::Sym(s) = &mut *c.borrow_mut() {
			let mut o: Vec<Q> = v.iter().map(|(n, d)| Q::new(*n as i128, *d as i128)).collect();
			o.push(Q(0, 1));
			o.sort_by(|a, b| a.cmp(*b));
			o.dedup();
			s.order = o.iter().map(|x| (x.f64(), V::C(*x))).collect();
		}
	})
}

/// Numbers that differ by very little: as_f64 gives representatives 2^-34
/// apart, and native runs are judged without a tolerance for rounding.
pub fn fine() {
	CTX.with(|c| match &mut *c.borrow_mut() {
		Ctx::Sym(s) => s.gap = 1.0 / (1u64 << 34) as f64,
		Ctx::Conc(s) => s.tol = 1e-13,
		_ => {}
	})
}

const TINY: f64 = 1.0 / (1u64 << 30) as f64;
/// All variables are small numbers (of a type with fractions).
pub fn tiny() {
	fine();
	CTX.with(|c| match &mut *c.borrow_mut() {
		Ctx::Sym(s) => s.tiny = true,
		Ctx::Conc(s) => s.tiny = true,
		_ => {}
	})
}

pub fn is_tiny() -> bool {
	CTX.with(|c| match &*c.borrow() {
		Ctx::Sym(s) => s.tiny,
		Ctx::Conc(s) => s.tiny,
		_ => false,
	})
}

/// Additional constants symbolic values are ordered against by as_f64.
pub fn order_anchors(v: &[i64]) {
	CTX.with(|c| {
		if let Ctx::Sym(s) = &mut *c.borrow_mut() {
			let mut o: Vec<i64> = v.to_vec();
			o.push(0);
			o.sort();
			o.dedup();
			s.order = o.iter().map(|x| (*x as f64, V::C(Q(*x as i128, 1)))).collect();
		}
	})
}

pub fn choose(n: usize) -> usize {
	assert!(n > 0);
	if n == 1 {
		return 0;
	}
	CTX.with(|c| match &mut *c.borrow_mut() {
		Ctx::Sym(s) => {
			let pos = s.trace.len();
			let o = if pos < s.prefix.len() {
				s.prefix[pos]
			} else {
				let base: Vec<u32> = s.trace.iter().map(|d| d.out).collect();
				for k in (1..n as u32).rev() {
					let mut a = base.clone();
					a.push(k);
					s.alts.push(a);
				}
				0
			};
			s.trace.push(Dec { out: o, kind: 2 });
			s.choices.push(o);
			live(|l| l.choices.push(o));
			o as usize
		}
		Ctx::Conc(s) => {
			let o = s.choices.get(s.pos).copied().unwrap_or(0);
			s.pos += 1;
			o as usize
		}
		Ctx::None => panic!("no context"),
	})
}

pub fn check(b: B, msg: impl FnOnce() -> String) {
	// messages are made in the native replay only
	let m = if is_conc() && !b.conc() { msg() } else { String::new() };
	CTX.with(|c| match &mut *c.borrow_mut() {
		Ctx::Sym(s) => {
			if b.k == Some(true) {
				s.trivially_true += 1;
			} else {
				let i = s.checks.len();
				s.checks.push((b, format!("assertion {}", i)));
			}
		}
		Ctx::Conc(s) => {
			s.checks += 1;
			if !b.conc() {
				s.failed.push(m);
			}
		}
		Ctx::None => panic!("no context"),
	})
}

pub fn assume(b: B) {
	let k = CTX.with(|c| match &mut *c.borrow_mut() {
		Ctx::Sym(s) => {
			if b.k.is_none() {
				s.assert(&b);
			}
			b.k
		}
		_ => b.k,
	});
	if k == Some(false) {
		stop(Stop::Infeasible)
	}
}

/// Fork on a condition.
pub fn branch(b: B) -> bool {
	match b.k {
		Some(k) => k,
		None => {
			CTX.with(|c| match &mut *c.borrow_mut() {
				Ctx::Sym(s) => s.decide(&b),
				_ => unreachable!(),
			})
		}
	}
}

pub fn note(s: impl FnOnce() -> String) {
	let s = s();
	CTX.with(|c| match &mut *c.borrow_mut() {
		Ctx::Sym(x) => x.notes.push(s),
		Ctx::Conc(x) => x.notes.push(s),
		_ => {}
	})
}

/// Record that an interesting situation was reached (vacuity guard).
pub fn cover(s: &str) {
	CTX.with(|c| match &mut *c.borrow_mut() {
		Ctx::Sym(x) => x.covers.push(s.to_string()),
		Ctx::Conc(x) => x.covers.push(s.to_string()),
		_ => {}
	})
}

pub trait Num: Real {
	const INT: bool;
	fn var(name: &str, lo: i64, hi: i64) -> Self;
	fn cmpb(op: Cmp, a: Self, b: Self) -> B;
	fn observe(name: &str, v: Self);
	fn eqb(self, o: Self) -> B {
		Self::cmpb(Cmp::Eq, self, o)
	}
	fn leb(self, o: Self) -> B {
		Self::cmpb(Cmp::Le, self, o)
	}
	fn ltb(self, o: Self) -> B {
		Self::cmpb(Cmp::Lt, self, o)
	}
	fn int(i: i64) -> Self {
		Self::from_i32(i as i32)
	}
	/// n/d (exact in the symbolic types)
	fn frac(n: i64, d: i64) -> Self;
	fn show(self) -> String;
}

impl<const INT: bool> Num for S<INT> {
	const INT: bool = INT;
	fn var(name: &str, lo: i64, hi: i64) -> Self {
		let (v, tiny) = sym(|s| {
			assert!(s.int == INT);
			if let Some(f) = &s.fixed {
				return (V::C(f.get(name).copied().unwrap_or(Q(0, 1))), s.tiny);
			}
			assert!(!s.vars.iter().any(|v| v.name == name), "duplicated variable {}", name);
			s.vars.push(VarInfo { name: name.to_string(), lo, hi });
			let i = s.vars.len() as u32 - 1;
			(s.mk(Op::Var(i)), s.tiny)
		});
		if tiny {
			S(v) * Self::frac(1, 1 << 30)
		} else {
			S(v)
		}
	}
	fn cmpb(op: Cmp, a: Self, b: Self) -> B {
		sym(|s| s.cmpb(op, a.0, b.0))
	}
	fn observe(name: &str, v: Self) {
		sym(|s| s.observed.push((name.to_string(), v.0)))
	}
	fn frac(n: i64, d: i64) -> Self {
		S(V::C(Q::new(n as i128, d as i128)))
	}
	fn show(self) -> String {
		format!("{}", self)
	}
}

macro_rules! conc_num {
	($t:ty, $int:expr) => {
		impl Num for $t {
			const INT: bool = $int;
			fn var(name: &str, _lo: i64, _hi: i64) -> Self {
				CTX.with(|c| match &mut *c.borrow_mut() {
					Ctx::Conc(s) => (*s.vars.get(name).unwrap_or(&0.0) * if s.tiny { TINY } else { 1.0 }) as $t,
					_ => panic!("no concrete context"),
				})
			}
			fn cmpb(op: Cmp, a: Self, b: Self) -> B {
				let tol = if $int { 0.0 } else { conc_tol() * (1.0 + (a as f64).abs().max((b as f64).abs())) };
				let (x, y) = (a as f64, b as f64);
				B::k(match op {
					Cmp::Eq => {
						if $int {
							a == b
						} else {
							(x - y).abs() <= tol || x == y
						}
					}
					Cmp::Le => a <= b || (!$int && x <= y + tol),
					Cmp::Lt => a < b && ($int || x < y - tol),
				})
			}
			fn observe(name: &str, v: Self) {
				CTX.with(|c| {
					if let Ctx::Conc(s) = &mut *c.borrow_mut() {
						s.observed.push((name.to_string(), v as f64))
					}
				})
			}
			fn frac(n: i64, d: i64) -> Self {
				(n as f64 / d as f64) as $t
			}
			fn show(self) -> String {
				format!("{}", self)
			}
		}
	};
}
conc_num!(i64, true);
conc_num!(f64, false);

// ---------------------------------------------------------------- Real for S

impl<const INT: bool> std::fmt::Display for S<INT> {
	fn fmt(&self, f: &mut std::fmt::Formatter<'_>) -> std::fmt::Result {
		match self.0 {
			V::C(q) if q.1 == 1 => write!(f, "{}", q.0),
			V::C(q) => write!(f, "{}/{}", q.0, q.1),
			V::NaN => f.write_str("NaN"),
			V::Inf(p) => f.write_str(if p { "inf" } else { "-inf" }),
			V::T(i) => {
				let s = CTX.with(|c| match &*c.borrow() {
					Ctx::Sym(s) => s.render(V::T(i), 6),
					_ => format!("t{}", i),
				});
				f.write_str(&s)
			}
		}
	}
}
impl SymCtx {
	fn render(&self, v: V, d: usize) -> String {
		match v {
			V::C(q) if q.1 == 1 => format!("{}", q.0),
			V::C(q) => format!("{}/{}", q.0, q.1),
			V::NaN => "NaN".into(),
			V::Inf(_) => "inf".into(),
			V::T(_) if d == 0 => "..".into(),
			V::T(i) => {
				let r = |v| self.render(v, d - 1);
				match self.nodes[i as usize].op {
					Op::Var(v) => self.vars[v as usize].name.clone(),
					Op::Add(a, b) => format!("({}+{})", r(a), r(b)),
					Op::Mul(a, b) => format!("{}*{}", r(a), r(b)),
					Op::Neg(a) => format!("-{}", r(a)),
					Op::Abs(a) => format!("|{}|", r(a)),
					Op::Max(a, b) => format!("max({},{})", r(a), r(b)),
					Op::Min(a, b) => format!("min({},{})", r(a), r(b)),
					Op::IDiv(a, b) | Op::RDiv(a, b) => format!("{}/{}", r(a), r(b)),
					Op::Trunc(a) => format!("trunc({})", r(a)),
				}
			}
		}
	}
}
impl<const INT: bool> std::fmt::Debug for S<INT> {
	fn fmt(&self, f: &mut std::fmt::Formatter<'_>) -> std::fmt::Result {
		std::fmt::Display::fmt(self, f)
	}
}
impl<const INT: bool> Default for S<INT> {
	fn default() -> Self {
		S(V::C(Q(0, 1)))
	}
}
impl<const INT: bool> PartialEq for S<INT> {
	fn eq(&self, o: &Self) -> bool {
		if let (V::C(a), V::C(b)) = (self.0, o.0) {
			return a == b;
		}
		branch(Self::cmpb(Cmp::Eq, *self, *o))
	}
}
impl<const INT: bool> PartialOrd for S<INT> {
	fn partial_cmp(&self, o: &Self) -> Option<Ordering> {
		if let (V::NaN, _) | (_, V::NaN) = (self.0, o.0) {
			return None;
		}
		if let (V::C(a), V::C(b)) = (self.0, o.0) {
			return Some(a.cmp(b));
		}
		if branch(Self::cmpb(Cmp::Lt, *self, *o)) {
			Some(Ordering::Less)
		} else if branch(Self::cmpb(Cmp::Eq, *self, *o)) {
			Some(Ordering::Equal)
		} else {
			Some(Ordering::Greater)
		}
	}
	fn lt(&self, o: &Self) -> bool {
		branch(Self::cmpb(Cmp::Lt, *self, *o))
	}
	fn le(&self, o: &Self) -> bool {
		branch(Self::cmpb(Cmp::Le, *self, *o))
	}
	fn gt(&self, o: &Self) -> bool {
		branch(Self::cmpb(Cmp::Lt, *o, *self))
	}
	fn ge(&self, o: &Self) -> bool {
		branch(Self::cmpb(Cmp::Le, *o, *self))
	}
}
fn zero(v: V) -> bool {
	v == V::C(Q(0, 1))
}
fn one(v: V) -> bool {
	v == V::C(Q(1, 1))
}
impl<const INT: bool> std::ops::Add for S<INT> {
	type Output = Self;
	fn add(self, o: Self) -> Self {
		S(match (self.0, o.0) {
			(V::NaN, _) | (_, V::NaN) => V::NaN,
			(V::Inf(a), V::Inf(b)) => {
				if a == b {
					V::Inf(a)
				} else {
					V::NaN
				}
			}
			(V::Inf(a), _) | (_, V::Inf(a)) => V::Inf(a),
			(V::C(a), V::C(b)) => V::C(a.add(b)),
			(a, b) if zero(a) => b,
			(a, b) if zero(b) => a,
			(a, b) => sym(|s| {
				// x + -x
				let neg = |x: V, y: V| {
					if let V::T(i) = x {
						if let Op::Neg(z) = s.nodes[i as usize].op {
							return z == y;
						}
					}
					false
				};
				if neg(a, b) || neg(b, a) {
					V::C(Q(0, 1))
				} else {
					s.mk(Op::Add(a, b))
				}
			}),
		})
	}
}
impl<const INT: bool> std::ops::Neg for S<INT> {
	type Output = Self;
	fn neg(self) -> Self {
		S(match self.0 {
			V::NaN => V::NaN,
			V::Inf(a) => V::Inf(!a),
			V::C(a) => V::C(Q(-a.0, a.1)),
			v => sym(|s| {
				if let V::T(i) = v {
					if let Op::Neg(x) = s.nodes[i as usize].op {
						return x;
					}
				}
				s.mk(Op::Neg(v))
			}),
		})
	}
}
impl<const INT: bool> std::ops::Sub for S<INT> {
	type Output = Self;
	fn sub(self, o: Self) -> Self {
		self + (-o)
	}
}
impl<const INT: bool> std::ops::Mul for S<INT> {
	type Output = Self;
	fn mul(self, o: Self) -> Self {
		S(match (self.0, o.0) {
			(V::NaN, _) | (_, V::NaN) => V::NaN,
			(V::Inf(a), V::C(q)) | (V::C(q), V::Inf(a)) => {
				if q.0 == 0 {
					V::NaN
				} else {
					V::Inf(a == (q.0 > 0))
				}
			}
			(V::Inf(_), _) | (_, V::Inf(_)) => stop(Stop::Inconclusive("infinity times a symbolic value".into())),
			(V::C(a), V::C(b)) => V::C(a.mul(b)),
			(a, b) if zero(a) || zero(b) => V::C(Q(0, 1)),
			(a, b) if one(a) => b,
			(a, b) if one(b) => a,
			(V::C(Q(-1, 1)), b) => return -S::<INT>(b),
			(a, V::C(Q(-1, 1))) => return -S::<INT>(a),
			(a, b) => sym(|s| s.mk(Op::Mul(a, b))),
		})
	}
}
impl<const INT: bool> std::ops::Div for S<INT> {
	type Output = Self;
	fn div(self, o: Self) -> Self {
		match (self.0, o.0) {
			(_, V::C(b)) if b.0 == 0 => {
				if INT {
					panic!("attempt to divide by zero")
				}
				match self.0 {
					V::C(a) if a.0 == 0 => S(V::NaN),
					V::C(a) => S(V::Inf(a.0 > 0)),
					_ => stop(Stop::Inconclusive("symbolic value divided by zero".into())),
				}
			}
			(V::C(a), V::C(b)) => {
				if INT {
					S(V::C(Q(a.0 / b.0, 1)))
				} else {
					S(V::C(a.mul(Q::new(b.1, b.0))))
				}
			}
			(V::NaN, _) | (_, V::NaN) => S(V::NaN),
			(V::Inf(_), _) | (_, V::Inf(_)) => stop(Stop::Inconclusive("division with infinity".into())),
			(a, V::C(b)) if !INT => S::<INT>(a) * S(V::C(Q::new(b.1, b.0))),
			(a, b) => {
				if let V::T(_) = b {
					if branch(Self::cmpb(Cmp::Eq, o, S(V::C(Q(0, 1))))) {
						if INT {
							panic!("attempt to divide by zero")
						}
						stop(Stop::Inconclusive("division by a symbolic zero".into()))
					}
				}
				S(sym(|s| s.mk(if INT { Op::IDiv(a, b) } else { Op::RDiv(a, b) })))
			}
		}
	}
}
macro_rules! asg {
	($t:ident, $f:ident, $op:tt) => {
		impl<const INT: bool> std::ops::$t for S<INT> {
			fn $f(&mut self, o: Self) {
				*self = *self $op o;
			}
		}
	};
}
asg!(AddAssign, add_assign, +);
asg!(SubAssign, sub_assign, -);
asg!(MulAssign, mul_assign, *);
asg!(DivAssign, div_assign, /);
impl<const INT: bool> std::iter::Sum for S<INT> {
	fn sum<I: Iterator<Item = Self>>(i: I) -> Self {
		i.fold(S(V::C(Q(0, 1))), |a, b| a + b)
	}
}
impl<const INT: bool> std::iter::Product for S<INT> {
	fn product<I: Iterator<Item = Self>>(i: I) -> Self {
		i.fold(S(V::C(Q(1, 1))), |a, b| a * b)
	}
}
impl<const INT: bool> Real for S<INT> {
	const MAX: Self = S(V::C(Q(1 << 100, 1)));
	const MIN: Self = S(V::C(Q(-(1 << 100), 1)));
	fn as_f64(&self) -> f64 {
		match self.0 {
			V::C(q) => q.f64(),
			v => sym(|s| s.as_f64(v)),
		}
	}
	fn from_i32(i: i32) -> Self {
		S(V::C(Q(i as i128, 1)))
	}
	fn from_f64(f: f64) -> Self {
		if INT {
			// the saturating cast of the primitive types
			if f.is_nan() {
				return S(V::C(Q(0, 1)));
			}
			if f >= 9.3e18 {
				return Self::MAX;
			}
			if f <= -9.3e18 {
				return Self::MIN;
			}
			return S(V::C(Q(f.trunc() as i128, 1)));
		}
		if f.is_nan() {
			return S(V::NaN);
		}
		if f.is_infinite() {
			return S(V::Inf(f > 0.0));
		}
		match Q::from_f64(f) {
			Some(q) => S(V::C(q)),
			None => stop(Stop::Inconclusive("constant outside of the exact range".into())),
		}
	}
	fn abs(self) -> Self {
		match self.0 {
			V::C(q) => S(V::C(Q(q.0.abs(), q.1))),
			V::NaN => self,
			V::Inf(_) => S(V::Inf(true)),
			v => S(sym(|s| s.mk(Op::Abs(v)))),
		}
	}
	fn min(self, o: Self) -> Self {
		match (self.0, o.0) {
			(V::NaN, _) => o,
			(_, V::NaN) => self,
			(V::T(_), V::T(_)) | (V::T(_), V::C(_)) | (V::C(_), V::T(_)) => S(sym(|s| s.mk(Op::Min(self.0, o.0)))),
			_ => {
				if self <= o {
					self
				} else {
					o
				}
			}
		}
	}
	fn max(self, o: Self) -> Self {
		match (self.0, o.0) {
			(V::NaN, _) => o,
			(_, V::NaN) => self,
			(V::T(_), V::T(_)) | (V::T(_), V::C(_)) | (V::C(_), V::T(_)) => S(sym(|s| s.mk(Op::Max(self.0, o.0)))),
			_ => {
				if self >= o {
					self
				} else {
					o
				}
			}
		}
	}
	fn nan_or(other: Self) -> Self {
		if INT {
			other
		} else {
			S(V::NaN)
		}
	}
	fn is_finite(self) -> bool {
		!matches!(self.0, V::NaN | V::Inf(_))
	}
}

// ---------------------------------------------------------------- path solving

pub struct Model {
	pub vars: BTreeMap<String, Q>,
	pub observed: Vec<(String, Option<Q>)>,
}

impl SymCtx {
	/// Model of the current assertions plus extra; prefers integers and small
	/// magnitudes.
	pub fn model(&mut self, extra: &B) -> (Sat, Option<Model>) {
		let mut roots = extra.roots.clone();
		for (_, v) in &self.observed {
			if let V::T(i) = v {
				roots.push(*i);
			}
		}
		self.emit(&roots);
		let int = self.int;
		let obs = self.observed.clone();
		let vars = self.vars.clone();
		let z = self.z3.as_mut().unwrap();
		z.send(&format!("(push 1)\n(assert {})", extra.s));
		let r = z.check();
		if r != Sat::Sat {
			z.send("(pop 1)");
			return (r, None);
		}
		let names: Vec<String> = vars.iter().map(|v| v.name.clone()).collect();
		let oname: Vec<String> = obs
			.iter()
			.filter_map(|(_, v)| if let V::T(i) = v { Some(format!("t{}", i)) } else { None })
			.collect();
		// try for small integers
		let mut got = None;
		for bound in [4i64, 60, 0] {
			z.send("(push 1)");
			for n in &names {
				if !int {
					z.send(&format!("(assert (is_int {}))", n));
				}
				if bound > 0 {
					if int {
						z.send(&format!("(assert (and (<= (- {}) {}) (<= {} {})))", bound, n, n, bound));
					} else {
						z.send(&format!("(assert (and (<= (- {}.0) {}) (<= {} {}.0)))", bound, n, n, bound));
					}
				}
			}
			let ok = z.check_pref() == Sat::Sat;
			if ok {
				got = Some((z.values(&names), z.values(&oname)));
			}
			z.send("(pop 1)");
			if ok {
				break;
			}
		}
		let (vv, oo) = match got {
			Some(g) => g,
			None => {
				if z.check() != Sat::Sat {
					z.send("(pop 1)");
					return (Sat::Unknown, None);
				}
				(z.values(&names), z.values(&oname))
			}
		};
		z.send("(pop 1)");
		let mut m = BTreeMap::new();
		for (n, v) in names.iter().zip(vv) {
			match v {
				Some(q) => {
					m.insert(n.clone(), q);
				}
				None => return (Sat::Sat, None),
			}
		}
		let mut it = oo.into_iter();
		let observed = obs
			.iter()
			.map(|(n, v)| {
				(n.clone(), match v {
					V::T(_) => it.next().unwrap(),
					V::C(q) => Some(*q),
					_ => None,
				})
			})
			.collect();
		(Sat::Sat, Some(Model { vars: m, observed }))
	}
}

pub fn fmt_vars(m: &BTreeMap<String, f64>) -> String {
	let mut s = String::new();
	for (k, v) in m {
		let _ = write!(s, "{}={} ", k, v);
	}
	s.trim_end().to_string()
}
