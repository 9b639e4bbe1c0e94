//! Exploration of scenarios, native replay of models, reports.
use crate::eng::*;
use std::cell::RefCell;
use std::collections::BTreeMap;
use std::fmt::Write as _;
use std::panic::{catch_unwind, AssertUnwindSafe};
use std::sync::atomic::{AtomicU64, Ordering::SeqCst};
use std::sync::{Arc, Mutex};
use std::time::Instant;

pub struct Scen {
	pub name: String,
	pub what: String,
	pub int: bool,
	pub seeds: Vec<u64>,
	pub covers: Vec<&'static str>,
	pub sym: Arc<dyn Fn() + Send + Sync>,
	pub conc: Arc<dyn Fn() + Send + Sync>,
}

#[macro_export]
macro_rules! scen {
	($v:expr, $name:expr, $what:expr, int, $seeds:expr, $covers:expr, $f:ident $(:: <$g:ty>)? ($($a:expr),*)) => {{
		let sym = move || $f::<$crate::eng::SI $(, $g)?>($($a),*);
		let conc = move || $f::<i64 $(, $g)?>($($a),*);
		$v.push($crate::run::Scen { name: $name.to_string(), what: $what.to_string(), int: true, seeds: $seeds, covers: $covers, sym: std::sync::Arc::new(sym), conc: std::sync::Arc::new(conc) });
	}};
	($v:expr, $name:expr, $what:expr, real, $seeds:expr, $covers:expr, $f:ident $(:: <$g:ty>)? ($($a:expr),*)) => {{
		let sym = move || $f::<$crate::eng::SR $(, $g)?>($($a),*);
		let conc = move || $f::<f64 $(, $g)?>($($a),*);
		$v.push($crate::run::Scen { name: $name.to_string(), what: $what.to_string(), int: false, seeds: $seeds, covers: $covers, sym: std::sync::Arc::new(sym), conc: std::sync::Arc::new(conc) });
	}};
}

/// The same with small numbers.
pub fn tiny_of(v: &mut Vec<Scen>, pick: impl Fn(&str) -> bool) {
	let l: Vec<Scen> = v
		.iter()
		.filter(|s| !s.int && pick(&s.name))
		.map(|s| {
			let (a, b) = (s.sym.clone(), s.conc.clone());
			Scen {
				name: format!("{}-tiny", s.name),
				what: format!("{}, small numbers", s.what),
				int: false,
				seeds: s.seeds[..1].to_vec(),
				covers: vec![],
				sym: Arc::new(move || {
					tiny();
					a()
				}),
				conc: Arc::new(move || {
					tiny();
					b()
				}),
			}
		})
		.collect();
	v.extend(l);
}

thread_local! { static PANIC: RefCell<Option<String>> = const { RefCell::new(None) }; }

#[derive(Default, Clone)]
pub struct Stats {
	pub paths: u64,
	pub infeasible: u64,
	pub inconclusive: Vec<String>,
	pub decisions: u64,
	pub free: u64,
	pub choices: u64,
	pub queries: u64,
	pub unsat: u64,
	pub sat: u64,
	pub unknown: u64,
	pub errors: u64,
	pub solver_s: f64,
	pub checks: u64,
	pub check_queries: u64,
	pub trivially: u64,
	pub validated: u64,
	pub obs_compared: u64,
	pub ties: u64,
	pub pending: u64,
	pub maxabs: f64,
	pub samples: Vec<String>,
	pub covers: BTreeMap<String, u64>,
	pub mismatches: Vec<String>,
	pub wall: f64,
	pub maxvars: usize,
	pub validation_hash: u64,
}

#[derive(Clone)]
pub struct Viol {
	pub scen: String,
	pub seed: u64,
	pub choices: Vec<u32>,
	pub vars: BTreeMap<String, f64>,
	pub msgs: Vec<String>,
	pub notes: Vec<String>,
}

fn pool<T: Send>(f: impl FnOnce() -> T + Send) -> T {
	let p = rayon::ThreadPoolBuilder::new().num_threads(1).stack_size(64 << 20).build().expect("pool");
	let l = LIVE.with(|l| l.borrow().clone());
	p.install(|| {
		LIVE.with(|x| *x.borrow_mut() = l);
		f()
	})
}

fn ctx_take() -> Ctx {
	CTX.with(|c| std::mem::replace(&mut *c.borrow_mut(), Ctx::None))
}

enum End {
	Ok,
	Panic(String),
	Infeasible,
	Inconclusive(String),
}

fn guarded(f: &dyn Fn()) -> End {
	PANIC.with(|p| *p.borrow_mut() = None);
	match catch_unwind(AssertUnwindSafe(f)) {
		Ok(()) => End::Ok,
		Err(e) => match e.downcast_ref::<Stop>() {
			Some(Stop::Infeasible) => End::Infeasible,
			Some(Stop::Inconclusive(s)) => End::Inconclusive(s.clone()),
			None => End::Panic(PANIC.with(|p| p.borrow_mut().take()).unwrap_or_else(|| "panic".into())),
		},
	}
}

/// Run natively with the given inputs.
pub fn concrete(sc: &Scen, seed: u64, choices: &[u32], vars: &BTreeMap<String, f64>) -> (ConcCtx, bool) {
	let f = sc.conc.clone();
	let choices = choices.to_vec();
	let vars = vars.clone();
	live(|l| {
		l.choices = choices.clone();
		l.vars = vars.clone();
	});
	pool(move || {
		HASHSEED.with(|h| h.set(seed));
		CTX.with(|c| {
			*c.borrow_mut() = Ctx::Conc(Box::new(ConcCtx {
				tol: 1e-7,
				tiny: false,
				vars,
				choices,
				pos: 0,
				failed: vec![],
				observed: vec![],
				notes: vec![],
				panic_msg: None,
				checks: 0,
				covers: vec![],
			}))
		});
		let e = guarded(&*f);
		let mut c = match ctx_take() {
			Ctx::Conc(c) => *c,
			_ => unreachable!(),
		};
		let mut infeasible = false;
		match e {
			End::Ok => {}
			End::Infeasible => infeasible = true,
			End::Panic(m) => {
				c.failed.push(format!("panic: {}", m));
				c.panic_msg = Some(m);
			}
			End::Inconclusive(m) => c.failed.push(format!("engine: {}", m)),
		}
		(c, infeasible)
	})
}

struct PathOut {
	alts: Vec<Vec<u32>>,
	cand: Option<Viol>,
	stats: Stats,
	z3: Option<Z3>,
}

fn qmap(m: &BTreeMap<String, Q>) -> BTreeMap<String, f64> {
	m.iter().map(|(k, v)| (k.clone(), v.f64())).collect()
}

fn run_path(sc: &Scen, seed: u64, prefix: Vec<u32>, z3: Z3, validate: bool) -> PathOut {
	let f = sc.sym.clone();
	let int = sc.int;
	let (q0, u0, s0, k0, e0, t0) = (z3.queries, z3.unsat, z3.sat, z3.unknown, z3.errors, z3.time);
	let (mut cx, end, mut st) = pool(move || {
		HASHSEED.with(|h| h.set(seed));
		CTX.with(|c| *c.borrow_mut() = Ctx::Sym(Box::new(SymCtx::new(int, prefix, z3))));
		let end = guarded(&*f);
		let cx = match ctx_take() {
			Ctx::Sym(c) => c,
			_ => unreachable!(),
		};
		(cx, end, Stats::default())
	});
	if cx.z3.is_none() {
		// lost in an engine panic
		st.inconclusive.push("solver connection lost".into());
		return PathOut { alts: std::mem::take(&mut cx.alts), cand: None, stats: st, z3: None };
	}
	st.decisions = cx.trace.len() as u64;
	st.free = cx.trace.iter().filter(|d| d.kind == 1).count() as u64;
	st.choices = cx.choices.len() as u64;
	st.trivially = cx.trivially_true;
	st.maxabs = cx.maxabs;
	st.maxvars = cx.vars.len();
	let mut cand = None;
	let mkviol = |cx: &SymCtx, m: &Model, msgs: Vec<String>| Viol {
		scen: sc.name.clone(),
		seed,
		choices: cx.choices.clone(),
		vars: qmap(&m.vars),
		msgs,
		notes: cx.notes.clone(),
	};
	match end {
		End::Infeasible => st.infeasible = 1,
		End::Inconclusive(s) => st.inconclusive.push(s),
		End::Panic(msg) => {
			st.paths = 1;
			match cx.model(&B::k(true)) {
				(Sat::Sat, Some(m)) => {
					if let Some(v) = confirm(sc, &mkviol(&cx, &m, vec![msg.clone()]), &mut st) {
						cand = Some(v);
					} else {
						st.inconclusive.push(format!("panic not reproduced natively: {}", msg));
					}
				}
				(Sat::Unsat, _) => st.infeasible = 1,
				_ => st.inconclusive.push(format!("panic on a path of unknown feasibility: {}", msg)),
			}
		}
		End::Ok => {
			let checks = std::mem::take(&mut cx.checks);
			st.checks = checks.len() as u64 + cx.trivially_true;
			let mut feas = true;
			if !checks.is_empty() {
				let all = B::all(checks.iter().map(|(b, _)| b.clone()).collect());
				st.check_queries += 1;
				let neg = all.not();
				let (r, m) = cx.model(&neg);
				match (r, m) {
					(Sat::Unsat, _) => {}
					(Sat::Sat, Some(m)) => {
						let v = mkviol(&cx, &m, vec![]);
						match confirm(sc, &v, &mut st) {
							Some(v) => cand = Some(v),
							None => {
								// an input on which the native run gets the
								// same numbers from as_f64
								let mut done = false;
								let fa = cx.faithful();
								if let (Sat::Sat, Some(m)) = cx.model(&neg.clone().and(fa)) {
									let v = mkviol(&cx, &m, vec![]);
									if let Some(v) = confirm(sc, &v, &mut st) {
										cand = Some(v);
										done = true;
									}
								}
								// another model of each failing assertion on its own
								for (b, msg) in &checks {
									if done {
										break;
									}
									if let (Sat::Sat, Some(m)) = cx.model(&b.clone().not()) {
										let v = mkviol(&cx, &m, vec![msg.clone()]);
										if let Some(v) = confirm(sc, &v, &mut st) {
											cand = Some(v);
											done = true;
											break;
										}
									}
								}
								if !done {
									st.inconclusive.push(format!("counterexample not reproduced natively: {} {:?} {}", sc.name, cx.choices, fmt_vars(&v.vars)));
								}
							}
						}
					}
					_ => {
						// one by one
						for (b, msg) in &checks {
							let (r, m) = cx.model(&b.clone().not());
							match (r, m) {
								(Sat::Unsat, _) => {}
								(Sat::Sat, Some(m)) => {
									let v = mkviol(&cx, &m, vec![msg.clone()]);
									if let Some(v) = confirm(sc, &v, &mut st) {
										cand = Some(v);
										break;
									}
									st.inconclusive.push(format!("counterexample not reproduced natively: {}", msg));
								}
								_ => st.inconclusive.push(format!("solver gave no answer for: {} ({})", msg, LASTERR.with(|e| e.borrow().clone()))),
							}
						}
					}
				}
			}
			if cand.is_none() && validate {
				match cx.model(&B::k(true)) {
					(Sat::Sat, Some(m)) => {
						let n = st.mismatches.len();
						validate_path(sc, seed, &mut cx, &m, &mut st);
						if st.mismatches.len() > n && sc.int {
							// the native run may break the property all by itself
							if let Some(v) = confirm(sc, &mkviol(&cx, &m, vec![]), &mut st) {
								st.mismatches.truncate(n);
								cand = Some(v);
							}
						}
					}
					(Sat::Unsat, _) => {
						feas = false;
						st.infeasible = 1;
					}
					_ => {}
				}
			}
			if feas {
				st.paths = 1;
				for c in &cx.covers {
					*st.covers.entry(c.clone()).or_insert(0) += 1;
				}
				if st.samples.is_empty() {
					st.samples.push(format!("{} seed={} choices={:?} {}", sc.name, seed, cx.choices, cx.notes.join("; ")));
				}
			}
		}
	}
	let mut z3 = cx.z3.take().unwrap();
	z3.send("(pop 1)");
	st.queries = z3.queries - q0;
	st.unsat = z3.unsat - u0;
	st.sat = z3.sat - s0;
	st.unknown = z3.unknown - k0;
	st.errors = z3.errors - e0;
	st.solver_s = z3.time - t0;
	PathOut { alts: std::mem::take(&mut cx.alts), cand, stats: st, z3: Some(z3) }
}

fn confirm(sc: &Scen, v: &Viol, st: &mut Stats) -> Option<Viol> {
	let (c, infeasible) = concrete(sc, v.seed, &v.choices, &v.vars);
	st.validated += 1;
	if infeasible || c.failed.is_empty() || c.failed.iter().all(|m| m.starts_with("engine:")) {
		return None;
	}
	let mut v = v.clone();
	v.msgs = c.failed.clone();
	v.notes = c.notes.clone();
	Some(v)
}

/// Run the real code on exact numbers, without variables: the values it
/// observes, or nothing if it left the path or broke an assertion.
fn exact(sc: &Scen, seed: u64, choices: &[u32], vars: &BTreeMap<String, Q>, z3: Z3) -> (Option<Vec<(String, Option<Q>)>>, Z3) {
	let f = sc.sym.clone();
	let int = sc.int;
	let choices = choices.to_vec();
	let vars = vars.clone();
	pool(move || {
		HASHSEED.with(|h| h.set(seed));
		let mut cx = SymCtx::new(int, choices, z3);
		cx.fixed = Some(vars);
		CTX.with(|c| *c.borrow_mut() = Ctx::Sym(Box::new(cx)));
		let end = guarded(&*f);
		let mut cx = match ctx_take() {
			Ctx::Sym(c) => c,
			_ => unreachable!(),
		};
		let mut z = cx.z3.take().expect("solver");
		z.send("(pop 1)");
		let good = matches!(end, End::Ok) && cx.checks.is_empty();
		let obs = cx.observed.iter().map(|(n, v)| (n.clone(), if let V::C(q) = v { Some(*q) } else { None })).collect();
		(if good { Some(obs) } else { None }, z)
	})
}

fn validate_path(sc: &Scen, seed: u64, cx: &mut SymCtx, m: &Model, st: &mut Stats) {
	let n = st.mismatches.len();
	validate_native(sc, seed, cx, m, st);
	if st.mismatches.len() > n && !sc.int {
		// Rounding in f64 may break a tie of the exact numbers. Then the real
		// code agrees on exact numbers.
		let z = cx.z3.take().unwrap();
		let (obs, z) = exact(sc, seed, &cx.choices, &m.vars, z);
		cx.z3 = Some(z);
		if obs.map(|o| o == m.observed).unwrap_or(false) {
			st.mismatches.truncate(n);
			st.ties += 1;
		}
	}
}

fn validate_native(sc: &Scen, seed: u64, cx: &SymCtx, m: &Model, st: &mut Stats) {
	let vars = qmap(&m.vars);
	let (c, infeasible) = concrete(sc, seed, &cx.choices, &vars);
	st.validated += 1;
	let id = || format!("{} seed={} choices={:?} {}", sc.name, seed, cx.choices, fmt_vars(&vars));
	if infeasible {
		st.mismatches.push(format!("native run left the path: {}", id()));
		return;
	}
	if !c.failed.is_empty() {
		st.mismatches.push(format!("native run disagrees ({}): {}", c.failed.join("; "), id()));
		return;
	}
	if c.observed.len() != m.observed.len() {
		st.mismatches.push(format!("native run observed {} values instead of {}: {}", c.observed.len(), m.observed.len(), id()));
		return;
	}
	for ((n, v), (n2, q)) in c.observed.iter().zip(m.observed.iter()) {
		st.obs_compared += 1;
		let ok = n == n2
			&& match q {
				Some(q) => (q.f64() - v).abs() <= 1e-6 * (1.0 + v.abs()),
				None => false,
			};
		if !ok {
			st.mismatches.push(format!("native value {}={} but symbolic {}={:?}: {}", n, v, n2, q, id()));
			return;
		}
	}
}

impl Stats {
	fn add(&mut self, o: Stats) {
		self.paths += o.paths;
		self.infeasible += o.infeasible;
		self.decisions += o.decisions;
		self.free += o.free;
		self.choices += o.choices;
		self.queries += o.queries;
		self.unsat += o.unsat;
		self.sat += o.sat;
		self.unknown += o.unknown;
		self.errors += o.errors;
		self.solver_s += o.solver_s;
		self.checks += o.checks;
		self.check_queries += o.check_queries;
		self.trivially += o.trivially;
		self.validated += o.validated;
		self.obs_compared += o.obs_compared;
		self.ties += o.ties;
		self.pending += o.pending;
		self.wall += o.wall;
		self.maxvars = self.maxvars.max(o.maxvars);
		if o.maxabs > self.maxabs {
			self.maxabs = o.maxabs;
		}
		if self.inconclusive.len() < 40 {
			self.inconclusive.extend(o.inconclusive);
		}
		if self.mismatches.len() < 40 {
			self.mismatches.extend(o.mismatches);
		}
		if self.samples.len() < 3 {
			self.samples.extend(o.samples);
		}
		for (k, v) in o.covers {
			*self.covers.entry(k).or_insert(0) += v;
		}
	}
}

struct Shared {
	queue: Vec<(usize, u64, Vec<u32>)>,
	active: usize,
	stats: Vec<Stats>,
	viols: Vec<Viol>,
	stop: bool,
}

pub struct Opts {
	pub jobs: usize,
	pub budget: f64,
	pub validate_first: u64,
	pub validate_every: u64,
	pub timeout_ms: u64,
	pub max_viol: usize,
	/// code that runs longer than this between two decisions does not end
	pub hang_s: f64,
}

pub fn explore(scens: &Arc<Vec<Scen>>, o: &Opts, hang: &(dyn Fn(Vec<Stats>, Vec<Viol>) + Sync)) -> (Vec<Stats>, Vec<Viol>) {
	let mut queue = vec![];
	for (i, s) in scens.iter().enumerate().rev() {
		for seed in s.seeds.iter().rev() {
			queue.push((i, *seed, vec![]));
		}
	}
	let sh = Arc::new((
		Mutex::new(Shared { queue, active: 0, stats: vec![Stats::default(); scens.len()], viols: vec![], stop: false }),
		std::sync::Condvar::new(),
	));
	let counts: Arc<Vec<AtomicU64>> = Arc::new(scens.iter().map(|_| AtomicU64::new(0)).collect());
	let start = Instant::now();
	let running = Arc::new(AtomicU64::new(o.jobs as u64));
	let lives: Vec<Arc<Mutex<Live>>> = (0..o.jobs)
		.map(|_| Arc::new(Mutex::new(Live { last: Instant::now(), scen: 0, seed: 0, choices: vec![], vars: BTreeMap::new(), busy: false, solver: false })))
		.collect();
	std::thread::scope(|scope| {
		// the watchdog
		{
			let (sh, running, lives, scens) = (sh.clone(), running.clone(), lives.clone(), scens.clone());
			scope.spawn(move || {
				while running.load(SeqCst) > 0 {
					std::thread::sleep(std::time::Duration::from_millis(100));
					for l in &lives {
						let l = l.lock().unwrap();
						if l.busy && !l.solver && l.last.elapsed().as_secs_f64() > o.hang_s {
							let mut g = sh.0.lock().unwrap();
							let v = Viol {
								scen: scens[l.scen].name.clone(),
								seed: l.seed,
								choices: l.choices.clone(),
								vars: l.vars.clone(),
								msgs: vec!["does not end".into()],
								notes: vec![],
							};
							g.viols.insert(0, v);
							hang(g.stats.clone(), g.viols.clone());
						}
					}
				}
			});
		}
		for live in lives.iter().cloned() {
			let sh = sh.clone();
			let running = running.clone();
			let counts = counts.clone();
			let scens = scens.clone();
			scope.spawn(move || {
				LIVE.with(|l| *l.borrow_mut() = Some(live.clone()));
				let mut zs: [Option<Z3>; 2] = [None, None];
				loop {
					live.lock().unwrap().busy = false;
					let item = {
						let mut g = sh.0.lock().unwrap();
						loop {
							if g.stop {
								break None;
							}
							if start.elapsed().as_secs_f64() > o.budget {
								g.stop = true;
								sh.1.notify_all();
								break None;
							}
							if let Some(x) = g.queue.pop() {
								g.active += 1;
								break Some(x);
							}
							if g.active == 0 {
								sh.1.notify_all();
								break None;
							}
							g = sh.1.wait_timeout(g, std::time::Duration::from_millis(200)).unwrap().0;
						}
					};
					let (i, seed, prefix) = match item {
						Some(x) => x,
						None => break,
					};
					let sc = &scens[i];
					let t = Instant::now();
					let n = counts[i].fetch_add(1, SeqCst);
					let zi = sc.int as usize;
					let fresh = match &zs[zi] {
						Some(z) => z.queries > 20000,
						None => true,
					};
					if fresh {
						if let Some(z) = zs[zi].take() {
							z.finish();
						}
						zs[zi] = Some(Z3::new(sc.int, o.timeout_ms));
					}
					let z = zs[zi].take().unwrap();
					let validate = n < o.validate_first || n % o.validate_every == 0;
					{
						let mut l = live.lock().unwrap();
						l.last = Instant::now();
						l.scen = i;
						l.seed = seed;
						l.choices.clear();
						l.vars.clear();
						l.busy = true;
						l.solver = false;
					}
					let mut out = run_path(sc, seed, prefix, z, validate);
					zs[zi] = out.z3.take();
					out.stats.wall = t.elapsed().as_secs_f64();
					let mut g = sh.0.lock().unwrap();
					g.stats[i].add(out.stats);
					if let Some(v) = out.cand {
						g.viols.push(v);
						if g.viols.len() >= o.max_viol {
							g.stop = true;
						}
					}
					for a in out.alts {
						g.queue.push((i, seed, a));
					}
					g.active -= 1;
					sh.1.notify_all();
				}
				for z in zs.into_iter().flatten() {
					z.finish();
				}
				running.fetch_sub(1, SeqCst);
			});
		}
	});
	let mut g = sh.0.lock().unwrap();
	let left: Vec<usize> = g.queue.iter().map(|(i, _, _)| *i).collect();
	for i in left {
		g.stats[i].pending += 1;
	}
	(std::mem::take(&mut g.stats), std::mem::take(&mut g.viols))
}

// ---------------------------------------------------------------- main

pub fn js(s: &str) -> String {
	let mut r = String::from("\"");
	for c in s.chars() {
		match c {
			'"' => r.push_str("\\\""),
			'\\' => r.push_str("\\\\"),
			'\n' => r.push_str("\\n"),
			'\t' => r.push_str("\\t"),
			c if (c as u32) < 32 => {
				let _ = write!(r, "\\u{:04x}", c as u32);
			}
			c => r.push(c),
		}
	}
	r.push('"');
	r
}
fn jl(v: &[String]) -> String {
	format!("[{}]", v.iter().map(|s| js(s)).collect::<Vec<_>>().join(","))
}

fn vjson(prop: &str, tier: &str, v: &Viol) -> String {
	let mut vars = vec![];
	for (k, x) in &v.vars {
		vars.push(format!("{}:{}", js(k), x));
	}
	format!(
		"{{\"property\":{},\"tier\":{},\"scenario\":{},\"seed\":{},\"choices\":{:?},\"vars\":{{{}}},\"messages\":{},\"notes\":{}}}",
		js(prop),
		js(tier),
		js(&v.scen),
		v.seed,
		v.choices,
		vars.join(","),
		jl(&v.msgs),
		jl(&v.notes)
	)
}

pub fn scenarios(prop: &str, tier: &str, seed: u64) -> Vec<Scen> {
	let mut v = vec![];
	let thorough = tier == "thorough";
	crate::scen_compile::register(prop, thorough, seed, &mut v);
	crate::scen_ops::register(prop, thorough, seed, &mut v);
	crate::scen_solve::register(prop, thorough, seed, &mut v);
	crate::scen_anneal::register(prop, thorough, seed, &mut v);
	#[cfg(feature = "sched")]
	crate::scen_sched::register(prop, thorough, seed, &mut v);
	// (products of many small numbers are too small for the engine, and
	// constraints of small numbers are satisfied up to the tolerance)
	let not = |n: &str, l: &[&str]| !l.contains(&n);
	tiny_of(&mut v, |n| match prop {
		"C01" => n.starts_with("template") && not(n, &["template7", "template9"]),
		"C02" => n.starts_with("reduce"),
		"C03" => n.starts_with("feed") && !n.starts_with("feed-") && not(n, &["feed1", "feed3", "feed9", "feed11"]),
		"C11" => n != "high11-real",
		"C12" => !n.contains("-k2"),
		"C08" | "C10" | "C13" => true,
		"C19" => n.starts_with("view") && !n.starts_with("view-size") && not(n, &["view6", "view7"]),
		_ => false,
	});
	v
}

pub fn main() {
	let args: Vec<String> = std::env::args().collect();
	std::panic::set_hook(Box::new(|i| {
		if i.payload().downcast_ref::<Stop>().is_some() {
			return;
		}
		let msg = if let Some(s) = i.payload().downcast_ref::<&str>() {
			s.to_string()
		} else if let Some(s) = i.payload().downcast_ref::<String>() {
			s.clone()
		} else {
			"panic".to_string()
		};
		let loc = i.location().map(|l| format!(" at {}:{}", l.file(), l.line())).unwrap_or_default();
		if std::env::var("SYMX_TRACE").is_ok() {
			eprintln!("[panic] {}{}", msg, loc);
		}
		PANIC.with(|p| {
			if let Ok(mut p) = p.try_borrow_mut() {
				*p = Some(format!("{}{}", msg, loc))
			}
		});
	}));
	let get = |k: &str, d: &str| -> String {
		args.iter().position(|a| a == k).and_then(|i| args.get(i + 1)).cloned().unwrap_or(d.to_string())
	};
	match args.get(1).map(|s| s.as_str()) {
		Some("run") => {
			let prop = args[2].clone();
			let tier = get("--tier", "quick");
			let seed: u64 = get("--seed", "1").parse().unwrap_or(1);
			let only = get("--only", "");
			let mut scens = scenarios(&prop, &tier, seed);
			if !only.is_empty() {
				scens.retain(|s| s.name.contains(&only));
			}
			let scens = Arc::new(scens);
			let o = Opts {
				jobs: get("--jobs", "8").parse().unwrap(),
				budget: get("--budget", "300").parse().unwrap(),
				validate_first: get("--validate-first", "24").parse().unwrap(),
				validate_every: get("--validate-every", "16").parse().unwrap(),
				timeout_ms: get("--timeout", "20000").parse().unwrap(),
				max_viol: get("--max-viol", "1").parse().unwrap(),
				hang_s: get("--hang", "90").parse().unwrap(),
			};
			let t = Instant::now();
			let f = get("--out", "");
			let report = |stats: Vec<Stats>, viols: Vec<Viol>| {
				let wall = t.elapsed().as_secs_f64();
				let mut ss = vec![];
				for (s, st) in scens.iter().zip(stats.iter()) {
					let missing: Vec<String> =
						s.covers.iter().filter(|c| !st.covers.contains_key(**c)).map(|c| c.to_string()).collect();
					let cov: Vec<String> = st.covers.iter().map(|(k, v)| format!("{}:{}", js(k), v)).collect();
					ss.push(format!(
						"{{\"name\":{},\"what\":{},\"sort\":{},\"hash_seeds\":{},\"paths\":{},\"infeasible\":{},\"decisions\":{},\"free_decisions\":{},\"choices\":{},\"queries\":{},\"unsat\":{},\"sat\":{},\"unknown\":{},\"solver_errors\":{},\"solver_s\":{:.3},\"checks\":{},\"check_queries\":{},\"trivially_true\":{},\"validated\":{},\"values_compared\":{},\"validated_on_exact_numbers\":{},\"pending\":{},\"max_abs\":{:e},\"max_vars\":{},\"wall_s\":{:.3},\"covers\":{{{}}},\"missing_covers\":{},\"samples\":{},\"inconclusive\":{},\"mismatches\":{}}}",
						js(&s.name), js(&s.what), js(if s.int { "Int" } else { "Real" }), s.seeds.len(), st.paths, st.infeasible, st.decisions, st.free, st.choices,
						st.queries, st.unsat, st.sat, st.unknown, st.errors, st.solver_s, st.checks, st.check_queries, st.trivially, st.validated, st.obs_compared, st.ties, st.pending, st.maxabs.min(f64::MAX), st.maxvars, st.wall,
						cov.join(","), jl(&missing), jl(&st.samples), jl(&st.inconclusive), jl(&st.mismatches)
					));
				}
				let vs: Vec<String> = viols.iter().map(|v| vjson(&prop, &tier, v)).collect();
				let out = format!(
					"{{\"property\":{},\"tier\":{},\"seed\":{},\"wall_s\":{:.3},\"hash_hooked\":{},\"scenarios\":[\n{}\n],\"violations\":[{}]}}\n",
					js(&prop),
					js(&tier),
					seed,
					wall,
					hash_hook_works(),
					ss.join(",\n"),
					vs.join(",")
				);
				if f.is_empty() {
					println!("{}", out);
				} else {
					std::fs::write(&f, out).expect("write");
				}
			};
			let (stats, viols) = explore(&scens, &o, &|s, v| {
				report(s, v);
				std::process::exit(0);
			});
			report(stats, viols);
		}
		Some("replay") => {
			// replay PROP TIER SEED SCENARIO HASHSEED CHOICES VARS
			let scens = scenarios(&args[2], &args[3], args[4].parse().unwrap());
			let sc = scens.iter().find(|s| s.name == args[5]).expect("scenario");
			let choices: Vec<u32> = args[7].split(',').filter(|s| !s.is_empty()).map(|s| s.parse().unwrap()).collect();
			let vars: BTreeMap<String, f64> = args[8]
				.split(',')
				.filter(|s| !s.is_empty())
				.map(|s| {
					let (a, b) = s.split_once('=').unwrap();
					(a.to_string(), b.parse().unwrap())
				})
				.collect();
			let (c, inf) = concrete(sc, args[6].parse().unwrap(), &choices, &vars);
			for n in &c.notes {
				println!("{}", n);
			}
			for (n, v) in &c.observed {
				println!("  {} = {}", n, v);
			}
			for m in &c.failed {
				println!("FAILED: {}", m);
			}
			if inf {
				println!("input outside of the scenario");
			}
			std::process::exit(if c.failed.is_empty() { 0 } else { 1 });
		}
		_ => {
			eprintln!("usage: symx run PROP [--tier T] [--seed N] [--out F] | symx replay ...");
			std::process::exit(2);
		}
	}
}

/// The hash keys of std must come from our symbol.
fn hash_hook_works() -> bool {
	let order = |seed: u64| {
		std::thread::spawn(move || {
			HASHSEED.with(|h| h.set(seed));
			let m: std::collections::HashMap<u32, u32> = (0..32).map(|i| (i, i)).collect();
			(m.into_keys().collect::<Vec<_>>(), HASHED.with(|h| h.get()))
		})
		.join()
		.unwrap()
	};
	let (a, b, c) = (order(1), order(1), order(2));
	a.1 && a.0 == b.0 && a.0 != c.0
}
