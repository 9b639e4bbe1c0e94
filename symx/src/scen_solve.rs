//! Scenarios about the solve loop and the solution view: C04-C07, C19.
use crate::ast::*;
use crate::eng::*;
use crate::run::Scen;
use crate::scen;
use crate::scen_compile::*;
use crate::stub::*;
use crate::{reduced, verdicts};
use annealers::model::FixedSingleModelView;
use rustqubo::solve::SimpleSolver;
use std::collections::{BTreeMap, BTreeSet, HashMap};
use std::sync::{Arc, Mutex};

/// A problem whose constraint weights can be read off the matrix: the product
/// of the two variables occurs in that constraint only.
pub(crate) struct Prob<R: Num> {
	pub(crate) e: E<R>,
	/// label, the two variables, coefficient of their product
	pub(crate) probes: Vec<(u16, (u16, u16), i64)>,
	/// labels to choose states from
	pub(crate) maxn: usize,
}

pub(crate) fn problem<R: Num>(k: usize) -> Prob<R> {
	let mut g = Gen::new(8, 2, 15, 127);
	let (x, s) = (|i| E::<R>::Bin(i), |i| E::<R>::Spin(i));
	let onehot = |a: u16, b: u16| pow(sub(add(x(a), x(b)), num(1)), 2);
	match k {
		0 => {
			let e = sum(vec![mul(g.num(), x(0)), mul(g.num(), x(1)), prod(vec![g.num(), x(0), x(1)]), g.num()]);
			Prob { e, probes: vec![], maxn: 2 }
		}
		1 => {
			let e = sum(vec![mul(g.num(), x(0)), mul(g.num(), x(1)), g.num(), cons(4, onehot(0, 1))]);
			Prob { e, probes: vec![(4, (0, 1), 2)], maxn: 2 }
		}
		2 => {
			let e = sum(vec![
				cons(1, onehot(0, 1)),
				cons(0, mul(x(1), x(2))),
				mul(g.num(), x(0)),
				mul(g.num(), x(1)),
				mul(g.num(), x(2)),
				g.num(),
			]);
			Prob { e, probes: vec![(1, (0, 1), 2), (0, (1, 2), 1)], maxn: 3 }
		}
		3 => {
			let e = sum(vec![
				cons(7, onehot(0, 1)),
				cons(3, mul(x(1), x(2))),
				mul(g.num(), x(0)),
				mul(g.num(), x(2)),
				g.num(),
				cons(5, pow(sub(x(0), x(2)), 2)),
			]);
			Prob { e, probes: vec![(7, (0, 1), 2), (3, (1, 2), 1), (5, (0, 2), -2)], maxn: 3 }
		}
		4 => {
			// spins; the constraint is (s0+s1)^2/4-like: s0*s1 + 1
			let e = sum(vec![
				mul(g.num(), s(0)),
				mul(g.num(), s(2)),
				cons(2, add(mul(s(0), s(1)), num(1))),
				cons(9, sub(num(1), mul(s(1), s(2)))),
			]);
			Prob { e, probes: vec![(2, (0, 1), 4), (9, (1, 2), -4)], maxn: 3 }
		}
		5 => {
			// an auxiliary variable
			let e = sum(vec![prod(vec![g.num(), x(0), x(1), x(2)]), mul(g.num(), x(1)), cons(6, mul(x(0), x(3))), cons(8, mul(x(1), x(3)))]);
			Prob { e, probes: vec![(6, (0, 3), 1), (8, (1, 3), 1)], maxn: 6 }
		}
		6 => {
			// one label for two constraints
			let e = sum(vec![cons(3, mul(x(0), x(1))), cons(3, mul(x(1), x(2))), cons(1, mul(x(0), x(2))), mul(g.num(), x(1))]);
			Prob { e, probes: vec![(3, (0, 1), 1), (1, (0, 2), 1)], maxn: 3 }
		}
		8 => {
			// more variables than bits of a machine word
			let mut l = vec![
				mul(g.num(), x(0)),
				mul(g.num(), x(33)),
				prod(vec![g.num(), x(1), x(65)]),
				mul(g.num(), x(69)),
				cons(1, onehot(5, 66)),
				cons(2, mul(x(31), x(64))),
			];
			for i in 0..70u16 {
				l.push(mul(num(i as i64 % 3 - 1), x(i)));
			}
			Prob { e: sum(l), probes: vec![(1, (5, 66), 2), (2, (31, 64), 1)], maxn: 70 }
		}
		9 => {
			// growing weights lower the energy of the violating states
			let e = sum(vec![cons(0, neg(mul(x(0), x(1)))), cons(1, neg(mul(x(1), x(2)))), cons(2, mul(x(0), x(2))), mul(g.num(), x(0)), g.num()]);
			Prob { e, probes: vec![(0, (0, 1), -1), (1, (1, 2), -1), (2, (0, 2), 1)], maxn: 3 }
		}
		_ => {
			// a penalty and a constant offset inside the constraint's surroundings
			let e = sum(vec![
				pen(mul(g.num(), x(0)), add(mul(g.num(), x(1)), g.num())),
				cons(2, onehot(0, 1)),
				num(5),
			]);
			Prob { e, probes: vec![(2, (0, 1), 2)], maxn: 2 }
		}
	}
}

#[derive(Clone, Copy)]
pub struct Cfg {
	prob: usize,
	samples: usize,
	gens: usize,
	iters: usize,
	strength: i64,
	/// solutions returned by one run of the annealer
	per_run: usize,
	/// states to choose from (by number of user's variables set, 0: all)
	few: usize,
	errors: bool,
	/// 0: every answer is chosen freely, 1: the answers of the generations
	/// repeat with period two, 2: one sample differs from the others
	pattern: u16,
	/// numbers very close to each other
	fine: bool,
}

fn solve_loop<R: Num>(what: u16, cf: Cfg) {
	let pb = problem::<R>(cf.prob);
	let e = pb.e.clone();
	let compiled = e.build().compile().feed_dict(HashMap::new());
	// one solver for finding out which variable is which and for the run
	let probe: Arc<Mutex<Option<u128>>> = Arc::new(Mutex::new(Some(0)));
	let (few, per_run, errors) = (cf.few, cf.per_run, cf.errors);
	let plan: Mutex<Vec<u128>> = Mutex::new(vec![]);
	let p2 = probe.clone();
	// answers of an earlier call, to be given again
	let again: Arc<Mutex<Vec<Option<Answer>>>> = Arc::new(Mutex::new(vec![]));
	let a2 = again.clone();
	let stub = Stub::<R>::new(move |no, n| {
		if let Some(Some(a)) = a2.lock().unwrap().get(no) {
			return a.clone();
		}
		let p = *p2.lock().unwrap();
		if let Some(m) = p {
			return Answer::States(vec![m]);
		}
		if errors && choose(4) == 3 {
			return Answer::Err(7);
		}
		let all = 1u128 << n;
		let pick = || {
			if n > 16 {
				const P: u128 = 0x5555_5555_5555_5555_5555_5555_5555_5555;
				let v = [P, !P, !0, 0, 0x9E37_79B9_7F4A_7C15_F39C_C060_5CED_C834, 1 << 5 | 1 << 64];
				return v[choose(few.min(v.len()))] % all;
			}
			let step = if few == 0 { 1 } else { (all / few as u128).max(1) };
			let cnt = (all / step) as usize;
			// odd multiples cover states of every weight
			(choose(cnt) as u128 * step + step / 2 * 1) % all
		};
		let mut plan = plan.lock().unwrap();
		Answer::States(match cf.pattern {
			0 => (0..per_run).map(|_| pick()).collect(),
			1 => {
				if plan.is_empty() {
					plan.extend([pick(), pick()]);
				}
				vec![plan[no / cf.samples % 2]; per_run]
			}
			_ => {
				let (last, mid) = (cf.samples - 1, cf.samples / 2);
				if plan.is_empty() {
					plan.extend([pick(), pick(), [0, 1, mid as u128, last as u128][choose(4)]]);
				}
				vec![plan[(no % cf.samples == plan[2] as usize) as usize]; per_run]
			}
		})
	});
	let log = stub.log.clone();
	let gen_err = stub.gen_err.clone();
	let mut s = SimpleSolver::with_solver(&compiled, stub);
	s.iterations = 1;
	s.generations = 1;
	s.samples = 1;
	s.coeff_strength = R::int(cf.strength);
	set_mode(Mode::Opaque);
	let mut index: BTreeMap<u16, usize> = BTreeMap::new();
	let mut base = BTreeMap::new();
	let (_, v, _) = s.solve_with_constraints().expect("the scripted annealer does not fail");
	for k in v.keys() {
		base.insert(*k, v[k]);
	}
	let n = FixedSingleModelView::size(&log.lock().unwrap().models[0]);
	if n > pb.maxn + 4 {
		stop(Stop::Inconclusive(format!("{} variables after compilation", n)));
	}
	for i in 0..n {
		*probe.lock().unwrap() = Some(1 << i);
		let (_, v, _) = s.solve_with_constraints().expect("the scripted annealer does not fail");
		for k in v.keys() {
			if v[k] && !base[k] {
				index.insert(*k, i);
			}
		}
	}
	check(B::k(index.keys().cloned().collect::<BTreeSet<u16>>() == e.qubits()), || format!("variables {:?} of {}", index, e.show()));
	set_mode(Mode::Order);
	if cf.fine {
		fine();
	}
	*probe.lock().unwrap() = None;
	{
		let mut l = log.lock().unwrap();
		l.models.clear();
		l.given.clear();
	}
	if errors {
		// problem preparation may fail at any call as well
		let k = choose(cf.samples * cf.gens + 1);
		if k > 0 {
			*gen_err.lock().unwrap() = Some(k - 1);
		}
	}
	s.iterations = cf.iters;
	s.generations = cf.gens;
	s.samples = cf.samples;
	let res = s.solve_with_constraints();
	if what == 22 {
		let (models, given) = {
			let mut l = log.lock().unwrap();
			(std::mem::take(&mut l.models), std::mem::take(&mut l.given))
		};
		note(|| format!("{} S={} G={} I={} answers {:?}", e.show(), cf.samples, cf.gens, cf.iters, given));
		let bad = gen_err.lock().unwrap().map(|k| k < given.len()).unwrap_or(false) || given.iter().any(|a| matches!(a, Some(Answer::Err(_))));
		// effort
		if let Ok((_, _, labels)) = &res {
			check(B::k(!bad), || "an error of the annealer was swallowed".to_string());
			check(B::k(given.len() % cf.samples == 0), || format!("{} problems for {} samples", given.len(), cf.samples));
			check(B::k(given.iter().all(|a| a.is_some())), || format!("problems without a run: {:?}", given));
			if labels.is_empty() {
				cover("feasible");
				check(B::k(given.len() >= cf.samples && given.len() <= cf.samples * cf.gens * cf.iters), || format!("{} problems", given.len()));
			} else {
				cover("infeasible");
				check(B::k(given.len() == cf.samples * cf.gens * cf.iters), || {
					format!("gave up after {} of {} problems, with {:?} violated", given.len(), cf.samples * cf.gens * cf.iters, labels)
				});
			}
		}
		// the same answers once more
		*again.lock().unwrap() = given.clone();
		let res2 = s.solve_with_constraints();
		let l = log.lock().unwrap();
		check(B::k(l.models.len() == models.len()), || format!("{} problems, {} on repetition", models.len(), l.models.len()));
		for (i, (a, b)) in models.iter().zip(l.models.iter()).enumerate() {
			for x in 0..n {
				for y in x..n {
					let (p, q) = (FixedSingleModelView::get_weight(a, &[x, y]), FixedSingleModelView::get_weight(b, &[x, y]));
					check(p.eqb(q), || format!("problem {}: entry {},{} is {}, {} on repetition", i, x, y, p, q));
				}
			}
		}
		match (res, res2) {
			(Ok((e1, v1, l1)), Ok((e2, v2, l2))) => {
				R::observe("energy", e1);
				check(e1.eqb(e2), || format!("energy {}, {} on repetition", e1, e2));
				check(B::k(l1.len() == l2.len() && l1.iter().all(|x| l2.contains(x))), || format!("violated {:?}, {:?} on repetition", l1, l2));
				for k in e.qubits() {
					check(B::k(v1.get(&k) == v2.get(&k)), || format!("variable {}: {:?}, {:?} on repetition", k, v1.get(&k), v2.get(&k)));
				}
			}
			(Err(e1), Err(e2)) => {
				cover("error");
				check(B::k(e1 == e2), || format!("error {}, {} on repetition", e1, e2));
			}
			(a, b) => check(B::k(false), || format!("success {}, {} on repetition", a.is_ok(), b.is_ok())),
		}
		return;
	}
	let log = log.lock().unwrap();
	let calls = log.models.len();
	let failed_gen = gen_err.lock().unwrap().map(|k| k < calls).unwrap_or(false);
	let failed_run = log.given.iter().any(|a| matches!(a, Some(Answer::Err(_))));
	note(|| {
		format!(
			"{} S={} G={} I={} strength={} answers {:?}",
			e.show(),
			cf.samples,
			cf.gens,
			cf.iters,
			cf.strength,
			log.given.iter().map(|g| format!("{:?}", g)).collect::<Vec<_>>()
		)
	});
	let (energy, view, labels) = match res {
		Ok(r) => r,
		Err(err) => {
			if what == 7 {
				cover("error passed on");
				check(B::k(failed_gen || failed_run), || format!("error {:?} although the annealer did not fail", err));
				let known = (failed_gen && err == StubErr(1000)) || (failed_run && err == StubErr(7));
				check(B::k(known), || format!("error {:?} is none of the annealer's", err));
			}
			return;
		}
	};
	if what == 7 {
		check(B::k(!failed_gen && !failed_run), || "an error of the annealer was swallowed".to_string());
	}
	R::observe("energy", energy);
	let labels: BTreeSet<u16> = labels.into_iter().cloned().collect();
	let shown: BTreeMap<u16, bool> = view.keys().map(|k| (*k, view[k])).collect();
	check(B::k(calls % cf.samples == 0), || format!("{} problems for {} samples", calls, cf.samples));
	let ng = calls / cf.samples;
	check(B::k(ng >= 1 && ng <= cf.gens * cf.iters), || format!("{} generations", ng));
	// weights of the constraints in each generation
	let entry = |g: usize, sample: usize, a: u16, b: u16| -> R {
		let (i, j) = (index[&a], index[&b]);
		FixedSingleModelView::get_weight(&log.models[g * cf.samples + sample], &[i.min(j), i.max(j)])
	};
	let weights: Vec<BTreeMap<u16, R>> = (0..ng)
		.map(|g| pb.probes.iter().map(|(l, (a, b), c)| (*l, entry(g, 0, *a, *b) / R::int(*c))).collect())
		.collect();
	// the candidates: every state of every generation with its value
	struct Cand<R> {
		state: Vec<bool>,
		value: R,
		user: BTreeMap<u16, bool>,
		viol: BTreeSet<u16>,
	}
	let noph = |_: u16| R::int(0);
	let mut gens: Vec<Vec<Cand<R>>> = vec![];
	for g in 0..ng {
		let w = |l: u16| weights[g][&l];
		let zero = |_: u16| false;
		let c0 = e.eval(&Env { q: &zero, ph: &noph, w: &w });
		let mut v = vec![];
		for a in &log.given[g * cf.samples..(g + 1) * cf.samples] {
			if let Some(Answer::States(st)) = a {
				for m in st {
					let state = bits(*m, n);
					let user: BTreeMap<u16, bool> = index.iter().map(|(k, i)| (*k, state[*i])).collect();
					let q = |l: u16| user[&l];
					let value = if n == index.len() {
						e.eval(&Env { q: &q, ph: &noph, w: &w })
					} else {
						c0 + qubo_energy(&log.models[g * cf.samples], &state)
					};
					let viol: BTreeSet<u16> = e
						.constraints()
						.into_iter()
						.filter(|(_, b)| !branch(b.cvalue(&q, &noph).eqb(R::int(0))))
						.map(|(l, _)| l)
						.collect();
					v.push(Cand { state, value, user, viol });
				}
			}
		}
		gens.push(v);
	}
	match what {
		4 => {
			let mut any = vec![];
			for g in &gens {
				for c in g {
					if c.user == shown {
						any.push(energy.eqb(c.value));
					}
				}
			}
			if !any.is_empty() {
				cover("answer found among the samples");
			}
			if ng > 1 {
				cover("several generations");
			}
			check(B::any(any), || format!("energy {} at {:?} is the value of no sampled state: {:?}", energy, shown, gens.iter().map(|g| g.iter().map(|c| format!("{:?} {}", c.state, c.value)).collect::<Vec<_>>()).collect::<Vec<_>>()));
			// the energy inside of the view lacks the constant only
			if let Some(ve) = view.energy() {
				let mut any = vec![];
				for (g, cs) in gens.iter().enumerate() {
					for c in cs {
						if c.user == shown {
							any.push(energy.eqb(c.value).and(ve.eqb(qubo_energy(&log.models[g * cf.samples], &c.state))));
						}
					}
				}
				check(B::any(any), || format!("energy {} stored at {:?}", ve, shown));
			}
		}
		5 => {
			let q = |l: u16| shown.get(&l).copied().unwrap_or(false);
			for l in e.clabels() {
				let viol = B::any(e.constraints().into_iter().filter(|(x, _)| *x == l).map(|(_, b)| b.cvalue(&q, &noph).eqb(R::int(0)).not()).collect());
				let rep = labels.contains(&l);
				cover(if rep { "violated" } else { "satisfied" });
				check(if rep { viol } else { viol.not() }, || format!("constraint {} of {} reported {} at {:?}", l, e.show(), rep, shown));
			}
			let known = e.clabels();
			check(B::k(labels.is_subset(&known)), || format!("labels {:?}", labels));
		}
		6 => {
			// all samples of a generation solve the same problem
			for g in 0..ng {
				for k in 1..cf.samples {
					for (l, (a, b), c) in &pb.probes {
						let w = entry(g, k, *a, *b) / R::int(*c);
						check(w.eqb(weights[g][l]), || format!("weight {} of constraint {} differs between samples", w, l));
					}
				}
			}
			let m = weights[0].len();
			for g in 0..ng {
				for (l, w) in &weights[g] {
					check(R::int(0).ltb(*w), || format!("weight {} of constraint {} in generation {}", w, l, g));
				}
				if g % cf.gens == 0 && m > 0 {
					let first = *weights[g].values().next().unwrap();
					let mut total = R::int(0);
					for w in weights[g].values() {
						check(w.eqb(first), || format!("unequal initial weights {:?}", weights[g]));
						total += *w;
					}
					if g > 0 {
						cover("second iteration");
					}
					if R::INT {
						check(total.leb(R::int(cf.strength)), || format!("weights add up to {}", total));
						check(R::int(cf.strength - m as i64).ltb(total), || format!("weights add up to {}", total));
					} else {
						check(total.eqb(R::int(cf.strength)), || format!("weights add up to {}", total));
					}
				}
			}
			for it in 0..cf.iters {
				let from = it * cf.gens;
				for g in from..((it + 1) * cf.gens).min(ng).saturating_sub(1) {
					let cs = &gens[g];
					// accepted for sure: the only state of the generation, of
					// lower energy than all before in the iteration
					if cs.is_empty() || cs.iter().any(|c| c.state != cs[0].state) {
						continue;
					}
					let z = weights[g].clone();
					let c0 = |h: usize| {
						let w = |l: u16| weights[h][&l];
						let zero = |_: u16| false;
						e.eval(&Env { q: &zero, ph: &noph, w: &w })
					};
					let cur = cs[0].value - c0(g);
					let mut low = vec![];
					for h in from..g {
						let lower: Vec<B> = gens[h].iter().map(|c| cur.ltb(c.value - c0(h))).collect();
						low.push(B::all(lower));
					}
					let acc = B::all(low);
					let nxt = &weights[g + 1];
					for v in cs[0].viol.iter() {
						for s in z.keys().filter(|l| !cs[0].viol.contains(l)) {
							cover("some constraints violated, others not");
							let (wv, ws, wv2, ws2) = (z[v], z[s], nxt[v], nxt[s]);
							let grown = if R::INT && cf.strength < 3000 {
								// up to rounding
								(wv * ws2).ltb((wv2 + R::int(1)) * (ws + R::int(1)))
							} else {
								(wv * ws2).ltb(wv2 * ws)
							};
							check(acc.clone().implies(grown), || format!("weights {:?} after {:?} with {:?} violated", nxt, z, cs[0].viol));
						}
					}
				}
			}
		}
		7 => {
			// the samples of lowest energy, each with the condition for it
			let mins = |g: usize| -> Vec<(usize, B)> {
				let cs = &gens[g];
				(0..cs.len()).map(|i| (i, B::all((0..cs.len()).filter(|j| *j != i).map(|j| cs[i].value.leb(cs[j].value)).collect()))).collect()
			};
			for g in 0..ng {
				let last = g + 1 == ng;
				if !last {
					cover("went on after an infeasible generation");
					let b = B::any(mins(g).into_iter().filter(|(i, _)| !gens[g][*i].viol.is_empty()).map(|(_, b)| b).collect());
					check(b, || format!("generation {} has a feasible best sample, but the search went on", g));
				}
			}
			let last = ng - 1;
			if ng < cf.gens * cf.iters {
				check(B::k(labels.is_empty()), || format!("search ended early with the violated constraints {:?}", labels));
			}
			if pb.probes.is_empty() {
				check(B::k(ng == 1), || format!("{} generations without constraints", ng));
			}
			// the answer is a sample of lowest energy in its generation
			let ok = |g: usize| -> B {
				B::any(mins(g).into_iter().filter(|(i, _)| gens[g][*i].user == shown).map(|(i, b)| b.and(energy.eqb(gens[g][i].value))).collect())
			};
			if labels.is_empty() {
				cover("feasible answer");
				check(ok(last), || format!("{:?} ({}) is not the best sample of the last generation", shown, energy));
			} else {
				cover("infeasible answer");
				check(B::any((0..ng).map(ok).collect()), || format!("{:?} ({}) is the best sample of no generation", shown, energy));
				// every generation's best sample may have been infeasible
				let b = B::any(mins(last).into_iter().filter(|(i, _)| !gens[last][*i].viol.is_empty()).map(|(_, b)| b).collect());
				check(b, || format!("the feasible best sample of generation {} was dropped", last));
			}
		}
		_ => unreachable!(),
	}
}

// ---------------------------------------------------------------- C05

/// Constraints of every shape; the labels at every assignment.
fn c05_expr<R: Num>(e: E<R>, anchors: bool) {
	let phv = phvars(&e);
	note(|| e.show());
	let compiled = e.build().compile();
	let fed = compiled.feed_dict(phv.iter().map(|(k, v)| (*k, *v)).collect());
	let t = reduced!(R, fed, 60, 10);
	if R::INT && anchors {
		order_anchors(&[-3, -2, -1, 0, 1, 2, 3]);
	}
	let mode = if anchors { Mode::Order } else { Mode::Sign };
	for (on, labels) in verdicts!(R, fed, t.index, mode) {
		let q = |l: u16| on.contains(&l);
		let ph = |p: u16| phv[&p];
		for l in e.clabels() {
			let viol = B::any(e.constraints().into_iter().filter(|(x, _)| *x == l).map(|(_, b)| b.cvalue(&q, &ph).eqb(R::int(0)).not()).collect());
			let rep = labels.contains(&l);
			cover(if rep { "violated" } else { "satisfied" });
			check(if rep { viol } else { viol.not() }, || format!("constraint {} of {} reported {} at {:?}", l, e.show(), rep, on));
		}
		check(B::k(labels.is_subset(&e.clabels())), || format!("labels {:?} of {}", labels, e.show()));
	}
}

/// A constraint over every expression with n operators, next to an objective.
fn c05_size<R: Num>(n: usize, maxq: u16, leaves: u16, ops: u16) {
	let mut g = Gen::new(maxq, 1, leaves, ops);
	let body: E<R> = gen_size(&mut g, n);
	let k = g.num();
	let e = add(cons(100, body), mul(k, E::Bin(0)));
	if e.expand().degree() > 2 {
		return;
	}
	c05_expr(e, n < 2);
}

fn c05_t<R: Num>(k: usize) {
	let mut g = Gen::new(8, 3, 15, 127);
	let (x, s) = (|i| E::<R>::Bin(i), |i| E::<R>::Spin(i));
	let p = |i| E::<R>::Ph(i);
	let e = match k {
		0 => add(cons(1, sub(sum(vec![x(0), x(1), x(2)]), num(1))), cons(0, sub(add(x(0), x(3)), num(1)))),
		1 => cons(3, mul(g.num(), sub(mul(s(0), s(1)), g.num()))),
		2 => add(cons(2, mul(p(0), sub(x(0), x(1)))), cons(1, sub(mul(p(0), s(1)), num(2)))),
		// auxiliary variables in the objective and in a constraint
		3 => add(prod(vec![g.num(), x(0), x(1), x(2)]), cons(5, sub(x(0), x(2)))),
		4 => add(cons(5, prod(vec![g.num(), x(0), x(1), x(2)])), cons(6, sub(x(1), x(2)))),
		5 => add(prod(vec![p(0), g.num(), x(0), x(1), x(2)]), cons(5, sub(add(x(0), x(2)), g.num()))),
		// a constraint under an operator, in a penalty, nested
		6 => mul(num(2), cons(1, add(x(0), g.num()))),
		7 => sub(x(0), cons(1, mul(x(1), s(0)))),
		8 => pen(x(0), cons(1, sub(s(0), x(1)))),
		9 => cons(1, add(x(0), cons(2, sub(x(1), s(0))))),
		10 => pow(cons(1, sub(x(0), x(1))), 2),
		11 => neg(add(cons(1, sub(x(0), x(1))), cons(1, sub(x(1), g.num())))),
		// the penalty of a constraint's expression does not count
		12 => cons(1, pen(sub(x(0), x(1)), mul(g.num(), x(2)))),
		13 => mul(cons(0, sub(x(0), num(1))), cons(1, sub(s(1), g.num()))),
		// a constraint the objective does not share a variable with
		_ => add(mul(g.num(), x(0)), cons(200, pow(sub(sum(vec![x(1), x(2), x(3)]), num(2)), 2))),
	};
	c05_expr(e, true);
}

/// Rounding tolerance of floating point constraints.
fn c05_tol<R: Num>() {
	let k = R::var("k", -1000, 1000);
	let e: E<R> = cons(3, sub(E::Bin(0), E::Num(k)));
	note(|| e.show());
	let fed = e.build().compile().feed_dict(HashMap::new());
	let t = reduced!(R, fed, 60, 3);
	// values are judged unless they are between 1/12500 and 1/8000
	let mut l = vec![];
	for d in [1, 10, 100, 300, 700, 1000, 1500, 3000, 5000, 8000, 12500, 20000, 50000, 100000, 1000000, 1 << 30] {
		l.push((-1, d));
		l.push((1, d));
	}
	order_anchors_q(&l);
	for (on, labels) in verdicts!(R, fed, t.index, Mode::Order) {
		let q = |l: u16| on.contains(&l);
		let ph = |_: u16| R::int(0);
		let v = e.constraints()[0].1.cvalue(&q, &ph);
		let rep = labels.contains(&3);
		let big = v.leb(R::frac(-1, 8000)).or(R::frac(1, 8000).leb(v));
		let small = R::frac(-1, 12500).leb(v).and(v.leb(R::frac(1, 12500)));
		cover(if rep { "violated" } else { "satisfied" });
		check(if rep { small.not() } else { big.not() }, || format!("value {} reported violated: {}", v, rep));
	}
}

// ---------------------------------------------------------------- C19

fn c19_expr<R: Num>(e: E<R>, maxn: usize, all: bool) {
	note(|| e.show());
	let phv = phvars(&e);
	let fed = e.build().compile().feed_dict(phv.iter().map(|(k, v)| (*k, *v)).collect());
	set_mode(Mode::Opaque);
	let expect: BTreeSet<u16> = e.expand().0.keys().flatten().cloned().collect();
	let mask: Arc<Mutex<u128>> = Arc::new(Mutex::new(0));
	let m2 = mask.clone();
	let stub = Stub::<R>::new(move |_, _| Answer::States(vec![*m2.lock().unwrap()]));
	let log = stub.log.clone();
	let mut s = SimpleSolver::with_solver(&fed, stub);
	s.iterations = 1;
	s.generations = 1;
	s.samples = 1;
	s.coeff_strength = R::int(60);
	let mut gq: Vec<u16> = s.get_qubits().into_iter().cloned().collect();
	gq.sort_unstable();
	check(B::k(gq == expect.iter().cloned().collect::<Vec<_>>()), || format!("{} lists the variables {:?}", e.show(), gq));
	let run = |m: u128| {
		*mask.lock().unwrap() = m;
		let (_, v, _) = s.solve_with_constraints().expect("the scripted annealer does not fail");
		let model = log.lock().unwrap().models.last().unwrap().clone();
		(v, model)
	};
	let (v0, model) = run(0);
	let n = FixedSingleModelView::size(&model);
	if n > maxn {
		stop(Stop::Inconclusive(format!("{} variables after compilation", n)));
	}
	if n > expect.len() {
		cover("auxiliary variables");
	}
	let mut index: BTreeMap<u16, usize> = BTreeMap::new();
	for i in 0..n {
		let (v, _) = run(1 << i);
		for k in v.keys() {
			if v.get(k) == Some(true) {
				check(B::k(index.insert(*k, i).is_none()), || format!("label {} follows two variables", k));
			}
		}
	}
	let idx: BTreeSet<usize> = index.values().cloned().collect();
	check(B::k(idx.len() == index.len()), || format!("two labels for one variable: {:?}", index));
	check(B::k(index.keys().cloned().collect::<BTreeSet<_>>() == expect), || format!("{} shows {:?}", e.show(), index));
	drop(v0);
	let states: Vec<u128> = if all {
		(0..1u128 << n).collect()
	} else {
		const P: u128 = 0x5555_5555_5555_5555_5555_5555_5555_5555;
		[0, !0, P, P ^ P << 1 ^ P >> 7].iter().map(|m| m % (1 << n)).collect()
	};
	for m in states {
		let (v, model) = run(m);
		let st = bits(m, n);
		let mut keys: Vec<u16> = v.keys().cloned().collect();
		keys.sort_unstable();
		check(B::k(keys == expect.iter().cloned().collect::<Vec<_>>()), || format!("{} shows the variables {:?}", e.show(), keys));
		let base = qubo_energy(&model, &st);
		for k in &keys {
			let b = st[index[k]];
			check(B::k(v.get(k) == Some(b) && v[k] == b), || format!("variable {} is {:?} instead of {}", k, v.get(k), b));
			let mut fl = st.clone();
			fl[index[k]] = !b;
			let d = qubo_energy(&model, &fl) - base;
			match v.local_field(k) {
				Some(f) => {
					R::observe("local field", f);
					check(f.eqb(d), || format!("local field {} of {} at {:?} instead of {}", f, k, st, d));
				}
				None => check(B::k(false), || format!("no local field for {}", k)),
			}
		}
		check(B::k(v.get(&251).is_none()), || "value for an unknown variable".to_string());
		check(B::k(v.local_field(&251).is_none()), || "local field of an unknown variable".to_string());
		// the listing shows every variable with its value, once
		let mut dbg: Vec<String> = format!("{:?}", v).trim_matches(|c| c == '{' || c == '}').split(',').map(|s| s.trim().to_string()).filter(|s| !s.is_empty()).collect();
		let mut want: Vec<String> = keys.iter().map(|k| format!("{}: {}", k, st[index[k]])).collect();
		dbg.sort();
		want.sort();
		check(B::k(dbg == want), || format!("listed as {:?} instead of {:?}", dbg, want));
	}
	set_mode(Mode::Order);
}

fn c19_size<R: Num>(n: usize, maxq: u16, leaves: u16, ops: u16) {
	let mut g = Gen::new(maxq, 1, leaves, ops);
	let e: E<R> = gen_size(&mut g, n);
	if e.expand().degree() > 2 {
		return;
	}
	cover("at most quadratic");
	c19_expr(e, 6, true);
}
fn c19_t<R: Num>(k: usize) {
	c19_expr(c02_template::<R>(k), 12, false);
}
fn c19_q<R: Num>(k: usize) {
	c19_expr(c01_template::<R>(k), 8, true);
}

/// More variables than bits of a machine word.
fn c19_wide<R: Num>(n: u16) {
	let mut g = Gen::new(250, 0, 15, 127);
	let x = |i| E::<R>::Bin(i);
	let mut l = vec![];
	for (i, j) in [(0, n - 1), (n - 2, n - 1), (1, n / 2), (31, 32), (n / 2, n - 3)] {
		l.push(prod(vec![g.num(), x(i), x(j)]));
	}
	for i in 0..n {
		l.push(mul(if i % 16 == 1 || i + 1 == n { g.num() } else { num(i as i64 % 5 - 7) }, x(i)));
	}
	c19_expr(sum(l), n as usize, false);
}

/// A sum of little depth.
pub fn balanced<R: Num>(mut l: Vec<E<R>>) -> E<R> {
	while l.len() > 1 {
		let mut it = l.into_iter();
		let mut m = vec![];
		while let Some(a) = it.next() {
			m.push(match it.next() {
				Some(b) => add(a, b),
				None => a,
			});
		}
		l = m;
	}
	l.pop().unwrap()
}

/// Very many constraints; constraint l is over variable l and, for reading its
/// weight, over the pair l, l+1.
fn crowd<R: Num>(what: u16, m: u16, gens: usize) {
	let mut g = Gen::new(30, 0, 15, 127);
	let x = |i: u16| E::<R>::Bin(i);
	let own = [7, m - 1];
	let mut l = vec![];
	for i in 0..m {
		// off by the symbolic amount where variable i is set and the next is not
		let b = match own.iter().position(|o| *o == i) {
			Some(_) if what == 5 => mul(sub(g.num(), num(1)), sub(x(i), mul(x(i), x(i + 1)))),
			_ => sub(x(i), mul(x(i), x(i + 1))),
		};
		l.push(cons(i, b));
	}
	l.push(mul(g.num(), x(m)));
	let e = balanced(l);
	note(|| format!("{} constraints", m));
	let n = m as usize + 1;
	let fed = e.build().compile().feed_dict(HashMap::new());
	let state: Arc<Mutex<Vec<bool>>> = Arc::new(Mutex::new(vec![false; n]));
	let s2 = state.clone();
	let stub = Stub::<R>::new(move |_, _| Answer::Bits(vec![s2.lock().unwrap().clone()]));
	let log = stub.log.clone();
	let mut s = SimpleSolver::with_solver(&fed, stub);
	s.iterations = 1;
	s.generations = gens;
	s.samples = 1;
	s.coeff_strength = R::int(if R::INT { 40 * m as i64 } else { 50 });
	set_mode(Mode::Opaque);
	// labels are 0..=m; the qubits of a compiled expression are in the order of
	// its listing, found out bit by bit
	let mut index: BTreeMap<u16, usize> = BTreeMap::new();
	for k in 0..=m {
		index.insert(k, 0);
	}
	s.generations = 1;
	for b in 0..16 {
		if n >> b == 0 {
			break;
		}
		*state.lock().unwrap() = (0..n).map(|i| i >> b & 1 == 1).collect();
		let (_, v, _) = s.solve_with_constraints().expect("the scripted annealer does not fail");
		for (k, i) in index.iter_mut() {
			if v.get(k) == Some(true) {
				*i |= 1 << b;
			}
		}
	}
	s.generations = gens;
	check(B::k(index.values().cloned().collect::<BTreeSet<_>>().len() == n), || format!("places {:?}", index));
	set_mode(Mode::Order);
	let pat = choose(6);
	// variables set, by label
	let on = |k: u16| match pat {
		0 => k % 2 == 0,
		1 => k % 2 == 1 && k > m / 2,
		2 => k + 1 == m,
		3 => k % 3 == 0,
		4 => k == 0 || k == m - 1,
		_ => k % 2 == 0 && k < 64,
	};
	let mut st = vec![false; n];
	for (k, i) in &index {
		st[*i] = on(*k);
	}
	*state.lock().unwrap() = st;
	log.lock().unwrap().models.clear();
	let (_, v, labels) = s.solve_with_constraints().expect("the scripted annealer does not fail");
	let labels: Vec<u16> = labels.into_iter().cloned().collect();
	let set: BTreeSet<u16> = labels.iter().cloned().collect();
	let broken = |k: u16| on(k) && !on(k + 1);
	if what == 5 {
		let noph = |_: u16| R::int(0);
		let q = |k: u16| v.get(&k) == Some(true);
		check(B::k(labels.len() == set.len() && set.iter().all(|k| *k < m)), || format!("labels {:?}", labels));
		for (k, b) in e.constraints() {
			let viol = b.cvalue(&q, &noph).eqb(R::int(0)).not();
			let rep = set.contains(&k);
			cover(if rep { "violated" } else { "satisfied" });
			check(if rep { viol } else { viol.not() }, || format!("constraint {} of {} reported {}", k, m, rep));
		}
		return;
	}
	let models = std::mem::take(&mut log.lock().unwrap().models);
	let weight = |gen: usize, k: u16| -> R {
		let (i, j) = (index[&k], index[&(k + 1)]);
		R::int(0) - FixedSingleModelView::get_weight(&models[gen], &[i.min(j), i.max(j)])
	};
	let mut total = R::int(0);
	let first = weight(0, 0);
	for k in 0..m {
		let w = weight(0, k);
		check(R::int(0).ltb(w), || format!("weight {} of constraint {}", w, k));
		check(w.eqb(first), || format!("constraint {} of {} starts with {} instead of {}", k, m, w, first));
		total += w;
	}
	if R::INT {
		check(total.leb(s.coeff_strength).and((s.coeff_strength - R::int(m as i64)).ltb(total)), || format!("weights add up to {}", total));
	} else {
		check(total.eqb(s.coeff_strength), || format!("weights add up to {}", total));
	}
	if models.len() > 1 {
		let calm = (0..m).find(|k| !broken(*k)).unwrap();
		let ws = weight(1, calm);
		for k in 0..m {
			let w = weight(1, k);
			check(R::int(0).ltb(w), || format!("weight {} of constraint {}", w, k));
			if broken(k) {
				cover("some constraints violated, others not");
				check(ws.ltb(w), || format!("violated constraint {} of {} weighs {}, a satisfied one {}", k, m, w, ws));
			} else {
				check(w.eqb(ws), || format!("satisfied constraint {} of {} weighs {}, another {}", k, m, w, ws));
			}
		}
	}
}

/// A constraint that stays violated for many generations, each accepted
/// because the growing weight lowers the energy.
fn long_run<R: Num>(gens: usize) {
	let mut g = Gen::new(30, 0, 15, 127);
	let x = |i: u16| E::<R>::Bin(i);
	// two constraints or three, the violated one first or last
	let (more, last) = (choose(2) == 1, choose(2) == 1);
	let (v, c) = if last { (9, 1) } else { (1, 9) };
	let mut l = vec![cons(v, neg(x(0))), cons(c, x(1)), mul(g.num(), x(2))];
	if more {
		l.push(cons(5, x(3)));
	}
	note(|| format!("{} generations, constraint {} violated, {} others", gens, v, 1 + more as usize));
	let n = if more { 4 } else { 3 };
	let fed = sum(l).build().compile().feed_dict(HashMap::new());
	let state: Arc<Mutex<Vec<bool>>> = Arc::new(Mutex::new(vec![false; n]));
	let s2 = state.clone();
	let stub = Stub::<R>::new(move |_, _| Answer::Bits(vec![s2.lock().unwrap().clone()]));
	let log = stub.log.clone();
	let mut s = SimpleSolver::with_solver(&fed, stub);
	s.iterations = 1;
	s.generations = 1;
	s.samples = 1;
	s.coeff_strength = R::int(10_000_000);
	set_mode(Mode::Opaque);
	let mut place = vec![n; n];
	for i in 0..n {
		*state.lock().unwrap() = (0..n).map(|j| j == i).collect();
		let (_, w, _) = s.solve_with_constraints().expect("the scripted annealer does not fail");
		for k in 0..n as u16 {
			if w.get(&k) == Some(true) {
				place[k as usize] = i;
			}
		}
	}
	check(B::k(place.iter().all(|i| *i < n)), || format!("places {:?}", place));
	set_mode(Mode::Order);
	s.generations = gens;
	*state.lock().unwrap() = (0..n).map(|i| i == place[0] || i == place[2]).collect();
	log.lock().unwrap().models.clear();
	let (_, _, labels) = s.solve_with_constraints().expect("the scripted annealer does not fail");
	check(B::k(labels == [&v]), || format!("violated {:?}", labels));
	let models = std::mem::take(&mut log.lock().unwrap().models);
	check(B::k(models.len() == gens), || format!("{} generations", models.len()));
	let at = |gen: usize, k: usize| FixedSingleModelView::get_weight(&models[gen], &[place[k], place[k]]);
	let (up, down) = (|gen: usize| R::int(0) - at(gen, 0), |gen: usize| at(gen, 1));
	R::observe("weight at the end", up(models.len() - 1));
	for k in 0..models.len() {
		check(R::int(0).ltb(up(k)).and(R::int(0).ltb(down(k))), || format!("generation {}: weights {} and {}", k, up(k), down(k)));
		if k > 0 {
			cover("still violated");
			// by a larger factor than the satisfied ones
			check((up(k - 1) * down(k)).ltb(up(k) * down(k - 1)), || {
				format!("after {} generations the weight of the violated constraint goes from {} to {}, of a satisfied one from {} to {}", k, up(k - 1), up(k), down(k - 1), down(k))
			});
		}
	}
}

/// An expression of many variables: the energy of states and what the view
/// tells about them.
pub fn wide_expr<R: Num>(n: u16, view: bool) {
	let mut g = Gen::new(250, 0, 15, 127);
	let x = |i: u16| if i % 7 == 3 { E::<R>::Spin(i) } else { E::<R>::Bin(i) };
	let mut l = vec![];
	let far = [0, 1, n / 2, n / 2 + 1, 255.min(n - 3), 256.min(n - 2), n - 2, n - 1];
	for (a, i) in far.iter().enumerate() {
		l.push(mul(g.num(), x(*i)));
		for j in &far[..a] {
			l.push(prod(vec![num((*i as i64 * 3 + *j as i64) % 11 - 5), x(*i), x(*j)]));
		}
	}
	for i in 0..n {
		l.push(mul(num(i as i64 % 5 - 7), x(i)));
		if i > 0 {
			l.push(prod(vec![num(i as i64 % 9 - 13), x(i), x(i / 2)]));
		}
	}
	l.push(prod(vec![g.num(), x(n - 1), x(n / 3)]));
	let e = balanced(l);
	note(|| format!("an expression of {} variables", n));
	let fed = e.build().compile().feed_dict(HashMap::new());
	set_mode(Mode::Opaque);
	let state: Arc<Mutex<Vec<bool>>> = Arc::new(Mutex::new(vec![]));
	let s2 = state.clone();
	let size: Arc<Mutex<usize>> = Arc::new(Mutex::new(0));
	let z2 = size.clone();
	let stub = Stub::<R>::new(move |_, n| {
		*z2.lock().unwrap() = n;
		let s = s2.lock().unwrap();
		Answer::Bits(vec![(0..n).map(|i| s.get(i).copied().unwrap_or(false)).collect()])
	});
	let log = stub.log.clone();
	let mut s = SimpleSolver::with_solver(&fed, stub);
	s.iterations = 1;
	s.generations = 1;
	s.samples = 1;
	let labels: Vec<u16> = (0..n).collect();
	let mut gq: Vec<u16> = s.get_qubits().into_iter().cloned().collect();
	gq.sort_unstable();
	check(B::k(gq == labels), || format!("lists {} variables instead of {}", gq.len(), n));
	let run = |st: Vec<bool>| {
		*state.lock().unwrap() = st;
		let (en, v, viol) = s.solve_with_constraints().expect("the scripted annealer does not fail");
		check(B::k(viol.is_empty()), || "constraint reported".to_string());
		let model = log.lock().unwrap().models.pop().unwrap();
		log.lock().unwrap().models.push(model.clone());
		(en, v, model)
	};
	let judge = |st: &Vec<bool>, en: R, vals: &BTreeMap<u16, bool>| {
		let q = |l: u16| vals.get(&l).copied().unwrap_or(false);
		let none = |_: u16| R::int(0);
		let want = e.eval(&Env { q: &q, ph: &none, w: &none });
		R::observe("energy", en);
		check(en.eqb(want), || format!("energy {} instead of {} with {} of {} set", en, want, st.iter().filter(|b| **b).count(), n));
	};
	let read = |v: &dyn Fn(&u16) -> Option<bool>| -> BTreeMap<u16, bool> { labels.iter().filter_map(|k| v(k).map(|b| (*k, b))).collect() };
	// the position of each label, bit by bit
	let (e0, v0, _) = run(vec![]);
	let z = vec![false; n as usize];
	judge(&z, e0, &read(&|k| v0.get(k)));
	check(B::k(*size.lock().unwrap() == n as usize), || format!("{} variables instead of {}", size.lock().unwrap(), n));
	let mut index: BTreeMap<u16, usize> = labels.iter().map(|k| (*k, 0)).collect();
	for b in 0..16 {
		if n as usize >> b == 0 {
			break;
		}
		let st: Vec<bool> = (0..n as usize).map(|i| i >> b & 1 == 1).collect();
		let (en, v, _) = run(st.clone());
		let vals = read(&|k| v.get(k));
		check(B::k(vals.len() == n as usize), || format!("{} values instead of {}", vals.len(), n));
		for (k, x) in &vals {
			if *x {
				*index.get_mut(k).unwrap() |= 1 << b;
			}
		}
		judge(&st, en, &vals);
	}
	let idx: BTreeSet<usize> = index.values().cloned().collect();
	check(B::k(idx.len() == n as usize), || format!("{} places for {} labels", idx.len(), n));
	for p in 0..5usize {
		let st: Vec<bool> = (0..n as usize).map(|i| [true, i % 2 == 0, i % 3 == 1, i > 255, i < 256][p]).collect();
		let (en, v, model) = run(st.clone());
		let vals = read(&|k| v.get(k));
		for (k, x) in &vals {
			check(B::k(*x == st[index[k]]), || format!("variable {} is {}", k, x));
		}
		judge(&st, en, &vals);
		if !view {
			continue;
		}
		let base = qubo_energy(&model, &st);
		for k in labels.iter().filter(|k| far.contains(k) || index[k] > 254 && index[k] < 259 || index[k] < 3) {
			let mut fl = st.clone();
			fl[index[k]] = !fl[index[k]];
			let d = qubo_energy(&model, &fl) - base;
			match v.local_field(k) {
				Some(f) => {
					R::observe("local field", f);
					check(f.eqb(d), || format!("local field {} of {} instead of {}", f, k, d));
				}
				None => check(B::k(false), || format!("no local field for {}", k)),
			}
		}
	}
	set_mode(Mode::Order);
}

pub fn register(prop: &str, thorough: bool, seed: u64, v: &mut Vec<Scen>) {
	let all = L_NUM | L_BIN | L_SPIN | L_PH;
	let what: u16 = match prop {
		"C04" => 4,
		"C05" => 5,
		"C06" => 6,
		"C07" => 7,
		"C22" => 22,
		_ => 0,
	};
	if what != 0 {
		let c = |prob, samples, gens, iters, strength, per_run, few| Cfg { prob, samples, gens, iters, strength, per_run, few, errors: false, pattern: 0, fine: false };
		let mut l: Vec<(Cfg, bool)> = vec![];
		match what {
			4 | 7 => {
				l.push((c(0, 2, 2, 1, 50, 1, 0), false));
				l.push((c(0, 3, 1, 1, 50, 1, 0), true));
				l.push((c(1, 2, 2, 1, 50, 1, 0), true));
				l.push((c(1, 1, 2, 2, 50, 1, 0), false));
				l.push((c(1, 1, 2, 1, 50, 2, 0), false));
				l.push((c(2, 1, 3, 1, 50, 1, 0), true));
				l.push((c(2, 2, 2, 1, 7, 1, 4), false));
				l.push((c(3, 1, 2, 1, 50, 1, 0), false));
				l.push((c(4, 1, 2, 1, 50, 1, 0), true));
				l.push((c(5, 1, 2, 1, 50, 1, 16), false));
				l.push((c(6, 1, 2, 1, 50, 1, 0), true));
				l.push((c(7, 2, 1, 2, 50, 1, 0), false));
				if thorough {
					l.push((c(0, 4, 1, 1, 50, 1, 0), false));
					l.push((c(1, 3, 2, 1, 50, 1, 0), false));
					l.push((c(1, 1, 3, 2, 50, 1, 0), true));
					l.push((c(2, 1, 4, 1, 50, 1, 4), false));
					l.push((c(2, 1, 2, 2, 13, 1, 0), true));
					l.push((c(2, 2, 2, 1, 50, 1, 0), false));
					l.push((c(3, 1, 3, 1, 50, 1, 0), false));
					l.push((c(4, 2, 2, 1, 50, 1, 4), false));
					l.push((c(5, 1, 2, 1, 50, 1, 0), true));
				}
			}
			5 => {
				l.push((c(2, 1, 3, 1, 50, 1, 0), true));
				l.push((c(2, 2, 2, 1, 7, 1, 4), false));
				l.push((c(3, 1, 2, 1, 50, 1, 0), true));
				l.push((c(4, 1, 2, 2, 50, 1, 4), false));
				l.push((c(5, 1, 2, 1, 50, 1, 16), true));
				l.push((c(6, 1, 2, 1, 50, 1, 0), true));
				if thorough {
					l.push((c(3, 1, 3, 1, 50, 1, 0), false));
					l.push((c(5, 1, 2, 1, 50, 1, 0), true));
				}
			}
			22 => {
				l.push((c(0, 2, 2, 1, 50, 1, 0), false));
				l.push((c(1, 1, 2, 2, 50, 1, 0), true));
				l.push((c(1, 1, 2, 1, 50, 2, 0), false));
				l.push((c(2, 1, 2, 2, 50, 1, 4), false));
				l.push((c(2, 1, 3, 1, 7, 1, 4), true));
				l.push((c(3, 1, 2, 1, 50, 1, 0), false));
				l.push((c(3, 2, 1, 2, 6000, 1, 4), false));
				l.push((c(4, 1, 2, 1, 50, 1, 0), true));
				l.push((c(5, 1, 2, 1, 50, 1, 8), false));
				l.push((c(6, 1, 3, 1, 50, 1, 4), false));
				if thorough {
					l.push((c(1, 1, 3, 2, 50, 1, 0), false));
					l.push((c(2, 2, 2, 1, 50, 1, 0), false));
					l.push((c(3, 1, 3, 1, 50, 1, 0), false));
					l.push((c(4, 1, 3, 1, 6000, 1, 0), true));
					l.push((c(5, 1, 2, 1, 50, 1, 0), false));
				}
			}
			_ => {
				for st in [50, 3, 6000] {
					l.push((c(2, 1, 3, 1, st, 1, 0), true));
					l.push((c(3, 1, 2, 1, st, 1, 0), true));
				}
				l.push((c(2, 1, 2, 2, 50, 1, 4), true));
				l.push((c(2, 2, 2, 1, 7, 1, 2), true));
				l.push((c(3, 1, 2, 2, 6000, 1, 4), true));
				l.push((c(4, 1, 3, 1, 50, 1, 0), true));
				l.push((c(5, 1, 2, 1, 50, 1, 16), true));
				l.push((c(6, 1, 3, 1, 6000, 1, 0), true));
				l.push((c(1, 2, 2, 1, 50, 1, 0), true));
				if thorough {
					l.push((c(2, 1, 2, 2, 50, 1, 0), true));
					l.push((c(2, 1, 5, 1, 50, 1, 4), true));
					l.push((c(3, 1, 3, 1, 6000, 1, 0), true));
					l.push((c(3, 1, 4, 1, 3, 1, 4), true));
				}
			}
		}
		// more variables, samples and generations than a few, and numbers that
		// differ by little; the answers are chosen from fewer histories
		let w = |prob, samples, gens, iters, per_run, few, pattern| Cfg { prob, samples, gens, iters, strength: 50, per_run, few, errors: false, pattern, fine: false };
		let t = thorough as usize;
		match what {
			4 | 7 => {
				l.push((w(8, 1, 2, 1, 1, 4, 0), false));
				l.push((w(8, 2, 1, 1, 1, 3, 0), false));
				l.push((w(2, 70, 1, 1, 1, 0, 2), false));
				l.push((w(1, 130 + 200 * t, 2, 1, 2, 2, 2), true));
				l.push((w(1, 300 + 800 * t, 1, 1, 1, 2, 2), false));
				l.push((w(9, 1, 33, 1, 1, 4 * (1 - t), 1), false));
				let mut f = w(0, 2, 1, 1, 1, 0, 0);
				f.fine = true;
				l.push((f, true));
				let mut f = w(7, 2, 2, 1, 1, 0, 0);
				f.fine = true;
				l.push((f, true));
			}
			5 => {
				l.push((w(8, 1, 2, 1, 1, 6, 0), false));
				l.push((w(9, 1, 33, 1, 1, 4, 1), false));
			}
			6 => {
				l.push((w(8, 1, 2, 1, 1, 6, 0), true));
				l.push((w(9, 1, 45 + 60 * t, 1, 1, 4, 1), true));
				l.push((w(9, 1, 30, 3, 1, 4, 1), false));
				l.push((w(2, 66, 2, 1, 1, 2, 2), false));
			}
			_ => {
				l.push((w(8, 1, 2, 1, 1, 4, 0), false));
				l.push((w(1, 130 + 200 * t, 1, 2, 1, 2, 2), false));
				l.push((w(2, 1, 30 + 40 * t, 10, 1, 2, 1), false));
				l.push((w(1, 300 + 800 * t, 1, 1, 1, 2, 1), false));
				l.push((w(2, 1, 1, 300 + 800 * t, 1, 2, 1), false));
				l.push((w(1, 1, 1200, 1, 1, 2, 1), false));
				l.push((w(9, 1, 45 + 60 * t, 1, 1, 4, 1), false));
			}
		}
		for (cf, both) in l {
			let mut name = format!("loop-p{}-s{}g{}i{}-w{}-r{}-f{}", cf.prob, cf.samples, cf.gens, cf.iters, cf.strength, cf.per_run, cf.few);
			if cf.pattern > 0 {
				name += &format!("-pat{}", cf.pattern);
			}
			if cf.fine {
				name += "-fine";
			}
			let desc = "solve loop on a problem with symbolic objective, every history of annealer answers";
			if !cf.fine {
				scen!(v, name, desc, int, vec![seed], vec![], solve_loop(what, cf));
			}
			if both {
				scen!(v, format!("{}-real", name), desc, real, vec![seed], vec![], solve_loop(what, cf));
			}
		}
		if what == 22 {
			for (p, s, g, i) in [(1usize, 2usize, 2usize, 1usize), (2, 1, 2, 2)] {
				let cf = Cfg { prob: p, samples: s, gens: g, iters: i, strength: 50, per_run: 1, few: 2, errors: true, pattern: 0, fine: false };
				scen!(v, format!("errors-p{}-s{}g{}i{}", p, s, g, i), "failing annealer", int, vec![seed], vec!["error", "feasible", "infeasible"], solve_loop(what, cf));
			}
		}
		if what == 7 {
			for (p, s, g) in [(1usize, 2usize, 2usize), (0, 2, 1), (2, 1, 3)] {
				let cf = Cfg { prob: p, samples: s, gens: g, iters: 1, strength: 50, per_run: 1, few: 2, errors: true, pattern: 0, fine: false };
				scen!(v, format!("errors-p{}-s{}g{}", p, s, g), "failing annealer", int, vec![seed], vec!["error passed on"], solve_loop(what, cf));
			}
		}
	}
	match prop {
		"C06" => {
			for g in if thorough { vec![300usize, 700] } else { vec![300] } {
				scen!(v, format!("long{}", g), "a constraint violated for many generations", int, vec![seed], vec!["still violated"], long_run(g));
			}
			for m in if thorough { vec![30u16, 70, 300, 600] } else { vec![30, 70, 300] } {
				scen!(v, format!("crowd{}", m), "very many constraints", int, vec![seed], vec!["some constraints violated, others not"], crowd(6, m, 2));
				scen!(v, format!("crowd{}-real", m), "very many constraints", real, vec![seed], vec!["some constraints violated, others not"], crowd(6, m, 2));
			}
		}
		"C05" => {
			for k in 0..=14usize {
				let sd: Vec<u64> = if thorough { (seed..seed + 4).collect() } else { vec![seed] };
				scen!(v, format!("verdict{}", k), "constraint template, every assignment", int, sd.clone(), vec!["violated", "satisfied"], c05_t(k));
				scen!(v, format!("verdict{}-real", k), "constraint template, every assignment", real, sd, vec!["violated", "satisfied"], c05_t(k));
			}
			let mut sizes = vec![(0usize, 2u16, all, 127u16), (1, 2, all, 127), (2, 2, all, 127 & !O_SUB)];
			if thorough {
				sizes.push((2, 3, all, 127));
				sizes.push((3, 2, L_NUM | L_BIN | L_SPIN, O_ADD | O_MUL | O_PEN | O_CONS));
			}
			for (i, (n, q, l, o)) in sizes.into_iter().enumerate() {
				scen!(v, format!("verdict-size{}-{}", n, i), format!("a constraint over every expression with {} operators", n), int, vec![seed], vec!["violated", "satisfied"], c05_size(n, q, l, o));
			}
			for m in if thorough { vec![70u16, 130, 300] } else { vec![70, 130] } {
				scen!(v, format!("crowd{}", m), "very many constraints", int, vec![seed], vec!["violated", "satisfied"], crowd(5, m, 1));
			}
			scen!(v, "tolerance", "rounding tolerance", real, vec![seed], vec!["violated", "satisfied"], c05_tol());
		}
		"C19" => {
			for k in 0..=20usize {
				let sd: Vec<u64> = if thorough { (seed..seed + 8).collect() } else { vec![seed, seed + 1] };
				scen!(v, format!("view-reduce{}", k), "view of a problem with auxiliary variables", real, sd, vec!["auxiliary variables"], c19_t(k));
			}
			for n in if thorough { vec![70u16, 270, 600, 1100] } else { vec![270, 600] } {
				scen!(v, format!("view-many{}", n), "view of a problem with many variables", int, vec![seed], vec![], wide_expr(n, true));
			}
			for n in [66u16, 100] {
				scen!(v, format!("view-wide{}", n), "view of a problem with many variables", int, vec![seed], vec![], c19_wide(n));
			}
			for k in 0..=12usize {
				let sd: Vec<u64> = if thorough { (seed..seed + 4).collect() } else { vec![seed] };
				scen!(v, format!("view{}", k), "view of a quadratic problem", real, sd, vec![], c19_q(k));
				if k % 3 == 0 {
					scen!(v, format!("view{}-int", k), "view of a quadratic problem", int, vec![seed], vec![], c19_q(k));
				}
			}
			let mut sizes = vec![(0usize, 2u16, all, 127u16), (1, 2, all, 127), (2, 2, all, 127)];
			if thorough {
				sizes.push((2, 3, all, 127));
				sizes.push((3, 3, L_NUM | L_BIN | L_SPIN, O_ADD | O_MUL | O_PEN | O_CONS));
			}
			for (i, (n, q, l, o)) in sizes.into_iter().enumerate() {
				scen!(v, format!("view-size{}-{}", n, i), format!("every expression with {} operators", n), real, vec![seed], vec!["at most quadratic"], c19_size(n, q, l, o));
			}
		}
		_ => {}
	}
}
