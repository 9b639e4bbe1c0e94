//! Scenarios about the order in which parallel tasks run: C21. They need the
//! model of rayon in ../sched.
use crate::eng::*;
use crate::run::Scen;
use crate::scen;
use crate::scen_solve::*;
use crate::stub::*;
use annealers::model::FixedSingleModelView;
use rustqubo::solve::SimpleSolver;
use std::collections::{BTreeMap, HashMap};
use std::sync::{Arc, Mutex};

#[derive(Clone, Copy)]
struct Cfg {
	prob: usize,
	samples: usize,
	gens: usize,
	iters: usize,
	/// solutions of one run
	per_run: usize,
	/// states to choose from
	few: usize,
	errors: bool,
}

/// The answer under one schedule and under any other one.
fn schedules<R: Num>(cf: Cfg) {
	let pb = problem::<R>(cf.prob);
	let e = pb.e.clone();
	let compiled = e.build().compile().feed_dict(HashMap::new());
	set_mode(Mode::Order);
	let answers: Mutex<BTreeMap<usize, Answer>> = Mutex::new(BTreeMap::new());
	let stub = Stub::<R>::new(move |no, n| {
		answers
			.lock()
			.unwrap()
			.entry(no)
			.or_insert_with(|| {
				if cf.errors && choose(2) == 1 {
					return Answer::Err(no as u32);
				}
				let all = 1u128 << n;
				let step = if cf.few == 0 { 1 } else { (all / cf.few as u128).max(1) };
				Answer::States((0..cf.per_run).map(|_| (choose((all / step) as usize) as u128 * step + step / 2) % all).collect())
			})
			.clone()
	});
	let log: Arc<Mutex<Log<R>>> = stub.log.clone();
	let mut s = SimpleSolver::with_solver(&compiled, stub);
	s.iterations = cf.iters;
	s.generations = cf.gens;
	s.samples = cf.samples;
	rayon::model::set(None);
	rayon::model::set_threads(&[1]);
	let one = s.solve_with_constraints();
	let models = std::mem::take(&mut log.lock().unwrap().models);
	let given = std::mem::take(&mut log.lock().unwrap().given);
	let taken = Arc::new(Mutex::new(vec![]));
	let t2 = taken.clone();
	rayon::model::set(Some(Box::new(move |n| {
		let k = choose(n);
		t2.lock().unwrap().push((k, n));
		k
	})));
	rayon::model::set_threads(&[1, 2, 3, 8, 64]);
	let two = s.solve_with_constraints();
	rayon::model::set(None);
	rayon::model::set_threads(&[1]);
	let l = log.lock().unwrap();
	if taken.lock().unwrap().iter().any(|(k, _)| *k > 0) {
		cover("another order");
	}
	note(|| format!("{} S={} G={} I={} answers {:?}; scheduling decisions {:?}", e.show(), cf.samples, cf.gens, cf.iters, given, taken.lock().unwrap()));
	match (one, two) {
		(Ok((e1, v1, l1)), Ok((e2, v2, l2))) => {
			cover("answer");
			R::observe("energy", e1);
			R::observe("energy2", e2);
			check(e1.eqb(e2), || format!("energy {}, {} under another schedule", e1, e2));
			let sorted = |l: Vec<&u16>| {
				let mut l: Vec<u16> = l.into_iter().cloned().collect();
				l.sort();
				l
			};
			let (l1, l2) = (sorted(l1), sorted(l2));
			check(B::k(l1 == l2), || format!("violated {:?}, {:?} under another schedule", l1, l2));
			for k in e.qubits() {
				check(B::k(v1.get(&k) == v2.get(&k)), || format!("variable {}: {:?}, {:?} under another schedule", k, v1.get(&k), v2.get(&k)));
				match (v1.local_field(&k), v2.local_field(&k)) {
					(Some(a), Some(b)) => check(a.eqb(b), || format!("local field of {}: {}, {} under another schedule", k, a, b)),
					(a, b) => check(B::k(a.is_none() && b.is_none()), || format!("local field of {}: present {}, {} under another schedule", k, a.is_some(), b.is_some())),
				}
			}
			// the problems posed
			let n = models.first().map(|m| FixedSingleModelView::size(m)).unwrap_or(0);
			check(B::k(models.len() == l.models.len()), || format!("{} problems, {} under another schedule", models.len(), l.models.len()));
			for (i, (a, b)) in models.iter().zip(l.models.iter()).enumerate() {
				for x in 0..n {
					for y in x..n {
						let (p, q) = (FixedSingleModelView::get_weight(a, &[x, y]), FixedSingleModelView::get_weight(b, &[x, y]));
						check(p.eqb(q), || format!("problem {}: entry {},{} is {}, {} under another schedule", i, x, y, p, q));
					}
				}
			}
		}
		(Err(e1), Err(e2)) => {
			cover("error");
			check(B::k(e1 == e2), || format!("error {}, {} under another schedule", e1, e2));
		}
		(a, b) => check(B::k(false), || format!("success {}, {} under another schedule", a.is_ok(), b.is_ok())),
	}
}

pub fn register(prop: &str, thorough: bool, seed: u64, v: &mut Vec<Scen>) {
	if prop != "C21" {
		return;
	}
	let c = |prob, samples, gens, iters, per_run, few| Cfg { prob, samples, gens, iters, per_run, few, errors: false };
	let mut l = vec![
		(c(0, 2, 1, 1, 1, 0), true),
		(c(0, 3, 1, 1, 1, 0), true),
		(c(0, 2, 1, 1, 2, 2), true),
		(c(1, 2, 2, 1, 1, 2), true),
		(c(1, 2, 1, 2, 1, 0), false),
		(c(2, 2, 2, 1, 1, 2), false),
		(c(4, 2, 1, 1, 1, 0), true),
		(c(5, 2, 1, 1, 1, 8), false),
		(c(0, 4, 1, 1, 1, 2), false),
		(c(7, 3, 1, 1, 1, 2), false),
		(c(0, 5, 1, 1, 1, 2), false),
	];
	if thorough {
		l.push((c(0, 6, 1, 1, 1, 2), false));
		l.push((c(0, 4, 1, 1, 1, 0), true));
		l.push((c(0, 3, 1, 1, 2, 0), false));
		l.push((c(1, 3, 2, 1, 1, 2), false));
		l.push((c(1, 2, 2, 1, 1, 0), true));
		l.push((c(0, 2, 1, 1, 2, 0), true));
		l.push((c(2, 3, 2, 1, 1, 2), true));
		l.push((c(3, 2, 2, 1, 1, 4), true));
	}
	let desc = "the solve loop on a problem with symbolic objective, every set of annealer answers, every order of the parallel runs";
	for (cf, both) in l {
		let name = format!("schedules-p{}-s{}g{}i{}-r{}-f{}", cf.prob, cf.samples, cf.gens, cf.iters, cf.per_run, cf.few);
		scen!(v, name, desc, int, vec![seed], vec!["another order", "answer"], schedules(cf));
		if both {
			scen!(v, format!("{}-real", name), desc, real, vec![seed], vec!["another order", "answer"], schedules(cf));
		}
	}
	for (p, s, g) in [(0usize, 2usize, 1usize), (1, 2, 2), (0, 3, 1)] {
		let mut cf = c(p, s, g, 1, 1, 2);
		cf.errors = true;
		scen!(v, format!("errors-p{}-s{}g{}", p, s, g), "the same with failing runs", int, vec![seed], vec!["error", "answer"], schedules(cf));
	}
}
