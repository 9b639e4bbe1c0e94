//! A scripted annealer: it records the problems it is given and returns the
//! states the script tells.
use crate::eng::*;
use annealers::model::FixedSingleQuadricModel;
use annealers::node::Binary;
use annealers::order::Quadric;
use annealers::solution::SingleSolution;
use annealers::solver::{ClassicalSolver, Solver, SolverGenerator, UnstructuredSolverGenerator};
use std::sync::{Arc, Mutex};

pub type M<R> = FixedSingleQuadricModel<Binary<R>>;

#[derive(Clone, Debug, PartialEq)]
pub struct StubErr(pub u32);
impl std::fmt::Display for StubErr {
	fn fmt(&self, f: &mut std::fmt::Formatter<'_>) -> std::fmt::Result {
		write!(f, "stub error {}", self.0)
	}
}
impl std::error::Error for StubErr {}

#[derive(Clone, Debug)]
pub enum Answer {
	/// bit i of the mask is the value of qubit index i; several solutions
	/// may be returned by one run
	States(Vec<u128>),
	/// the same for any number of variables
	Bits(Vec<Vec<bool>>),
	Err(u32),
}

pub struct Log<R: Num> {
	/// the problem of each generate() call
	pub models: Vec<M<R>>,
	/// states handed out, per generate() call
	pub given: Vec<Option<Answer>>,
}

pub struct Stub<R: Num> {
	pub log: Arc<Mutex<Log<R>>>,
	pub script: Arc<dyn Fn(usize, usize) -> Answer + Send + Sync>,
	/// generate() fails at this call
	pub gen_err: Arc<Mutex<Option<usize>>>,
}

pub struct StubSolver<R: Num> {
	no: usize,
	size: usize,
	log: Arc<Mutex<Log<R>>>,
	script: Arc<dyn Fn(usize, usize) -> Answer + Send + Sync>,
}

impl<R: Num> Stub<R> {
	/// script(call number, number of qubits)
	pub fn new(script: impl Fn(usize, usize) -> Answer + Send + Sync + 'static) -> Self {
		Stub {
			log: Arc::new(Mutex::new(Log { models: vec![], given: vec![] })),
			script: Arc::new(script),
			gen_err: Arc::new(Mutex::new(None)),
		}
	}
}

impl<R: Num> SolverGenerator<'static, M<R>> for Stub<R> {
	type SolverType = StubSolver<R>;
	type ErrorType = StubErr;
	fn generate(&self, model: &'static M<R>) -> Result<StubSolver<R>, StubErr> {
		use annealers::model::FixedSingleModelView;
		let mut l = self.log.lock().unwrap();
		let no = l.models.len();
		l.models.push(model.clone());
		l.given.push(None);
		if *self.gen_err.lock().unwrap() == Some(no) {
			return Err(StubErr(1000));
		}
		Ok(StubSolver { no, size: FixedSingleModelView::size(model), log: self.log.clone(), script: self.script.clone() })
	}
}
impl<R: Num> UnstructuredSolverGenerator<'static, M<R>> for Stub<R> {
	type Order = Quadric;
	fn order(&self) -> Quadric {
		Quadric
	}
}
impl<R: Num> Solver for StubSolver<R> {
	type ErrorType = StubErr;
	type SolutionType = SingleSolution<Binary<R>>;
}
impl<R: Num> ClassicalSolver for StubSolver<R> {
	fn solve_with_rng<T: rand::Rng>(&self, _r: &mut T) -> Result<Vec<SingleSolution<Binary<R>>>, StubErr> {
		let a = (self.script)(self.no, self.size);
		self.log.lock().unwrap().given[self.no] = Some(a.clone());
		match a {
			Answer::Err(e) => Err(StubErr(e)),
			Answer::Bits(v) => Ok(v.iter().map(|s| SingleSolution::from_vec(s)).collect()),
			Answer::States(v) => Ok(v.iter().map(|m| SingleSolution::from_vec(&bits(*m, self.size))).collect()),
		}
	}
}

pub fn bits(m: u128, n: usize) -> Vec<bool> {
	(0..n).map(|i| m >> i & 1 == 1).collect()
}

/// energy of a state under the definition of a 0/1 quadratic model
pub fn qubo_energy<R: Num>(m: &M<R>, s: &[bool]) -> R {
	use annealers::model::FixedSingleModelView;
	let mut e = R::int(0);
	for j in 0..s.len() {
		for i in 0..=j {
			if s[i] && s[j] {
				e += FixedSingleModelView::get_weight(m, &[i, j]);
			}
		}
	}
	e
}
