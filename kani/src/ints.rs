//! C24: models over machine integers whose absolute weights add up to a
//! representable number: nothing overflows and everything is exact.
use crate::src::*;
use crate::{harnesses, reach};
use annealers::model::{FixedSingleModelView, FixedSingleQuadricModel};
use annealers::node::{Binary, SingleNode, Spin};
use annealers::repr::BinaryRepr;
use annealers::solution::SingleSolution;
use annealers::solver::SolverGenerator;
use annealers::variable::Real;
use classical_solver::algo::simulated_annealing;
use classical_solver::beta::BetaType;
use classical_solver::sa::SimulatedAnnealerGenerator;
use rand::{Error, RngCore};

/// A machine integer.
pub trait Int: Real + Prim {
	fn wide(self) -> i128;
}
macro_rules! int {
	($($t:ty)*) => {$(impl Int for $t {
		fn wide(self) -> i128 { self as i128 }
	})*};
}
int!(i8 i16 i32 i64);

struct Word(u64);
impl RngCore for Word {
	fn next_u32(&mut self) -> u32 {
		(self.0 >> 32) as u32
	}
	fn next_u64(&mut self) -> u64 {
		self.0
	}
	fn fill_bytes(&mut self, d: &mut [u8]) {
		for b in d.iter_mut() {
			*b = self.0 as u8;
		}
	}
	fn try_fill_bytes(&mut self, d: &mut [u8]) -> Result<(), Error> {
		self.fill_bytes(d);
		Ok(())
	}
}

/// A model with arbitrary weights, some of them added in two portions.
struct Case<M: SingleNode, const N: usize> {
	model: FixedSingleQuadricModel<M>,
	w: [[i128; N]; N],
	s: [bool; N],
}
fn case<M: SingleNode, const N: usize>(node: M, part: i128) -> Case<M, N>
where
	M::RealType: Int,
{
	let mut model = FixedSingleQuadricModel::new(node, N);
	let mut w = [[0i128; N]; N];
	let mut s = [false; N];
	let mut sum = 0i128;
	for j in 0..N {
		s[j] = any();
		for i in 0..=j {
			let x: M::RealType = any();
			let v = x.wide();
			sum += if v < 0 { -v } else { v };
			w[i][j] = v;
			assume(sum <= M::RealType::MAX.wide() / part);
			model.add_weight(j, i, x);
		}
	}
	Case { model, w, s }
}

/// The energy of a state, the values of a variable being lo (0 or -1) and 1.
fn reference<const N: usize>(w: &[[i128; N]; N], s: &[bool; N], lo: i128) -> i128 {
	let mut e = 0;
	for j in 0..N {
		for i in 0..=j {
			let up = if lo == 0 || i == j { s[j] && s[i] } else { s[j] == s[i] };
			if up {
				e += w[i][j];
			} else if lo != 0 {
				e -= w[i][j];
			}
		}
	}
	e
}

fn energies<M: SingleNode, const N: usize>(node: M, lo: i128, part: i128)
where
	M::RealType: Int,
{
	let c = case::<M, N>(node, part);
	let sol = SingleSolution::<M>::from_vec(&c.s).with_energy(&c.model);
	let e = reference(&c.w, &c.s, lo);
	assert!(sol.energy.unwrap().wide() == e, "energy");
	let sol = sol.with_local_field(&c.model);
	let q = upto(N - 1);
	let mut t = c.s;
	t[q] = !t[q];
	let f = reference(&c.w, &t, lo) - e;
	let field = sol.local_field.as_ref().unwrap();
	assert!(field.len() == N && field[q].wide() == f, "local field");
	assert!(FixedSingleModelView::get_weight(&c.model, &[0, q]).wide() == c.w[0][q], "weight");
	reach!(f == M::RealType::MAX.wide() / part * (1 - lo), "the largest field");
	reach!(e < 0 && f > 0, "signs");
	std::mem::forget((c, sol));
}

/// One temperature so low that nothing rises, or so high that all are accepted.
fn anneals<R: Int, const N: usize>(sweeps: usize) {
	let c = case::<Binary<R>, N>(Binary::new(), 1);
	let cold: bool = any();
	let word: u64 = any();
	let mut st = BinaryRepr::from_vec(&c.s);
	let beta = if cold { 1e4 } else { 0.0 };
	simulated_annealing(&mut Word(word), &mut st, &[beta], sweeps, &c.model);
	let mut t = [false; N];
	for i in 0..N {
		t[i] = st.get(i);
		assert!(cold || t[i] == (c.s[i] ^ (sweeps % 2 == 1)), "a move was refused while infinitely hot");
	}
	let (a, b) = (reference(&c.w, &c.s, 0), reference(&c.w, &t, 0));
	assert!(!cold || b <= a, "the energy rose while cold");
	reach!(cold && b < a, "fell");
	// two sweeps restore the state
	reach!(sweeps % 2 == 0 || !cold && b > a, "rose");
	std::mem::forget((c, st));
}

/// The schedule made from the weights.
fn schedule<R: Int, const N: usize>() {
	let c = case::<Binary<R>, N>(Binary::new(), 1);
	let mut g = SimulatedAnnealerGenerator::new();
	g.beta = BetaType::Count(2);
	let s = g.generate(&c.model).unwrap();
	let b = s.beta_schedule();
	assert!(b.len() == 2, "number of steps");
	assert!(b[0].is_finite() && b[0] > 0.0 && b[1].is_finite() && b[1] > 0.0, "finite positive steps");
	assert!(b[0] <= b[1], "the order of the steps");
	reach!(c.w[0][0] == R::MAX.wide(), "the largest weight");
	std::mem::forget((s, g));
	std::mem::forget(c);
}

harnesses! {
	fn c24_energy_i8(10) { energies::<Binary<i8>, 2>(Binary::new(), 0, 1) }
	fn c24_energy_i16(10) { energies::<Binary<i16>, 2>(Binary::new(), 0, 1) }
	fn c24_energy_i32(10) { energies::<Binary<i32>, 2>(Binary::new(), 0, 1) }
	fn c24_energy_i64_t(10) { energies::<Binary<i64>, 2>(Binary::new(), 0, 1) }
	fn c24_spins_i8(10) { energies::<Spin<i8>, 2>(Spin::new(), -1, 2) }
	fn c24_spins_i16_t(10) { energies::<Spin<i16>, 2>(Spin::new(), -1, 2) }
	#[cfg_attr(kani, kani::stub(f64::exp, crate::sa::exp))]
	fn c24_anneal_i8(8) { anneals::<i8, 2>(1) }
	#[cfg_attr(kani, kani::stub(f64::exp, crate::sa::exp))]
	fn c24_anneal2_i8(8) { anneals::<i8, 2>(2) }
	#[cfg_attr(kani, kani::stub(f64::exp, crate::sa::exp))]
	fn c24_anneal_i16(8) { anneals::<i16, 2>(1) }
	#[cfg_attr(kani, kani::stub(f64::ln, crate::sa::ln2))]
	#[cfg_attr(kani, kani::stub(f64::exp, crate::sa::exp2))]
	fn c24_schedule_i8(14) { schedule::<i8, 2>() }
}
