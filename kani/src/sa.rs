//! C14, C15, C20: the simulated annealer.
use crate::src::*;
use crate::{harnesses, reach};
use annealers::model::FixedSingleQuadricModel;
use annealers::node::{Binary, SingleNode};
use annealers::repr::BinaryRepr;
use annealers::solution::SingleSolution;
use annealers::solver::{ClassicalSolver, SolverGenerator};
use annealers::variable::Real;
use classical_solver::algo::simulated_annealing;
use classical_solver::beta::BetaType;
use classical_solver::sa::SimulatedAnnealerGenerator;
use rand::{Error, RngCore};

type M<R> = FixedSingleQuadricModel<Binary<R>>;

/// exp(-k/2)
const T: [f64; 96] = [1.0, 0.6065306597126334, 0.36787944117144233, 0.22313016014842982, 0.1353352832366127, 0.0820849986238988, 0.049787068367863944, 0.0301973834223185, 0.01831563888873418, 0.011108996538242306, 0.006737946999085467, 0.004086771438464067, 0.0024787521766663585, 0.0015034391929775724, 0.0009118819655545162, 0.0005530843701478336, 0.00033546262790251185, 0.00020346836901064417, 0.00012340980408667956, 7.48518298877006e-05, 4.5399929762484854e-05, 2.7536449349747158e-05, 1.670170079024566e-05, 1.013009359863071e-05, 6.14421235332821e-06, 3.726653172078671e-06, 2.2603294069810542e-06, 1.3709590863840845e-06, 8.315287191035679e-07, 5.04347662567888e-07, 3.059023205018258e-07, 1.8553913626159784e-07, 1.1253517471925912e-07, 6.82560337633487e-08, 4.139937718785167e-08, 2.510999155743982e-08, 1.522997974471263e-08, 9.237449661970594e-09, 5.602796437537268e-09, 3.398267819495071e-09, 2.061153622438558e-09, 1.2501528663867426e-09, 7.582560427911907e-10, 4.5990553786523166e-10, 2.7894680928689246e-10, 1.6918979226151304e-10, 1.026187963170189e-10, 6.224144622907783e-11, 3.775134544279098e-11, 2.289734845645553e-11, 1.3887943864964021e-11, 8.423463754468647e-12, 5.109089028063325e-12, 3.0988191387218256e-12, 1.8795288165390832e-12, 1.1399918530443554e-12, 6.914400106940203e-13, 4.1937956583795446e-13, 2.543665647376923e-13, 1.5428112031918877e-13, 9.357622968840175e-14, 5.675685232632723e-14, 3.442477108469977e-14, 2.0879679116459336e-14, 1.2664165549094176e-14, 7.681204685202095e-15, 4.658886145103398e-15, 2.825757287115611e-15, 1.713908431542013e-15, 1.039538011670222e-15, 6.305116760146989e-16, 3.8242466280971355e-16, 2.3195228302435696e-16, 1.4068617124461467e-16, 8.533047625744066e-17, 5.175555005801869e-17, 3.1391327920480296e-17, 1.9039802832864523e-17, 1.1548224173015786e-17, 7.004352026168645e-18, 4.248354255291589e-18, 2.576757109154981e-18, 1.5628821893349888e-18, 9.479359653504757e-19, 5.74952226429356e-19, 3.4872615319944465e-19, 2.1151310375910805e-19, 1.282891823608785e-19, 7.781132241133797e-20, 4.719495271526123e-20, 2.8625185805493937e-20, 1.7362052831002947e-20, 1.0530617357553812e-20, 6.387142293058423e-21, 3.873997628687187e-21, 2.349698337452817e-21];
/// Everything the annealing harnesses ask of exp: its value at the multiples
/// of 1/2, a step in between, 0 far away.
pub fn exp(x: f64) -> f64 {
	if x.is_nan() {
		return x;
	}
	if x > 0.0 {
		return 1.0 / exp_neg(x);
	}
	exp_neg(-x)
}
fn exp_neg(y: f64) -> f64 {
	if y >= 47.0 {
		return 1e-21;
	}
	if y < 1e-17 {
		return 1.0;
	}
	let k = (y * 2.0) as usize;
	if k as f64 == y * 2.0 {
		T[k]
	} else {
		T[k + 1]
	}
}

/// 2^(k/12)
const G: [f64; 12] = [1.0, 1.0594630943592953, 1.122462048309373, 1.189207115002721, 1.2599210498948732, 1.3348398541700344, 1.4142135623730951, 1.4983070768766815, 1.5874010519681994, 1.681792830507429, 1.7817974362806785, 1.8877486253633868];
fn two_to(k: i32) -> f64 {
	f64::from_bits(((k + 1023) as u64) << 52)
}
/// A logarithm and its inverse for the schedules: base 2, which satisfies the
/// same laws, exact at the twelfths the harnesses ask for, a step function
/// elsewhere.
pub fn ln2(x: f64) -> f64 {
	if !(x > 0.0) || x == f64::INFINITY {
		return if x == 0.0 {
			f64::NEG_INFINITY
		} else if x == f64::INFINITY {
			x
		} else {
			f64::NAN
		};
	}
	let b = x.to_bits();
	let k = (b >> 52) as i32 - 1023;
	let m = f64::from_bits((b & ((1 << 52) - 1)) | (1023 << 52));
	let mut p = 0;
	let mut i = 1;
	while i < 12 {
		if m >= G[i] - 1e-12 {
			p = i;
		}
		i += 1;
	}
	k as f64 + p as f64 / 12.0
}
pub fn exp2(y: f64) -> f64 {
	if y.is_nan() {
		return y;
	}
	if y > 900.0 {
		return f64::INFINITY;
	}
	if y < -900.0 {
		return 0.0;
	}
	// twelfths, rounded to the nearest
	let t = y * 12.0 + 12000.5;
	let t = t as i32 - 12000;
	G[t.rem_euclid(12) as usize] * two_to(t.div_euclid(12))
}
pub fn pow2(x: f64, t: f64) -> f64 {
	exp2(t * ln2(x))
}

/// The same word for ever.
struct Fix(u64);
impl RngCore for Fix {
	fn next_u32(&mut self) -> u32 {
		(self.0 >> 32) as u32
	}
	fn next_u64(&mut self) -> u64 {
		self.0
	}
	fn fill_bytes(&mut self, d: &mut [u8]) {
		for b in d.iter_mut() {
			*b = (self.0 >> 56) as u8;
		}
	}
	fn try_fill_bytes(&mut self, d: &mut [u8]) -> Result<(), Error> {
		self.fill_bytes(d);
		Ok(())
	}
}

fn model<R: Real>(n: usize, w: &[i8]) -> M<R> {
	let mut m = M::<R>::new(Binary::new(), n);
	let mut k = 0;
	for j in 0..n {
		for i in 0..=j {
			m.add_weight(i, j, R::from_i32(w[k] as i32));
			k += 1;
		}
	}
	m
}
/// What a move that costs `twice`/2 (in units of 1/beta) may do: 0 rejected,
/// 1 accepted, 2 either.
fn verdict(twice: i32, word: u64) -> u8 {
	if twice <= 0 {
		return 1;
	}
	let far = twice >= 88;
	let p = if twice < 96 { T[twice as usize] } else { 1e-21 };
	let u = (word >> 11) as f64 / 9007199254740992.0;
	let d = u - p;
	if word == 0 || d < -1e-14 {
		if far {
			2
		} else {
			1
		}
	} else if d > 1e-14 {
		0
	} else {
		2
	}
}

/// One variable: `b2` is twice the inverse temperature.
fn one<R: Real>(b2: &[i32], sweeps: usize, betas: &[R], max: i8) {
	let w = small(max);
	let s: bool = any();
	let word: u64 = any();
	let m = model::<R>(1, &[w]);
	let mut st = BinaryRepr::from_vec(&[s]);
	simulated_annealing(&mut Fix(word), &mut st, betas, sweeps, &m);
	let end = st.get(0);
	let mut cur = s;
	let mut known = true;
	for b in b2.iter() {
		for _ in 0..sweeps {
			let c = if cur { -(w as i32) } else { w as i32 };
			match verdict(c * b, word) {
				0 => {}
				1 => cur = !cur,
				_ => known = false,
			}
		}
	}
	if known {
		assert!(end == cur, "the move was not decided with the Metropolis probability");
	}
	assert!(st.len() == 1, "length of the state");
	reach!(known && cur != s, "accepted");
	reach!(known && cur == s, "rejected");
	std::mem::forget((m, st));
}
/// Extreme temperatures: infinitely hot, nearly so, nearly infinitely cold,
/// infinitely cold.
fn extreme(max: i8) {
	let w = small(max);
	let s: bool = any();
	let word: u64 = any();
	let k = upto(3);
	let beta = match k {
		0 => 0.0,
		1 => f64::MIN_POSITIVE,
		2 => f64::MAX,
		_ => f64::INFINITY,
	};
	let m = model::<f64>(1, &[w]);
	let mut st = BinaryRepr::from_vec(&[s]);
	simulated_annealing(&mut Fix(word), &mut st, &[beta], 1, &m);
	let c = if s { -(w as i32) } else { w as i32 };
	assert!((st.get(0) != s) == (c <= 0 || k < 2), "a move was not decided with the Metropolis probability");
	reach!(c == 0 && k == 3, "a free move, infinitely cold");
	reach!(c > 0 && k == 0, "an uphill move, infinitely hot");
	std::mem::forget((m, st));
}
/// Two variables, one sweep, in either order of the moves.
fn two<R: Real>(b2: i32, beta: R, max: i8) {
	let (a, j, b) = (small(max), small(max), small(max));
	let s: [bool; 2] = [any(), any()];
	let word: u64 = any();
	let m = model::<R>(2, &[a, j, b]);
	let mut st = BinaryRepr::from_vec(&s);
	simulated_annealing(&mut Fix(word), &mut st, &[beta], 1, &m);
	let end = [st.get(0), st.get(1)];
	let lin = [a as i32, b as i32];
	let mut ok = false;
	let mut i0 = 0;
	while i0 < 2 {
		let mut cur = s;
		let mut known = true;
		let mut t = 0;
		while t < 2 {
			let i = if t == 0 { i0 } else { 1 - i0 };
			let up = lin[i] + if cur[1 - i] { j as i32 } else { 0 };
			match verdict((if cur[i] { -up } else { up }) * b2, word) {
				0 => {}
				1 => cur[i] = !cur[i],
				_ => known = false,
			}
			t += 1;
		}
		ok |= !known || cur == end;
		i0 += 1;
	}
	assert!(ok, "a move was not decided with the Metropolis probability");
	reach!(end[0] != s[0] && end[1] != s[1], "both moves accepted");
	reach!(end[0] == s[0] && end[1] == s[1], "both moves rejected");
	std::mem::forget((m, st));
}

fn schedule<R: Real>(t: BetaType<R>, m: &M<R>) -> Vec<f64> {
	let mut g = SimulatedAnnealerGenerator::<M<R>>::new();
	g.beta = t;
	match g.generate(m) {
		Ok(s) => {
			let v = s.beta_schedule().to_vec();
			std::mem::forget((s, g));
			v
		}
		Err(_) => panic!("generating an annealer failed"),
	}
}
fn close(a: f64, b: f64) -> bool {
	let d = a - b;
	d <= b * 1e-9 && d >= -b * 1e-9
}
/// A schedule of `n` steps from 2^a to 2^b, neither below 2^`min`.
fn range<R: Real>(n: usize, min: i32) {
	let (a, b) = (small(6) as i32, small(6) as i32);
	assume(a >= min && b >= min);
	let (lo, hi) = (two_to(a), two_to(b));
	let m = M::<R>::new(Binary::new(), 0);
	let v = schedule(BetaType::CountRange(n, R::from_f64(lo), R::from_f64(hi)), &m);
	assert!(v.len() == n, "number of steps");
	for i in 0..n {
		assert!(v[i].is_finite() && v[i] > 0.0, "a step is not a positive number");
		if i > 0 {
			let (x, y) = (v[i - 1], v[i]);
			assert!(if a <= b { y >= x * (1.0 - 1e-9) } else { y <= x * (1.0 + 1e-9) }, "a step away from the second bound");
			if a == b {
				assert!(close(y, lo), "a step away from the second bound");
			} else {
				assert!(x != y, "a step that does not move");
			}
		}
	}
	if n > 0 {
		assert!(close(v[0], lo), "the first step is not the first bound");
	}
	if n > 1 {
		assert!(close(v[n - 1], hi), "the last step is not the second bound");
	}
	reach!(a < b, "cooling");
	reach!(a > b, "heating");
	std::mem::forget((v, m));
}
/// A schedule of which only the number of steps is given.
fn counted<R: Real>(n: usize, size: usize, max: i8) {
	let w = [small(max), small(max), small(max)];
	let m = model::<R>(size, &w);
	let v = schedule(BetaType::Count(n), &m);
	assert!(v.len() == n, "number of steps");
	for i in 0..n {
		assert!(v[i].is_finite() && v[i] > 0.0, "a step is not a positive number");
		if i > 0 {
			assert!(v[i] >= v[i - 1], "it never gets hotter");
		}
	}
	reach!("end");
	std::mem::forget((v, m));
}
// f32: Kani lays BetaType<f64>::Schedule out wrongly.
fn manual<const N: usize>() {
	let mut b = [0.0f32; N];
	let mut i = 0;
	while i < N {
		b[i] = any();
		i += 1;
	}
	let m = M::<f32>::new(Binary::new(), 1);
	let v = schedule(BetaType::Schedule(b.to_vec()), &m);
	assert!(v.len() == N, "number of steps");
	i = 0;
	while i < N {
		assert!(v[i] == b[i] as f64 || (v[i].is_nan() && b[i].is_nan()), "a step was changed");
		i += 1;
	}
	reach!("end");
	std::mem::forget((v, m));
}
fn wild<R: Real + Prim>(n: usize, finite: impl Fn(&R) -> bool) -> M<R> {
	let mut m = M::<R>::new(Binary::new(), n);
	for j in 0..n {
		for i in 0..=j {
			let w: R = any();
			assume(finite(&w));
			m.add_weight(i, j, w);
		}
	}
	m
}
/// A run of the annealer, schedule and all, on any weights.
fn whole(n: usize, count: usize, sweeps: usize) {
	let m = wild::<f32>(n, |w| w.is_finite());
	let word: u64 = any();
	let mut g = SimulatedAnnealerGenerator::<M<f32>>::new();
	g.beta = BetaType::Count(count);
	g.sweeps_per_round = sweeps;
	let a = match g.generate(&m) {
		Ok(a) => a,
		Err(_) => panic!("generating an annealer failed"),
	};
	let x = match a.solve_with_rng(&mut Fix(word)) {
		Ok(x) => x,
		Err(_) => panic!("annealing failed"),
	};
	assert!(x.len() == 1, "one solution");
	assert!(x[0].state.len() == n && x[0].len() == n, "one value per variable");
	reach!("end");
	std::mem::forget((x, a, g));
	std::mem::forget(m);
}
/// The annealing itself on any weights, temperature and state.
fn wilder(n: usize, sweeps: usize) {
	let m = wild::<f32>(n, |w| w.is_finite());
	let word: u64 = any();
	let beta: f32 = any();
	let mut r = Fix(word);
	let mut st = BinaryRepr::new_random(n, &mut r);
	simulated_annealing(&mut r, &mut st, &[beta], sweeps, &m);
	assert!(st.len() == n, "one value per variable");
	reach!("end");
	std::mem::forget((m, st));
}
/// The same draws give the same solution.
fn twice(n: usize) {
	let w = [small(15), small(15), small(15)];
	let m = model::<f32>(n, &w);
	let word: u64 = any();
	let mut s = [false; 3];
	let mut t = [false; 3];
	let mut r = Fix(word);
	let mut st = BinaryRepr::new_random(n, &mut r);
	simulated_annealing(&mut r, &mut st, &[0.5], 1, &m);
	for i in 0..n {
		s[i] = st.get(i);
	}
	let mut r = Fix(word);
	let mut su = BinaryRepr::new_random(n, &mut r);
	simulated_annealing(&mut r, &mut su, &[0.5], 1, &m);
	for i in 0..n {
		t[i] = su.get(i);
	}
	assert!(s == t, "the same draws give the same solution");
	reach!("end");
	std::mem::forget((m, st, su));
}

harnesses! {
	#[cfg_attr(kani, kani::stub(f64::exp, crate::sa::exp))]
	fn c14_one(4) { one::<f64>(&[2], 1, &[1.0], 60) }
	#[cfg_attr(kani, kani::stub(f64::exp, crate::sa::exp))]
	fn c14_one_hot(4) { one::<f64>(&[1], 1, &[0.5], 120) }
	#[cfg_attr(kani, kani::stub(f64::exp, crate::sa::exp))]
	fn c14_one_i32(4) { one::<i32>(&[4], 1, &[2], 60) }
	#[cfg_attr(kani, kani::stub(f64::exp, crate::sa::exp))]
	fn c14_one_steps_t(4) { one::<f64>(&[1, 3], 2, &[0.5, 1.5], 40) }
	#[cfg_attr(kani, kani::stub(f64::exp, crate::sa::exp))]
	fn c14_one_heating(4) { one::<f64>(&[3, 1], 1, &[1.5, 0.5], 40) }
	#[cfg_attr(kani, kani::stub(f64::exp, crate::sa::exp))]
	fn c14_extreme(4) { extreme(60) }
	#[cfg_attr(kani, kani::stub(f64::exp, crate::sa::exp))]
	fn c14_two(4) { two::<f64>(1, 0.5, 4) }
	#[cfg_attr(kani, kani::stub(f64::exp, crate::sa::exp))]
	fn c14_two_i32_t(4) { two::<i32>(2, 1, 15) }

	#[cfg_attr(kani, kani::stub(f64::exp, crate::sa::exp2))]
	#[cfg_attr(kani, kani::stub(f64::ln, crate::sa::ln2))]
	#[cfg_attr(kani, kani::stub(f64::powf, crate::sa::pow2))]
	fn c15_range_0(16) { range::<f64>(0, -6) }
	#[cfg_attr(kani, kani::stub(f64::exp, crate::sa::exp2))]
	#[cfg_attr(kani, kani::stub(f64::ln, crate::sa::ln2))]
	#[cfg_attr(kani, kani::stub(f64::powf, crate::sa::pow2))]
	fn c15_range_1(16) { range::<f64>(1, -6) }
	#[cfg_attr(kani, kani::stub(f64::exp, crate::sa::exp2))]
	#[cfg_attr(kani, kani::stub(f64::ln, crate::sa::ln2))]
	#[cfg_attr(kani, kani::stub(f64::powf, crate::sa::pow2))]
	fn c15_range_2(16) { range::<f64>(2, -6) }
	#[cfg_attr(kani, kani::stub(f64::exp, crate::sa::exp2))]
	#[cfg_attr(kani, kani::stub(f64::ln, crate::sa::ln2))]
	#[cfg_attr(kani, kani::stub(f64::powf, crate::sa::pow2))]
	fn c15_range_3(16) { range::<f64>(3, -6) }
	#[cfg_attr(kani, kani::stub(f64::exp, crate::sa::exp2))]
	#[cfg_attr(kani, kani::stub(f64::ln, crate::sa::ln2))]
	#[cfg_attr(kani, kani::stub(f64::powf, crate::sa::pow2))]
	fn c15_range_5(16) { range::<f64>(5, -6) }
	#[cfg_attr(kani, kani::stub(f64::exp, crate::sa::exp2))]
	#[cfg_attr(kani, kani::stub(f64::ln, crate::sa::ln2))]
	#[cfg_attr(kani, kani::stub(f64::powf, crate::sa::pow2))]
	fn c15_count_one(16) { counted::<f64>(3, 1, 15) }
	#[cfg_attr(kani, kani::stub(f64::exp, crate::sa::exp2))]
	#[cfg_attr(kani, kani::stub(f64::ln, crate::sa::ln2))]
	#[cfg_attr(kani, kani::stub(f64::powf, crate::sa::pow2))]
	fn c15_count_two(16) { counted::<f64>(2, 2, 7) }
	#[cfg_attr(kani, kani::stub(f64::exp, crate::sa::exp2))]
	#[cfg_attr(kani, kani::stub(f64::ln, crate::sa::ln2))]
	#[cfg_attr(kani, kani::stub(f64::powf, crate::sa::pow2))]
	fn c15_count_one_i32(16) { counted::<i32>(3, 1, 15) }
	#[cfg_attr(kani, kani::stub(f64::exp, crate::sa::exp2))]
	#[cfg_attr(kani, kani::stub(f64::ln, crate::sa::ln2))]
	#[cfg_attr(kani, kani::stub(f64::powf, crate::sa::pow2))]
	fn c15_count_none_i64(16) { counted::<i64>(2, 0, 1) }
	#[cfg_attr(kani, kani::stub(f64::exp, crate::sa::exp2))]
	#[cfg_attr(kani, kani::stub(f64::ln, crate::sa::ln2))]
	#[cfg_attr(kani, kani::stub(f64::powf, crate::sa::pow2))]
	fn c15_range_3_i32(16) { range::<i32>(3, 0) }
	fn c15_manual_0(16) { manual::<0>() }
	fn c15_manual_1(16) { manual::<1>() }
	fn c15_manual_3(16) { manual::<3>() }
	#[cfg_attr(kani, kani::stub(f64::exp, crate::sa::exp2))]
	#[cfg_attr(kani, kani::stub(f64::ln, crate::sa::ln2))]
	#[cfg_attr(kani, kani::stub(f64::powf, crate::sa::pow2))]
	fn c20_whole_0(16) { whole(0, 2, 1) }
	#[cfg_attr(kani, kani::stub(f64::exp, crate::sa::exp2))]
	#[cfg_attr(kani, kani::stub(f64::ln, crate::sa::ln2))]
	#[cfg_attr(kani, kani::stub(f64::powf, crate::sa::pow2))]
	fn c20_whole_1(16) { whole(1, 1, 1) }
	#[cfg_attr(kani, kani::stub(f64::exp, crate::sa::exp2))]
	#[cfg_attr(kani, kani::stub(f64::ln, crate::sa::ln2))]
	#[cfg_attr(kani, kani::stub(f64::powf, crate::sa::pow2))]
	fn c20_whole_2_t(16) { whole(2, 1, 1) }
	#[cfg_attr(kani, kani::stub(f64::exp, crate::sa::exp))]
	fn c20_any_0(16) { wilder(0, 1) }
	#[cfg_attr(kani, kani::stub(f64::exp, crate::sa::exp))]
	fn c20_any_1(16) { wilder(1, 1) }
	#[cfg_attr(kani, kani::stub(f64::exp, crate::sa::exp))]
	fn c20_any_1_sweeps(16) { wilder(1, 2) }
	#[cfg_attr(kani, kani::stub(f64::exp, crate::sa::exp))]
	fn c20_any_2(16) { wilder(2, 1) }
	#[cfg_attr(kani, kani::stub(f64::exp, crate::sa::exp))]
	fn c20_twice_1(16) { twice(1) }
	#[cfg_attr(kani, kani::stub(f64::exp, crate::sa::exp))]
	fn c20_twice_2_t(16) { twice(2) }
}
