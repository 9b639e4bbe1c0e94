From 753bd57d4d4c7ec31c47c41d9cbbf2de07f3db8b Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:01:42 +0000
Subject: [PATCH 01/16] fix: do not enumerate the product (0, 1) in models with
 less than two nodes

Prods yielded [0, 1] for sizes 0 and 1, so annealing a problem with at most one
variable panicked in get_weight().
---
 annealers/src/model.rs | 10 +++++++---
 1 file changed, 7 insertions(+), 3 deletions(-)

diff --git a/annealers/src/model.rs b/annealers/src/model.rs
index bad55a2..a5d6cda 100644
--- a/annealers/src/model.rs
+++ b/annealers/src/model.rs
@@ -313,9 +313,13 @@ impl<S: NodeSet> std::iter::Iterator for Prods<S> {
 			Some(ret)
 		} else if self.indices.len() == 1 {
 			self.indices = vec![0, 1];
-			let ret = S::from_vec(self.indices.clone()).unwrap();
-			self.indices[1] += 1;
-			Some(ret)
+			if self.indices[1] < self.size {
+				let ret = S::from_vec(self.indices.clone()).unwrap();
+				self.indices[1] += 1;
+				Some(ret)
+			} else {
+				None
+			}
 		} else {
 			self.indices[0] += 1;
 			self.indices[1] = self.indices[0] + 1;
-- 
2.43.0


From 0b22d15e90cccc5ca68370a854957f98a010ff17 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:01:42 +0000
Subject: [PATCH 02/16] fix: feed placeholders inside constraints and penalties

Expr::feed_dict() did not descend into Constraint and WithPenalty, so their
placeholders stayed unfilled and made the compiled model panic later.
---
 src/expr.rs | 8 ++++++++
 1 file changed, 8 insertions(+)

diff --git a/src/expr.rs b/src/expr.rs
index e025248..f67f5d7 100644
--- a/src/expr.rs
+++ b/src/expr.rs
@@ -78,6 +78,14 @@ where
 				Box::new((*a).feed_dict(dict)),
 				Box::new((*b).feed_dict(dict)),
 			),
+			Self::Constraint { label, expr } => Self::Constraint {
+				label,
+				expr: Box::new((*expr).feed_dict(dict)),
+			},
+			Self::WithPenalty { expr, penalty } => Self::WithPenalty {
+				expr: Box::new((*expr).feed_dict(dict)),
+				penalty: Box::new((*penalty).feed_dict(dict)),
+			},
 			o => o,
 		}
 	}
-- 
2.43.0


From 261cc40f3772416a141d2a022eb932c2e0437d32 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:01:42 +0000
Subject: [PATCH 03/16] fix: allow constraints and penalties inside of a
 constraint

Compiling a Constraint whose expression contains a Constraint or WithPenalty
panicked in map_label().
---
 src/expr.rs | 13 ++++++++-----
 1 file changed, 8 insertions(+), 5 deletions(-)

diff --git a/src/expr.rs b/src/expr.rs
index f67f5d7..0d6e303 100644
--- a/src/expr.rs
+++ b/src/expr.rs
@@ -183,11 +183,14 @@ where
 			Self::Number(n) => Expr::Number(n),
 			Self::Binary(lb) => Expr::Binary(fq(lb)),
 			Self::Spin(lb) => Expr::Spin(fq(lb)),
-			Self::Constraint { label: _, expr: _ }
-			| Self::WithPenalty {
-				expr: _,
-				penalty: _,
-			} => panic!("cannot map on Constraint | WithPenalty"),
+			Self::Constraint { label, expr } => Expr::Constraint {
+				label,
+				expr: Box::new(expr.map_label(fp, fq)),
+			},
+			Self::WithPenalty { expr, penalty } => Expr::WithPenalty {
+				expr: Box::new(expr.map_label(fp, fq)),
+				penalty: Box::new(penalty.map_label(fp, fq)),
+			},
 		}
 	}
 	pub(crate) fn to_model(self) -> Model<Tp, Tq, Tc, R> {
-- 
2.43.0


From f258b16dfbbd93b71c51d1ca4ee196edd9af7f80 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:03:49 +0000
Subject: [PATCH 04/16] fix: penalize the breaking of the constraint of a
 replaced product

---
 src/compiled.rs |  7 +++++++
 src/expr.rs     | 10 ++++++++++
 2 files changed, 17 insertions(+)

diff --git a/src/compiled.rs b/src/compiled.rs
index 262223b..b24fb71 100644
--- a/src/compiled.rs
+++ b/src/compiled.rs
@@ -202,17 +202,24 @@ where
 				let (replacing_exp, constraint) =
 					Self::generate_replace(&replaced_set, &mut builder, p);
 				let mut new_expanded = Expanded::new();
+				let mut strength = Vec::new();
 				for mut expanded in self
 					.expanded
 					.drain()
 					.map(|(set, exp)| Expanded::from(set, exp))
 				{
 					if expanded.is_superset(&replaced_set) {
+						strength.extend(expanded.values().map(|exp| exp.magnitude()));
 						expanded = expanded.remove_qubits(&replaced_set);
 						expanded *= replacing_exp.clone();
 					}
 					new_expanded += expanded;
 				}
+				if let Some(constraint) = &constraint {
+					// w = x * y must hold whenever the energy is minimized by w. Breaking it
+					// changes the energy at most by the sum of the replaced coefficients.
+					new_expanded += constraint.clone() * StaticExpr::Add(strength).simplify();
+				}
 				self.expanded = new_expanded;
 				if let Some(constraint) = constraint {
 					self.constraints
diff --git a/src/expr.rs b/src/expr.rs
index 0d6e303..9080dc0 100644
--- a/src/expr.rs
+++ b/src/expr.rs
@@ -631,6 +631,16 @@ where
 		}
 	}
 
+	/// Get an upper bound of the absolute value. (placeholders are not negative)
+	pub(crate) fn magnitude(&self) -> Self {
+		match self {
+			Self::Add(v) => Self::Add(v.iter().map(|item| item.magnitude()).collect()),
+			Self::Mul(v) => Self::Mul(v.iter().map(|item| item.magnitude()).collect()),
+			Self::Number(n) => Self::Number(n.abs()),
+			o => o.clone(),
+		}
+	}
+
 	pub(crate) fn feed_dict(self, dict: &HashMap<Tp, R>) -> Self {
 		match self {
 			Self::Placeholder(p) => {
-- 
2.43.0


From d8dce17ac21d2ea2409b7c45d564f61c13054af8 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:04:25 +0000
Subject: [PATCH 05/16] fix: keep the weights of constraints positive if the
 coefficients are integer

---
 src/solve.rs | 3 ++-
 1 file changed, 2 insertions(+), 1 deletion(-)

diff --git a/src/solve.rs b/src/solve.rs
index 992a20e..c46a02f 100644
--- a/src/solve.rs
+++ b/src/solve.rs
@@ -151,7 +151,8 @@ where
 			for _ in 0..self.generations {
 				let (c, model) = self.model.generate_qubo(&self.qubits, &mut |p| {
 					if let Some(cnt) = phdict.get(&p) {
-						R::from_i32(*cnt as i32) / R::from_i32(size as i32) * self.coeff_strength
+						// NOTE: dividing in R makes the weight zero if R is an integer
+						R::from_f64(self.coeff_strength.as_f64() * *cnt as f64 / size as f64)
 					} else {
 						panic!()
 					}
-- 
2.43.0


From eaf29c7cfefa9c94d5aba0d89b0898b6ba83cfe7 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:04:25 +0000
Subject: [PATCH 06/16] fix: return a feasible best sample even if its energy
 is not improved

---
 src/solve.rs | 13 ++++++++-----
 1 file changed, 8 insertions(+), 5 deletions(-)

diff --git a/src/solve.rs b/src/solve.rs
index c46a02f..109154c 100644
--- a/src/solve.rs
+++ b/src/solve.rs
@@ -186,18 +186,21 @@ where
 					.unwrap();
 				let energy = sol.energy.unwrap();
 				// println!("{}, {}, {}", min, old_energy, energy);
-				if old_energy <= energy {
-					continue;
-				}
-				old_energy = energy;
 				let ans: HashMap<&Qubit<Tq>, bool> = self
 					.qubits
 					.iter()
 					.enumerate()
 					.map(|(i, q)| (*q, sol[i]))
 					.collect();
+				let unsatisfied = self.model.get_unsatisfied_constraints(&ans);
+				// A feasible solution should not be skipped, because energies under
+				// different weights of the constraints are not comparable.
+				if old_energy <= energy && unsatisfied.iter().any(|c| c.label.is_some()) {
+					continue;
+				}
+				old_energy = energy;
 				let mut constraint_labels = Vec::new();
-				for c in self.model.get_unsatisfied_constraints(&ans) {
+				for c in unsatisfied {
 					if let Some(ph) = &c.placeholder {
 						if let Some(point) = phdict.get_mut(ph) {
 							*point += 1;
-- 
2.43.0


From d88a88d64d23ee3068e2940355b438829c26eb91 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:04:25 +0000
Subject: [PATCH 07/16] fix: keep UnstructuredEdgeIter ended after the last
 edge

---
 annealers/src/solver.rs | 6 +++---
 1 file changed, 3 insertions(+), 3 deletions(-)

diff --git a/annealers/src/solver.rs b/annealers/src/solver.rs
index 990e0d3..05d6ecc 100644
--- a/annealers/src/solver.rs
+++ b/annealers/src/solver.rs
@@ -184,11 +184,11 @@ impl Iterator for UnstructuredEdgeIter {
 	type Item = BTreeSet<usize>;
 	fn next(&mut self) -> Option<BTreeSet<usize>> {
 		if self.0 == self.1 {
-			self.1 += 1;
-			self.0 = 0;
-			while self.2.len() <= self.1 {
+			while self.2.len() <= self.1 + 1 {
 				self.2.push(self.3.next()?);
 			}
+			self.1 += 1;
+			self.0 = 0;
 			self.next()
 		} else {
 			let i = self.2[self.0];
-- 
2.43.0


From 0e1694e7c1e373c7925563dc3f288c2c444f385f Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:29:23 +0000
Subject: [PATCH 08/16] fix: never round the weight of a constraint down to
 zero

---
 src/solve.rs | 9 ++++++++-
 1 file changed, 8 insertions(+), 1 deletion(-)

diff --git a/src/solve.rs b/src/solve.rs
index 109154c..546c731 100644
--- a/src/solve.rs
+++ b/src/solve.rs
@@ -152,7 +152,14 @@ where
 				let (c, model) = self.model.generate_qubo(&self.qubits, &mut |p| {
 					if let Some(cnt) = phdict.get(&p) {
 						// NOTE: dividing in R makes the weight zero if R is an integer
-						R::from_f64(self.coeff_strength.as_f64() * *cnt as f64 / size as f64)
+						let weight =
+							R::from_f64(self.coeff_strength.as_f64() * *cnt as f64 / size as f64);
+						if weight == R::zero() && self.coeff_strength > R::zero() {
+							// a constraint without weight could never be satisfied on purpose
+							R::one()
+						} else {
+							weight
+						}
 					} else {
 						panic!()
 					}
-- 
2.43.0


From b1a12ad3c280276f130daa2bcf92a7429c2a1bc0 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 17:13:43 +0000
Subject: [PATCH 09/16] fix: nan_or of floating point numbers is not a number

---
 annealers/src/variable.rs | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/annealers/src/variable.rs b/annealers/src/variable.rs
index cfac226..2913a46 100644
--- a/annealers/src/variable.rs
+++ b/annealers/src/variable.rs
@@ -65,7 +65,7 @@ macro_rules! impl_nan_or {
 }
 
 macro_rules! impl_real_as_f64 {
-	($b:expr, $typ:ty, $pat:path) => {
+	($b:tt, $typ:ty, $pat:path) => {
 		/// Implementation of Real for $typ
 		impl Real for $typ {
 			const MAX: $typ = <$typ>::MAX;
-- 
2.43.0


From 9d52b969b447d2e02e270560f5c589da076e295e Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 17:52:27 +0000
Subject: [PATCH 10/16] hook: read the temperature schedule of the simulated
 annealer (cfg rustqubo_verif)

---
 classical_solver/src/sa.rs | 9 +++++++++
 1 file changed, 9 insertions(+)

diff --git a/classical_solver/src/sa.rs b/classical_solver/src/sa.rs
index 64f8d7b..335dfe4 100644
--- a/classical_solver/src/sa.rs
+++ b/classical_solver/src/sa.rs
@@ -1,3 +1,4 @@
+#![allow(unexpected_cfgs)] // cfg(rustqubo_verif), see the hook below
 use crate::algo::simulated_annealing;
 use crate::beta::BetaType;
 use crate::NoneError;
@@ -24,6 +25,14 @@ pub struct SimulatedAnnealer<'a, P: SingleModelView, R> {
 	_phantom: PhantomData<R>,
 }
 
+/// Verification hook: the temperature schedule in use.
+#[cfg(rustqubo_verif)]
+impl<'a, P: SingleModelView, R> SimulatedAnnealer<'a, P, R> {
+	pub fn beta_schedule(&self) -> &[<P::Node as Node>::RealType] {
+		&self.beta_schedule
+	}
+}
+
 impl<'a, P: SingleModelView> SimulatedAnnealerGenerator<'a, P> {
 	pub fn new() -> Self {
 		Self {
-- 
2.43.0


From 72c9a319ea286b881bbac61ea4fae2ead33597f8 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 17:54:04 +0000
Subject: [PATCH 11/16] fix: a temperature schedule of a single step is a
 number

---
 classical_solver/src/beta.rs | 3 ++-
 1 file changed, 2 insertions(+), 1 deletion(-)

diff --git a/classical_solver/src/beta.rs b/classical_solver/src/beta.rs
index 417dec0..b48fa77 100644
--- a/classical_solver/src/beta.rs
+++ b/classical_solver/src/beta.rs
@@ -78,7 +78,8 @@ pub(crate) fn generate_schedule<P: SingleModelView>(
 }
 
 fn generate_beta_schedule<R: Real>(beta_min: R, beta_max: R, count: usize) -> Vec<R> {
-	let r = f64::ln(beta_max.as_f64() / beta_min.as_f64()) / (count as f64 - 1.0);
+	// A single step has no ratio; it stays at beta_min.
+	let r = f64::ln(beta_max.as_f64() / beta_min.as_f64()) / (std::cmp::max(count, 2) as f64 - 1.0);
 	(0..count)
 		.map(|index| R::from_f64(beta_min.as_f64() * f64::exp(index as f64 * r)))
 		.collect()
-- 
2.43.0


From ceac8c52d4680ae04d991d3076537f01d71b48fb Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:23:31 +0000
Subject: [PATCH 12/16] fix: do not truncate temperatures of integer models to
 zero

---
 classical_solver/src/algo.rs |  6 +++---
 classical_solver/src/beta.rs | 21 +++++++++++----------
 classical_solver/src/sa.rs   |  4 ++--
 3 files changed, 16 insertions(+), 15 deletions(-)

diff --git a/classical_solver/src/algo.rs b/classical_solver/src/algo.rs
index 9e9f6ca..6f441c8 100644
--- a/classical_solver/src/algo.rs
+++ b/classical_solver/src/algo.rs
@@ -27,10 +27,10 @@ unsafe fn calculate_flip_cost<S: NodeSet, M: SingleNode>(
 	}
 }
 
-pub fn simulated_annealing<T: Rng, P: SingleModelView<Node = Binary<R>>, R: Real>(
+pub fn simulated_annealing<T: Rng, P: SingleModelView<Node = Binary<R>>, R: Real, B: Real>(
 	random: &mut T,
 	state: &mut BinaryRepr,
-	beta_schedule: &[<P::Node as Node>::RealType],
+	beta_schedule: &[B],
 	sweeps_per_round: usize,
 	model: &P,
 ) {
@@ -57,7 +57,7 @@ pub fn simulated_annealing<T: Rng, P: SingleModelView<Node = Binary<R>>, R: Real
 					continue;
 				}
 				if ed.as_f64() <= 0.0
-					|| f64::exp(-(ed * *beta).as_f64()) > random.gen_range(0.0, 1.0)
+					|| f64::exp(-(ed.as_f64() * beta.as_f64())) > random.gen_range(0.0, 1.0)
 				{
 					unsafe {
 						state.flip_unchecked(i);
diff --git a/classical_solver/src/beta.rs b/classical_solver/src/beta.rs
index b48fa77..437cc3d 100644
--- a/classical_solver/src/beta.rs
+++ b/classical_solver/src/beta.rs
@@ -23,7 +23,7 @@ macro_rules! real_typ {
 	};
 }
 
-fn generate_beta_range<P: SingleModelView>(model: &P) -> (real_typ!(P), real_typ!(P)) {
+fn generate_beta_range<P: SingleModelView>(model: &P) -> (f64, f64) {
 	macro_rules! nan_or_min {
 		() => {
 			<real_typ!(P)>::nan_or(<real_typ!(P)>::MIN)
@@ -49,11 +49,11 @@ fn generate_beta_range<P: SingleModelView>(model: &P) -> (real_typ!(P), real_typ
 		.fold(nan_or_min!(), |p, n: real_typ!(P)| n.max(p));
 	if eg_max.is_finite() && eg_min.is_finite() {
 		(
-			<real_typ!(P)>::from_f64(f64::ln(2.0) / (ndiff * eg_max).as_f64()),
-			<real_typ!(P)>::from_f64(f64::ln(100.0) / (ndiff * eg_min).as_f64()),
+			f64::ln(2.0) / (ndiff * eg_max).as_f64(),
+			f64::ln(100.0) / (ndiff * eg_min).as_f64(),
 		)
 	} else {
-		(<real_typ!(P)>::one(), <real_typ!(P)>::from_i32(10))
+		(1.0, 10.0)
 	}
 }
 
@@ -63,12 +63,13 @@ fn generate_beta_range<P: SingleModelView>(model: &P) -> (real_typ!(P), real_typ
 pub(crate) fn generate_schedule<P: SingleModelView>(
 	beta_type: &BetaType<real_typ!(P)>,
 	model: &P,
-) -> Vec<real_typ!(P)> {
+) -> Vec<f64> {
+	// NOTE: integer types cannot represent the most of temperatures
 	match beta_type {
-		BetaType::Schedule(v) => v.clone(),
+		BetaType::Schedule(v) => v.iter().map(|b| b.as_f64()).collect(),
 		BetaType::Count(count) | BetaType::CountRange(count, _, _) => {
 			let (min, max) = if let BetaType::CountRange(_, min, max) = beta_type {
-				(*min, *max)
+				(min.as_f64(), max.as_f64())
 			} else {
 				generate_beta_range(model)
 			};
@@ -77,10 +78,10 @@ pub(crate) fn generate_schedule<P: SingleModelView>(
 	}
 }
 
-fn generate_beta_schedule<R: Real>(beta_min: R, beta_max: R, count: usize) -> Vec<R> {
+fn generate_beta_schedule(beta_min: f64, beta_max: f64, count: usize) -> Vec<f64> {
 	// A single step has no ratio; it stays at beta_min.
-	let r = f64::ln(beta_max.as_f64() / beta_min.as_f64()) / (std::cmp::max(count, 2) as f64 - 1.0);
+	let r = f64::ln(beta_max / beta_min) / (std::cmp::max(count, 2) as f64 - 1.0);
 	(0..count)
-		.map(|index| R::from_f64(beta_min.as_f64() * f64::exp(index as f64 * r)))
+		.map(|index| beta_min * f64::exp(index as f64 * r))
 		.collect()
 }
diff --git a/classical_solver/src/sa.rs b/classical_solver/src/sa.rs
index 335dfe4..dc88c77 100644
--- a/classical_solver/src/sa.rs
+++ b/classical_solver/src/sa.rs
@@ -20,7 +20,7 @@ pub struct SimulatedAnnealerGenerator<'a, P: SingleModelView> {
 
 pub struct SimulatedAnnealer<'a, P: SingleModelView, R> {
 	sweeps_per_round: usize,
-	beta_schedule: Vec<<P::Node as Node>::RealType>,
+	beta_schedule: Vec<f64>,
 	model: &'a P,
 	_phantom: PhantomData<R>,
 }
@@ -28,7 +28,7 @@ pub struct SimulatedAnnealer<'a, P: SingleModelView, R> {
 /// Verification hook: the temperature schedule in use.
 #[cfg(rustqubo_verif)]
 impl<'a, P: SingleModelView, R> SimulatedAnnealer<'a, P, R> {
-	pub fn beta_schedule(&self) -> &[<P::Node as Node>::RealType] {
+	pub fn beta_schedule(&self) -> &[f64] {
 		&self.beta_schedule
 	}
 }
-- 
2.43.0


From d9f6026eeff5702abc94a8e5e04aac47922ac074 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:23:31 +0000
Subject: [PATCH 13/16] fix: temperatures of a model without weights are finite

---
 classical_solver/src/beta.rs | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/classical_solver/src/beta.rs b/classical_solver/src/beta.rs
index 437cc3d..06b8630 100644
--- a/classical_solver/src/beta.rs
+++ b/classical_solver/src/beta.rs
@@ -47,7 +47,7 @@ fn generate_beta_range<P: SingleModelView>(model: &P) -> (f64, f64) {
 				.sum()
 		})
 		.fold(nan_or_min!(), |p, n: real_typ!(P)| n.max(p));
-	if eg_max.is_finite() && eg_min.is_finite() {
+	if eg_max.is_finite() && eg_min.is_finite() && eg_min > <real_typ!(P)>::zero() {
 		(
 			f64::ln(2.0) / (ndiff * eg_max).as_f64(),
 			f64::ln(100.0) / (ndiff * eg_min).as_f64(),
-- 
2.43.0


From 56232696e111c6712badd47939cb43b88aa7dba6 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:20:42 +0000
Subject: [PATCH 14/16] fix: the error of a failing annealer does not depend on
 the timing of the threads

---
 src/solve.rs | 3 +++
 1 file changed, 3 insertions(+)

diff --git a/src/solve.rs b/src/solve.rs
index 546c731..11dfd11 100644
--- a/src/solve.rs
+++ b/src/solve.rs
@@ -177,6 +177,9 @@ where
 					let mut r = StdRng::from_rng(OsRng).unwrap();
 					solver.solve_with_rng(&mut r).map(|v| v.into_iter())
 				})
+				// NOTE: which error rayon keeps depends on the timing of the threads
+				.collect::<Vec<_>>()
+				.into_iter()
 				.collect::<Result<Vec<_>, _>>()?
 				.into_iter()
 				.flat_map(std::convert::identity)
-- 
2.43.0


From d2ec27bd38638030a69ef4d07d1400f531bd4f11 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:43:35 +0000
Subject: [PATCH 15/16] fix: a structured view keeps the value range of the
 solver behind it

---
 annealers/src/solver.rs | 5 +++++
 1 file changed, 5 insertions(+)

diff --git a/annealers/src/solver.rs b/annealers/src/solver.rs
index 05d6ecc..42d452e 100644
--- a/annealers/src/solver.rs
+++ b/annealers/src/solver.rs
@@ -103,6 +103,11 @@ impl<'a, G: UnstructuredSolverGenerator<'a, P>, P: ModelView> SolverGenerator<'a
 {
 	type SolverType = G::SolverType;
 	type ErrorType = G::ErrorType;
+
+	fn value_range(&self) -> (get_real_typ!(P), get_real_typ!(P)) {
+		self.0.value_range()
+	}
+
 	fn generate(&self, model: &'a P) -> Result<Self::SolverType, Self::ErrorType> {
 		self.0.generate(model)
 	}
-- 
2.43.0


From b53149142c43b39bee4e903ed5cc6e0d042e650d Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:45:43 +0000
Subject: [PATCH 16/16] fix: an unknown variable has no local field instead of
 a panic

---
 src/solution.rs | 3 ++-
 1 file changed, 2 insertions(+), 1 deletion(-)

diff --git a/src/solution.rs b/src/solution.rs
index 92c72e0..d66b456 100644
--- a/src/solution.rs
+++ b/src/solution.rs
@@ -28,7 +28,8 @@ impl<Tq: TqType, R: Real> SolutionView<Tq, R> {
 	}
 
 	pub fn local_field(&self, q: &Tq) -> Option<R> {
-		self.0.local_field.as_ref().map(|v| v[self.1[q]])
+		let index = *self.1.get(q)?;
+		self.0.local_field.as_ref().map(|v| v[index])
 	}
 
 	pub fn keys(&self) -> impl Iterator<Item = &Tq> {
-- 
2.43.0

