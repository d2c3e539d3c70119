From 338a8da12450a6cc7025d13a4ed0c48da651039e Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 11:54:08 +0000
Subject: [PATCH 01/51] fix: bounds-check the index before reading a lane in
 PackedField::get_checked

then_some evaluated get_unchecked eagerly, so get_checked(i) and get(i) with i >= WIDTH read
out of bounds (aborting under debug assertions) instead of returning IndexOutOfRange.
---
 crates/field/src/packed.rs | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/crates/field/src/packed.rs b/crates/field/src/packed.rs
index 0c57301..de1a79d 100644
--- a/crates/field/src/packed.rs
+++ b/crates/field/src/packed.rs
@@ -83,7 +83,7 @@ pub trait PackedField:
 	#[inline]
 	fn get_checked(&self, i: usize) -> Result<Self::Scalar, Error> {
 		(i < Self::WIDTH)
-			.then_some(unsafe { self.get_unchecked(i) })
+			.then(|| unsafe { self.get_unchecked(i) })
 			.ok_or(Error::IndexOutOfRange {
 				index: i,
 				max: Self::WIDTH,
-- 
2.43.0


From b3b4aed1303ae3b27d5517c7bcdff5197567f797 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 11:58:42 +0000
Subject: [PATCH 02/51] fix: index the right packed element for the remainder
 in copy_packed_from_scalars_slice

The remainder was written to packed[scalar offset] rather than packed[scalar offset / WIDTH], so
copying e.g. 130 scalars into a slice of 128x1b elements panicked or overwrote the wrong element.
---
 crates/field/src/packed.rs | 3 +--
 1 file changed, 1 insertion(+), 2 deletions(-)

diff --git a/crates/field/src/packed.rs b/crates/field/src/packed.rs
index de1a79d..39041c1 100644
--- a/crates/field/src/packed.rs
+++ b/crates/field/src/packed.rs
@@ -462,8 +462,7 @@ pub fn copy_packed_from_scalars_slice<P: PackedField>(src: &[P::Scalar], dst: &m
 			}
 
 			if !remainder.is_empty() {
-				let offset = (src.len() >> P::LOG_WIDTH) << P::LOG_WIDTH;
-				let packed = &mut packed[offset];
+				let packed = &mut packed[src.len() >> P::LOG_WIDTH];
 				for (i, scalar) in remainder.iter().enumerate() {
 					// Safety: `i` is guaranteed to be less than `P::WIDTH`
 					unsafe { packed.set_unchecked(i, *scalar) };
-- 
2.43.0


From f7bb198ffc590ad7e9f72f06558b9daa5ddb296d Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 12:02:21 +0000
Subject: [PATCH 03/51] fix: unzip of byte-sliced packed fields with more than
 one row of scalars

For blocks smaller than the column height the blocks of the two inputs were spread over the rows
without separating even and odd columns (and indexed past the last row); the result did not match
the documented order of PackedField::unzip.
---
 .../byte_sliced/packed_byte_sliced.rs         | 42 +++++++++++++------
 1 file changed, 29 insertions(+), 13 deletions(-)

diff --git a/crates/field/src/arch/portable/byte_sliced/packed_byte_sliced.rs b/crates/field/src/arch/portable/byte_sliced/packed_byte_sliced.rs
index fbe6f7d..3f1fc94 100644
--- a/crates/field/src/arch/portable/byte_sliced/packed_byte_sliced.rs
+++ b/crates/field/src/arch/portable/byte_sliced/packed_byte_sliced.rs
@@ -807,9 +807,27 @@ macro_rules! define_byte_sliced_3d_1b {
 					let mut result1 = Self::default();
 					let mut result2 = Self::default();
 
-					for i in 0..Self::HEIGHT_BYTES {
-						(result1.data[i], result2.data[i]) =
-							self.data[i].unzip(other.data[i], log_block_len);
+					if Self::HEIGHT_BYTES == 1 {
+						(result1.data[0], result2.data[0]) =
+							self.data[0].unzip(other.data[0], log_block_len);
+					} else {
+						// Consecutive bytes lie in adjacent rows: pair the rows up byte by byte, so
+						// that the lower (upper) halves of the unzipped rows correspond to the even
+						// (odd) columns.
+						let half = Self::HEIGHT_BYTES / 2;
+						let unzip_rows = |data: &[$packed_storage; Self::HEIGHT_BYTES], i: usize| {
+							let (even, odd) = data[2 * i].interleave(data[2 * i + 1], 3);
+							even.unzip(odd, log_block_len)
+						};
+						for i in 0..half {
+							let (self1, self2) = unzip_rows(&self.data, i);
+							let (other1, other2) = unzip_rows(&other.data, i);
+
+							(result1.data[i], result1.data[half + i]) =
+								self1.interleave(other1, <$packed_storage>::LOG_WIDTH - 1);
+							(result2.data[i], result2.data[half + i]) =
+								self2.interleave(other2, <$packed_storage>::LOG_WIDTH - 1);
+						}
 					}
 
 					(result1, result2)
@@ -952,20 +970,18 @@ fn unzip_byte_sliced<P: PackedField, const N: usize, const SCALAR_BYTES: usize>(
 
 	let log_height = checked_log_2(N);
 	if log_block_len < log_height {
+		// Two adjacent blocks of a column belong to different outputs, and the blocks of the even
+		// (odd) columns land in the lower (upper) half of the rows of their output.
 		let block_size = 1 << log_block_len;
 		let half = N / 2;
 		for block_offset in (0..half).step_by(block_size) {
-			let target_offset = block_offset * 2;
-
-			result1[block_offset..block_offset + block_size]
-				.copy_from_slice(&lhs[target_offset..target_offset + block_size]);
-			result1[half + target_offset..half + target_offset + block_size]
-				.copy_from_slice(&rhs[target_offset..target_offset + block_size]);
+			for i in block_offset..block_offset + block_size {
+				let even = block_offset + i;
+				let odd = even + block_size;
 
-			result2[block_offset..block_offset + block_size]
-				.copy_from_slice(&lhs[target_offset + block_size..target_offset + 2 * block_size]);
-			result2[half + target_offset..half + target_offset + block_size]
-				.copy_from_slice(&rhs[target_offset + block_size..target_offset + 2 * block_size]);
+				(result1[i], result1[half + i]) = lhs[even].unzip(rhs[even], 0);
+				(result2[i], result2[half + i]) = lhs[odd].unzip(rhs[odd], 0);
+			}
 		}
 	} else {
 		for i in 0..N {
-- 
2.43.0


From e7d2fae38555b8c4aeeda8ffdafe16693aa6731d Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 12:04:52 +0000
Subject: [PATCH 04/51] fix: size in bytes of byte-sliced packed 1-bit fields
 counted bits

---
 .../field/src/arch/portable/byte_sliced/packed_byte_sliced.rs   | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/crates/field/src/arch/portable/byte_sliced/packed_byte_sliced.rs b/crates/field/src/arch/portable/byte_sliced/packed_byte_sliced.rs
index 3f1fc94..8defc45 100644
--- a/crates/field/src/arch/portable/byte_sliced/packed_byte_sliced.rs
+++ b/crates/field/src/arch/portable/byte_sliced/packed_byte_sliced.rs
@@ -631,7 +631,7 @@ macro_rules! define_byte_sliced_3d_1b {
 
 		impl $name {
 			pub const BYTES: usize =
-				<$storage_tower_level as TowerLevel>::WIDTH * <$packed_storage>::WIDTH;
+				<$storage_tower_level as TowerLevel>::WIDTH * <$packed_storage>::WIDTH / 8;
 
 			pub const HEIGHT_BYTES: usize = <$storage_tower_level as TowerLevel>::WIDTH;
 			const LOG_HEIGHT: usize = checked_log_2(Self::HEIGHT_BYTES);
-- 
2.43.0


From 2fcff08254860619a43267cbc369b9dd524d5182 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 12:41:15 +0000
Subject: [PATCH 05/51] fix: keep the full length of flush inner oracles

A column used both as a flushed column and as a flush selector with a zero
suffix was converted to its nonzero prefix only, and the prover panicked.
---
 crates/core/src/constraint_system/prove.rs | 9 ++++++++-
 1 file changed, 8 insertions(+), 1 deletion(-)

diff --git a/crates/core/src/constraint_system/prove.rs b/crates/core/src/constraint_system/prove.rs
index a9c873b..dcbc279 100644
--- a/crates/core/src/constraint_system/prove.rs
+++ b/crates/core/src/constraint_system/prove.rs
@@ -726,7 +726,14 @@ where
 	let fast_inner_oracles =
 		convert_witnesses_to_fast_ext::<U, Tower>(oracles, witness_index, &inner_oracles_id)?;
 
-	for ((n_vars, witness_data), id) in fast_inner_oracles.into_iter().zip(inner_oracles_id) {
+	for ((n_vars, mut witness_data), id) in fast_inner_oracles.into_iter().zip(inner_oracles_id) {
+		// Only the nonzero prefix is converted (an inner oracle may also be a selector of some
+		// flush), the remaining scalars are zero.
+		let log_width = <PackedType<U, FFastExt<Tower>>>::LOG_WIDTH;
+		witness_data.resize(
+			1 << n_vars.saturating_sub(log_width),
+			PackedType::<U, FFastExt<Tower>>::zero(),
+		);
 		let fast_witness = MLEDirectAdapter::from(
 			MultilinearExtension::new(n_vars, witness_data)
 				.expect("witness_data created with correct n_vars"),
-- 
2.43.0


From 1674d4e0128ad8ad6a04c5e48152ca95d8ef49f1 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 12:41:15 +0000
Subject: [PATCH 06/51] fix: use an NTT domain of at least two points in the
 zerocheck univariate round

With one-row tables and linear constraints no round is skipped, the domain
size is 1 and the prover panicked.
---
 crates/core/src/protocols/sumcheck/prove/univariate.rs | 3 ++-
 1 file changed, 2 insertions(+), 1 deletion(-)

diff --git a/crates/core/src/protocols/sumcheck/prove/univariate.rs b/crates/core/src/protocols/sumcheck/prove/univariate.rs
index 656fc59..3cdee8d 100644
--- a/crates/core/src/protocols/sumcheck/prove/univariate.rs
+++ b/crates/core/src/protocols/sumcheck/prove/univariate.rs
@@ -275,7 +275,8 @@ where
 	let log_extension_degree_base_domain = <FBase as ExtensionField<FDomain>>::LOG_DEGREE;
 
 	// Check that domain field contains the required NTT cosets.
-	let min_domain_bits = log2_ceil_usize(max_domain_size);
+	// The NTT domain has at least two points, also when no round can be skipped.
+	let min_domain_bits = log2_ceil_usize(max_domain_size).max(1);
 	if min_domain_bits > FDomain::N_BITS {
 		bail!(MathError::DomainSizeTooLarge);
 	}
-- 
2.43.0


From a2972d9d4989a554766d96ac8e5fec6c7e74f110 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 12:42:34 +0000
Subject: [PATCH 07/51] fix: tower basis multilinear narrower than the packing
 width

---
 crates/core/src/transparent/tower_basis.rs | 6 +++---
 1 file changed, 3 insertions(+), 3 deletions(-)

diff --git a/crates/core/src/transparent/tower_basis.rs b/crates/core/src/transparent/tower_basis.rs
index 8228fc3..e7dc73b 100644
--- a/crates/core/src/transparent/tower_basis.rs
+++ b/crates/core/src/transparent/tower_basis.rs
@@ -54,11 +54,11 @@ impl<F: TowerField> TowerBasis<F> {
 	pub fn multilinear_extension<P: PackedField<Scalar = F>>(
 		&self,
 	) -> Result<MultilinearExtension<P>, Error> {
-		let n_values = (1 << self.k) / P::WIDTH;
+		let n_values = (1usize << self.k).div_ceil(P::WIDTH);
 		let values = (0..n_values)
 			.map(|i| {
 				let mut packed_value = P::default();
-				for j in 0..P::WIDTH {
+				for j in 0..P::WIDTH.min(1 << self.k) {
 					let basis_idx = i * P::WIDTH + j;
 					let value = TowerField::basis(self.iota, basis_idx)?;
 					packed_value.set(j, value);
@@ -67,7 +67,7 @@ impl<F: TowerField> TowerBasis<F> {
 			})
 			.collect::<Result<Vec<_>, Error>>()?;
 
-		Ok(MultilinearExtension::from_values(values)?)
+		Ok(MultilinearExtension::new(self.k, values)?)
 	}
 }
 
-- 
2.43.0


From 7b78faf40cb0b1e8e5d65f669b9ce0b7519972d3 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 12:44:01 +0000
Subject: [PATCH 08/51] fix: index of the last-variables projection when
 instantiating symbolic oracles

---
 crates/core/src/oracle/symbolic.rs | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/crates/core/src/oracle/symbolic.rs b/crates/core/src/oracle/symbolic.rs
index 04993cb..56ffd99 100644
--- a/crates/core/src/oracle/symbolic.rs
+++ b/crates/core/src/oracle/symbolic.rs
@@ -269,7 +269,7 @@ fn instantiate_oracle_variant<F: TowerField>(
 		} => {
 			let start_index = match variant {
 				ProjectionVariant::Offset(offset) => *offset,
-				ProjectionVariant::Last => n_vars - values.len(),
+				ProjectionVariant::Last => mos.n_vars(*id) - values.len(),
 			};
 			let projected = Projected::new(mos, *id, values.clone(), start_index)?;
 			Sized::Projected(projected)
-- 
2.43.0


From 9d8f2d84adb2c782f1483468cdb1efc8009e4edb Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 12:45:59 +0000
Subject: [PATCH 09/51] fix: memoize the queries of every prefix an evalcheck
 point can be split by

---
 crates/core/src/protocols/evalcheck/prove.rs | 15 +++++++++++++--
 1 file changed, 13 insertions(+), 2 deletions(-)

diff --git a/crates/core/src/protocols/evalcheck/prove.rs b/crates/core/src/protocols/evalcheck/prove.rs
index e1edb82..c7d583b 100644
--- a/crates/core/src/protocols/evalcheck/prove.rs
+++ b/crates/core/src/protocols/evalcheck/prove.rs
@@ -207,11 +207,12 @@ where
 
 		let mut prefixes = HashSet::new();
 
+		let all_eval_points = eval_points.clone();
+
 		let mut to_remove = Vec::new();
 		for suffix in &suffixes {
 			for eval_point in &eval_points {
-				if let Some(prefix) = eval_point.try_get_prefix(suffix) {
-					prefixes.insert(prefix);
+				if eval_point.try_get_prefix(suffix).is_some() {
 					to_remove.push(eval_point.clone());
 				}
 			}
@@ -237,6 +238,16 @@ where
 			prefixes.insert(prefix);
 		}
 
+		// `make_new_eval_claim` splits an evaluation point by any suffix that matches, including
+		// the ones added above.
+		for suffix in &suffixes {
+			for eval_point in &all_eval_points {
+				if let Some(prefix) = eval_point.try_get_prefix(suffix) {
+					prefixes.insert(prefix);
+				}
+			}
+		}
+
 		let eval_points = chain!(&short, &suffixes, &prefixes)
 			.map(|p| p.as_ref())
 			.collect::<Vec<_>>();
-- 
2.43.0


From f20cb95454dd8e3346349a67a62b598594b7a33f Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 12:52:43 +0000
Subject: [PATCH 10/51] fix: do not overwrite or mis-cache shared steps when
 compiling arithmetic circuits

An odd power used twice was cached as its square, and accumulating
`a + b * c` into the slot of `a` changed `a` for its other users.
---
 crates/fast_compute/src/arith_circuit.rs | 55 ++++++++++++++++++------
 1 file changed, 43 insertions(+), 12 deletions(-)

diff --git a/crates/fast_compute/src/arith_circuit.rs b/crates/fast_compute/src/arith_circuit.rs
index a66f74f..f6f67ba 100644
--- a/crates/fast_compute/src/arith_circuit.rs
+++ b/crates/fast_compute/src/arith_circuit.rs
@@ -52,9 +52,26 @@ fn convert_circuit_steps<F: Field>(
 		}
 	}
 
+	/// Count how many times every step is used as an argument of another one.
+	fn count_uses<F: Field>(steps: &[ArithCircuitStep<F>]) -> Vec<usize> {
+		let mut uses = vec![0; steps.len()];
+		for step in steps {
+			match step {
+				ArithCircuitStep::Add(left, right) | ArithCircuitStep::Mul(left, right) => {
+					uses[*left] += 1;
+					uses[*right] += 1;
+				}
+				ArithCircuitStep::Pow(base, _) => uses[*base] += 1,
+				ArithCircuitStep::Const(_) | ArithCircuitStep::Var(_) => {}
+			}
+		}
+		uses
+	}
+
 	fn convert_step<F: Field>(
 		original_step: usize,
 		original_steps: &[ArithCircuitStep<F>],
+		uses: &[usize],
 		result: &mut Vec<CircuitStep<F>>,
 		node_to_step: &mut StepsMapping,
 	) -> CircuitStepArgument<F> {
@@ -66,15 +83,27 @@ fn convert_circuit_steps<F: Field>(
 			ArithCircuitStep::Const(constant) => CircuitStepArgument::Const(*constant),
 			ArithCircuitStep::Var(var) => CircuitStepArgument::Expr(CircuitNode::Var(*var)),
 			ArithCircuitStep::Add(left, right) => {
-				let left = convert_step(*left, original_steps, result, node_to_step);
+				// The slot of the left argument may be updated in place only when nothing but
+				// this sum reads its value.
+				let own_uses = match &original_steps[*right] {
+					ArithCircuitStep::Mul(mleft, mright) => {
+						1 + usize::from(mleft == left) + usize::from(mright == left)
+					}
+					_ => 1,
+				};
+				let can_accumulate = uses[*left] == own_uses
+					&& !matches!(original_steps[*left], ArithCircuitStep::Pow(_, 1));
+				let left = convert_step(*left, original_steps, uses, result, node_to_step);
 
 				if let CircuitStepArgument::Expr(CircuitNode::Slot(left)) = left {
-					if let ArithCircuitStep::Mul(mleft, mright) = &original_steps[*right] {
+					if let (true, ArithCircuitStep::Mul(mleft, mright)) =
+						(can_accumulate, &original_steps[*right])
+					{
 						// Only handling e1 + (e2 * e3), not (e1 * e2) + e3, as latter was not
 						// observed in practice (the former can be enforced by rewriting
 						// expression)
-						let mleft = convert_step(*mleft, original_steps, result, node_to_step);
-						let mright = convert_step(*mright, original_steps, result, node_to_step);
+						let mleft = convert_step(*mleft, original_steps, uses, result, node_to_step);
+						let mright = convert_step(*mright, original_steps, uses, result, node_to_step);
 
 						// Since we'we changed the value of `left` to a new value, we need to clear
 						// the cache for it
@@ -86,29 +115,26 @@ fn convert_circuit_steps<F: Field>(
 					}
 				}
 
-				let right = convert_step(*right, original_steps, result, node_to_step);
+				let right = convert_step(*right, original_steps, uses, result, node_to_step);
 
 				node_to_step.register(original_step, result.len());
 				result.push(CircuitStep::Add(left, right));
 				CircuitStepArgument::Expr(CircuitNode::Slot(result.len() - 1))
 			}
 			ArithCircuitStep::Mul(left, right) => {
-				let left = convert_step(*left, original_steps, result, node_to_step);
-				let right = convert_step(*right, original_steps, result, node_to_step);
+				let left = convert_step(*left, original_steps, uses, result, node_to_step);
+				let right = convert_step(*right, original_steps, uses, result, node_to_step);
 
 				node_to_step.register(original_step, result.len());
 				result.push(CircuitStep::Mul(left, right));
 				CircuitStepArgument::Expr(CircuitNode::Slot(result.len() - 1))
 			}
 			ArithCircuitStep::Pow(base, exp) => {
-				let mut acc = convert_step(*base, original_steps, result, node_to_step);
+				let mut acc = convert_step(*base, original_steps, uses, result, node_to_step);
 				let base_expr = acc;
 				let highest_bit = exp.ilog2();
 
 				for i in (0..highest_bit).rev() {
-					if i == 0 {
-						node_to_step.register(original_step, result.len());
-					}
 					result.push(CircuitStep::Square(acc));
 					acc = CircuitStepArgument::Expr(CircuitNode::Slot(result.len() - 1));
 
@@ -117,6 +143,9 @@ fn convert_circuit_steps<F: Field>(
 						acc = CircuitStepArgument::Expr(CircuitNode::Slot(result.len() - 1));
 					}
 				}
+				if highest_bit > 0 {
+					node_to_step.register(original_step, result.len() - 1);
+				}
 
 				acc
 			}
@@ -125,7 +154,9 @@ fn convert_circuit_steps<F: Field>(
 
 	let mut steps = Vec::new();
 	let mut steps_mapping = StepsMapping::new(expr.steps().len());
-	let ret = convert_step(expr.steps().len() - 1, expr.steps(), &mut steps, &mut steps_mapping);
+	let uses = count_uses(expr.steps());
+	let ret =
+		convert_step(expr.steps().len() - 1, expr.steps(), &uses, &mut steps, &mut steps_mapping);
 	(steps, ret)
 }
 
-- 
2.43.0


From 5413a26aa3525115870dd388ae53c413b1268a49 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 12:55:23 +0000
Subject: [PATCH 11/51] fix: evaluate r(0) directly in eq-ind sumcheck rounds
 whose challenge is 1

Projecting a composite column to a boolean point with a one coordinate left
the prover with no way to recover r(0), and the proof was rejected.
---
 .../src/protocols/sumcheck/prove/eq_ind.rs    | 32 +++++++++++++------
 1 file changed, 22 insertions(+), 10 deletions(-)

diff --git a/crates/core/src/protocols/sumcheck/prove/eq_ind.rs b/crates/core/src/protocols/sumcheck/prove/eq_ind.rs
index 0f6f363..1b26a47 100644
--- a/crates/core/src/protocols/sumcheck/prove/eq_ind.rs
+++ b/crates/core/src/protocols/sumcheck/prove/eq_ind.rs
@@ -561,6 +561,7 @@ where
 					n_rounds_remaining,
 					composition,
 					composition_at_infinity,
+					alpha,
 					have_first_round_eval_1s,
 					eq_ind_challenges,
 					eq_ind_partial_evals,
@@ -650,6 +651,7 @@ where
 	n_rounds_remaining: usize,
 	composition: &'a Composition,
 	composition_at_infinity: ArithCircuitPoly<P::Scalar>,
+	alpha: P::Scalar,
 	have_first_round_eval_1s: bool,
 	eq_ind_challenges: &'a [P::Scalar],
 	eq_ind_partial_evals: &'a [P],
@@ -662,8 +664,15 @@ where
 	Composition: CompositionPoly<P>,
 {
 	fn eval_point_indices(&self) -> Range<usize> {
-		// Do not evaluate r(1) in first round when its value is known
-		let start_index = if self.have_first_round_eval_1s { 2 } else { 1 };
+		let start_index = if self.alpha == P::Scalar::ONE {
+			// r(0) cannot be recovered from the sum when its coefficient 1 − α is zero
+			0
+		} else if self.have_first_round_eval_1s {
+			// Do not evaluate r(1) in first round when its value is known
+			2
+		} else {
+			1
+		};
 		start_index..self.composition.degree() + 1
 	}
 
@@ -755,15 +764,18 @@ where
 		last_round_sum: F,
 		mut round_evals: Vec<F>,
 	) -> Result<Vec<F>, PolynomialError> {
-		if let Some(first_round_eval_1) = self.first_round_eval_1 {
-			round_evals.insert(0, first_round_eval_1);
-		}
+		// Evaluations at all points, including 0, are available when α = 1
+		if self.alpha != F::ONE {
+			if let Some(first_round_eval_1) = self.first_round_eval_1 {
+				round_evals.insert(0, first_round_eval_1);
+			}
 
-		let one_evaluation = round_evals[0];
-		let zero_evaluation_numerator = last_round_sum - one_evaluation * self.alpha;
-		let zero_evaluation_denominator_inv = (F::ONE - self.alpha).invert_or_zero();
-		let zero_evaluation = zero_evaluation_numerator * zero_evaluation_denominator_inv;
-		round_evals.insert(0, zero_evaluation);
+			let one_evaluation = round_evals[0];
+			let zero_evaluation_numerator = last_round_sum - one_evaluation * self.alpha;
+			let zero_evaluation_denominator_inv = (F::ONE - self.alpha).invert_or_zero();
+			let zero_evaluation = zero_evaluation_numerator * zero_evaluation_denominator_inv;
+			round_evals.insert(0, zero_evaluation);
+		}
 
 		if round_evals.len() > 3 {
 			// SumcheckRoundCalculator orders interpolation points as 0, 1, "infinity", then
-- 
2.43.0


From 15ec4492d5e03e0e3adcd5192886092904e41a8c Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 13:08:19 +0000
Subject: [PATCH 12/51] fix: suffixes shared through projected oracles in the
 evalcheck prover

A shifted column over a projected one made the prover slice past the end of
the evaluation point.
---
 crates/core/src/protocols/evalcheck/prove.rs | 15 +++++++++------
 1 file changed, 9 insertions(+), 6 deletions(-)

diff --git a/crates/core/src/protocols/evalcheck/prove.rs b/crates/core/src/protocols/evalcheck/prove.rs
index c7d583b..f1cf138 100644
--- a/crates/core/src/protocols/evalcheck/prove.rs
+++ b/crates/core/src/protocols/evalcheck/prove.rs
@@ -747,12 +747,15 @@ where
 
 		match &multilinear.variant {
 			MultilinearPolyVariant::Projected(projected) => {
-				let new_eval_point_len = multilinear.n_vars + projected.values().len();
-
-				let range = new_eval_point_len - projected.start_index().max(suffix.len())
-					..new_eval_point_len;
-
-				self.collect_suffixes(projected.id(), suffix.slice(range));
+				// Only the variables after the projected ones form a suffix of the inner point.
+				let new_suffix_len = suffix
+					.len()
+					.min(multilinear.n_vars - projected.start_index());
+
+				self.collect_suffixes(
+					projected.id(),
+					suffix.slice(suffix.len() - new_suffix_len..suffix.len()),
+				);
 			}
 			MultilinearPolyVariant::Shifted(shifted) => {
 				let suffix_len = multilinear.n_vars - shifted.block_size();
-- 
2.43.0


From 29cd4d55282402cb928e962e2b5acc6a138c7e59 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 13:14:23 +0000
Subject: [PATCH 13/51] fix: check the balance of channels without flushes in
 the verifier

Only channels with a flush on a non-empty table were checked, so unbalanced
boundaries on any other channel were accepted.
---
 crates/core/src/constraint_system/verify.rs | 16 +++++++++++++---
 1 file changed, 13 insertions(+), 3 deletions(-)

diff --git a/crates/core/src/constraint_system/verify.rs b/crates/core/src/constraint_system/verify.rs
index 4217533..2c626aa 100644
--- a/crates/core/src/constraint_system/verify.rs
+++ b/crates/core/src/constraint_system/verify.rs
@@ -316,13 +316,23 @@ fn verify_channels_balance<F: TowerField>(
 		return Err(VerificationError::IncorrectNumberOfFlushProducts.into());
 	}
 
+	let channel_count = permutation_challenges.len();
+	if let Some(boundary) = boundaries
+		.iter()
+		.find(|boundary| boundary.channel_id >= channel_count)
+	{
+		return Err(Error::ChannelIdOutOfRange {
+			max: channel_count.saturating_sub(1),
+			got: boundary.channel_id,
+		});
+	}
+
 	let mut flush_iter = flushes
 		.iter()
 		.zip(flush_products.iter().copied())
 		.peekable();
-	while let Some((flush, _)) = flush_iter.peek() {
-		let channel_id = flush.channel_id;
-
+	// Channels without any flush still have to be balanced by the boundaries.
+	for channel_id in 0..channel_count {
 		let boundary_products =
 			boundaries
 				.iter()
-- 
2.43.0


From f97849106f0df0366614cd23b9d7e31e1787b681 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 13:16:14 +0000
Subject: [PATCH 14/51] fix: bind exponentiation results to the committed
 columns

The claimed evaluations of the exponentiation results were never reduced to
claims on the committed result columns, so any result column was accepted.
---
 crates/core/src/constraint_system/exp.rs    | 18 +++++++++++++++++-
 crates/core/src/constraint_system/prove.rs  |  8 +++++++-
 crates/core/src/constraint_system/verify.rs |  8 +++++++-
 3 files changed, 31 insertions(+), 3 deletions(-)

diff --git a/crates/core/src/constraint_system/exp.rs b/crates/core/src/constraint_system/exp.rs
index b63dc73..bf8ffd5 100644
--- a/crates/core/src/constraint_system/exp.rs
+++ b/crates/core/src/constraint_system/exp.rs
@@ -14,6 +14,7 @@ use binius_macros::{DeserializeBytes, SerializeBytes};
 use binius_math::{MultilinearExtension, MultilinearPoly};
 use binius_maybe_rayon::prelude::*;
 use binius_utils::bail;
+use itertools::izip;
 use tracing::instrument;
 
 use super::{
@@ -148,10 +149,23 @@ where
 		.map_err(Error::from)
 }
 
+/// Constructs the evaluation claims of an exponentiation argument, on the exponent bits, the dynamic
+/// bases and the results.
+///
+/// The claimed `evals` of the results at `eval_point` are the ones passed to [`make_claims`].
 pub fn make_eval_claims<F: TowerField>(
 	exponents: &[Exp<F>],
+	oracles: &MultilinearOracleSet<F>,
+	eval_point: &[F],
+	evals: &[F],
 	base_exp_output: BaseExpReductionOutput<F>,
 ) -> Result<Vec<EvalcheckMultilinearClaim<F>>, Error> {
+	let result_claims = izip!(exponents, evals).map(|(exp, &eval)| EvalcheckMultilinearClaim {
+		id: exp.exp_result_id,
+		eval_point: eval_point[..exp.n_vars(oracles)].to_vec().into(),
+		eval,
+	});
+
 	let dynamic_base_ids = exponents
 		.iter()
 		.map(|exp| match exp.base {
@@ -165,7 +179,9 @@ pub fn make_eval_claims<F: TowerField>(
 		.map(|exp| exp.bits_ids.clone())
 		.collect::<Vec<_>>();
 
-	gkr_exp::make_eval_claims(metas, base_exp_output, dynamic_base_ids).map_err(Error::from)
+	let mut eval_claims = gkr_exp::make_eval_claims(metas, base_exp_output, dynamic_base_ids)?;
+	eval_claims.extend(result_claims);
+	Ok(eval_claims)
 }
 
 #[instrument(skip_all, name = "exp::repack_witness")]
diff --git a/crates/core/src/constraint_system/prove.rs b/crates/core/src/constraint_system/prove.rs
index dcbc279..dddcf7a 100644
--- a/crates/core/src/constraint_system/prove.rs
+++ b/crates/core/src/constraint_system/prove.rs
@@ -269,7 +269,13 @@ where
 	)?
 	.isomorphic();
 
-	let exp_eval_claims = exp::make_eval_claims(&exponents, base_exp_output)?;
+	let exp_eval_claims = exp::make_eval_claims(
+		&exponents,
+		&oracles,
+		&exp_challenge,
+		&exp_evals,
+		base_exp_output,
+	)?;
 	emit_max_rss();
 	drop(exp_span);
 
diff --git a/crates/core/src/constraint_system/verify.rs b/crates/core/src/constraint_system/verify.rs
index 2c626aa..c447537 100644
--- a/crates/core/src/constraint_system/verify.rs
+++ b/crates/core/src/constraint_system/verify.rs
@@ -146,7 +146,13 @@ where
 	let base_exp_output =
 		gkr_exp::batch_verify(EvaluationOrder::HighToLow, &exp_claims, &mut transcript)?;
 
-	let exp_eval_claims = exp::make_eval_claims(&exponents, base_exp_output)?;
+	let exp_eval_claims = exp::make_eval_claims(
+		&exponents,
+		&oracles,
+		&exp_challenge,
+		&exp_evals,
+		base_exp_output,
+	)?;
 
 	// Grand product arguments
 	// Grand products for non-zero checks
-- 
2.43.0


From 9e8e85ca0ffb6b2a7a24665646d889898f379c0a Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 13:32:52 +0000
Subject: [PATCH 15/51] fix: validate every value of zero-padded columns

Only the first 2^n_pad_vars values were compared with the padded column.
---
 crates/core/src/constraint_system/validate.rs | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/crates/core/src/constraint_system/validate.rs b/crates/core/src/constraint_system/validate.rs
index b1644cf..75fa1d7 100644
--- a/crates/core/src/constraint_system/validate.rs
+++ b/crates/core/src/constraint_system/validate.rs
@@ -259,7 +259,7 @@ where
 			let start_index = padded.start_index();
 			let nonzero_index = padded.nonzero_index();
 			let padded_poly = unpadded_poly.zero_pad(n_pad_vars, start_index, nonzero_index)?;
-			for i in 0..1 << n_pad_vars {
+			for i in 0..1 << n_vars {
 				check_eval(
 					oracle_label,
 					i,
-- 
2.43.0


From 846b5815148dbd288b55eb2ba0d7a2989198bf17 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 13:32:52 +0000
Subject: [PATCH 16/51] fix: report channel ids of systems without channels as
 out of range

Validating a boundary on channel 0 of a system with no channels panicked.
---
 crates/core/src/constraint_system/channel.rs | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/crates/core/src/constraint_system/channel.rs b/crates/core/src/constraint_system/channel.rs
index 5c9a455..6031d02 100644
--- a/crates/core/src/constraint_system/channel.rs
+++ b/crates/core/src/constraint_system/channel.rs
@@ -112,7 +112,7 @@ where
 			direction,
 			multiplicity,
 		} = boundary;
-		if channel_id > max_channel_id {
+		if channel_id >= channel_count {
 			return Err(Error::ChannelIdOutOfRange {
 				max: max_channel_id,
 				got: channel_id,
@@ -132,7 +132,7 @@ where
 			log_values_per_row,
 		} = flush;
 
-		if channel_id > max_channel_id {
+		if channel_id >= channel_count {
 			return Err(Error::ChannelIdOutOfRange {
 				max: max_channel_id,
 				got: channel_id,
-- 
2.43.0


From a3078683b84b364b397b05a078bd1bd6882b4414 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 13:33:59 +0000
Subject: [PATCH 17/51] fix: zero-pad multilinears narrower than the packing
 width

Only the first 2^n_vars scalars of every packed element were written, so values
beyond them were lost when the unpadded multilinear had fewer than WIDTH scalars.
---
 crates/math/src/fold.rs | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/crates/math/src/fold.rs b/crates/math/src/fold.rs
index 83ac592..6e7c098 100644
--- a/crates/math/src/fold.rs
+++ b/crates/math/src/fold.rs
@@ -57,7 +57,7 @@ where
 	for (outer_index, packed_result_eval) in out.iter_mut().enumerate() {
 		// Index of the Scalar at the start of the current Packed element in `out`.
 		let outer_word_start = outer_index << PE::LOG_WIDTH;
-		for inner_index in 0..min(PE::WIDTH, 1 << log_evals_size) {
+		for inner_index in 0..min(PE::WIDTH, 1 << log_new_vals) {
 			// Index of the current Scalar in `out`.
 			let outer_scalar_index = outer_word_start + inner_index;
 			// Column index, within the reshaped `evals`, where we start the dot-product with the
-- 
2.43.0


From 549d92e26b5be4e5f0e84d44f9c0ac6005d904af Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 13:37:40 +0000
Subject: [PATCH 18/51] fix: reject duplicate claim hints that are out of range

The verifier indexed its claims with a number taken from the proof and panicked.
---
 crates/core/src/protocols/evalcheck/verify.rs | 12 +++++-------
 1 file changed, 5 insertions(+), 7 deletions(-)

diff --git a/crates/core/src/protocols/evalcheck/verify.rs b/crates/core/src/protocols/evalcheck/verify.rs
index 93d8cb9..8fbd383 100644
--- a/crates/core/src/protocols/evalcheck/verify.rs
+++ b/crates/core/src/protocols/evalcheck/verify.rs
@@ -327,14 +327,12 @@ impl<'a, F: TowerField> EvalcheckVerifier<'a, F> {
 		let subproof = deserialize_evalcheck_proof(&mut transcript.message())?;
 		match subproof {
 			EvalcheckHint::DuplicateClaim(index) => {
-				let index = index as usize;
-				if self.round_claims[index].id != oracle_id
-					|| self.round_claims[index].eval_point != eval_point
-				{
-					return Err(VerificationError::DuplicateClaimMismatch.into());
+				match self.round_claims.get(index as usize) {
+					Some(claim) if claim.id == oracle_id && claim.eval_point == eval_point => {
+						Ok(claim.eval)
+					}
+					_ => Err(VerificationError::DuplicateClaimMismatch.into()),
 				}
-
-				Ok(self.round_claims[index].eval)
 			}
 			EvalcheckHint::NewClaim => {
 				let eval = transcript.message().read_scalar()?;
-- 
2.43.0


From 6d7c979b5a2dbbe69e2446926f68a295ef7667df Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 13:42:31 +0000
Subject: [PATCH 19/51] fix: reject tables larger than the domain of a
 structured column

The number of padding zeros underflowed when a proof claimed such a table size.
---
 crates/core/src/protocols/evalcheck/verify.rs | 5 ++++-
 1 file changed, 4 insertions(+), 1 deletion(-)

diff --git a/crates/core/src/protocols/evalcheck/verify.rs b/crates/core/src/protocols/evalcheck/verify.rs
index 8fbd383..e6f937e 100644
--- a/crates/core/src/protocols/evalcheck/verify.rs
+++ b/crates/core/src/protocols/evalcheck/verify.rs
@@ -165,7 +165,10 @@ impl<'a, F: TowerField> EvalcheckVerifier<'a, F> {
 				// Here we need to extend the eval_point to the input domain of the arith circuit
 				// by assigning zeroes to the variables.
 				let eval_point: &[F] = &eval_point;
-				let n_pad_zeros = inner.n_vars() - eval_point.len();
+				// A table size claimed by the prover may exceed the domain of the circuit.
+				let Some(n_pad_zeros) = inner.n_vars().checked_sub(eval_point.len()) else {
+					return Err(VerificationError::IncorrectEvaluation(multilinear_label).into());
+				};
 				let query = eval_point
 					.iter()
 					.copied()
-- 
2.43.0


From ec7f939474715db5ae4994120fbbe81ae05c115b Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 14:16:05 +0000
Subject: [PATCH 20/51] fix: rows of a column subrange keep the offset when
 iterated or mapped

RowsBatchRef::iter and RowsBatchRef::map returned the whole underlying rows, so a composition
evaluated over a column subrange through them read the wrong columns.
---
 crates/math/src/rows_batch.rs | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/crates/math/src/rows_batch.rs b/crates/math/src/rows_batch.rs
index dbc312e..fed3f3f 100644
--- a/crates/math/src/rows_batch.rs
+++ b/crates/math/src/rows_batch.rs
@@ -112,7 +112,7 @@ impl<'a, T> RowsBatchRef<'a, T> {
 
 	#[inline]
 	pub fn iter(&self) -> impl Iterator<Item = &'a [T]> + '_ {
-		self.rows.as_ref().iter().copied()
+		(0..self.n_rows()).map(|index| self.row(index))
 	}
 
 	#[inline(always)]
@@ -137,7 +137,7 @@ impl<'a, T> RowsBatchRef<'a, T> {
 
 	/// Returns a new `RowsBatch` with the specified rows selected by the given indices.
 	pub fn map(&self, indices: impl AsRef<[usize]>) -> RowsBatch<'a, T> {
-		let rows = indices.as_ref().iter().map(|&i| self.rows[i]).collect();
+		let rows = indices.as_ref().iter().map(|&i| self.row(i)).collect();
 
 		RowsBatch {
 			rows,
-- 
2.43.0


From fe7db2aaacb3913ad83ac5c0d665bd8a2bc1beb2 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 14:26:56 +0000
Subject: [PATCH 21/51] fix: hash incomplete batches of messages in parallel
 digests

---
 crates/hash/src/multi_digest.rs | 5 ++++-
 1 file changed, 4 insertions(+), 1 deletion(-)

diff --git a/crates/hash/src/multi_digest.rs b/crates/hash/src/multi_digest.rs
index b37726f..9a81924 100644
--- a/crates/hash/src/multi_digest.rs
+++ b/crates/hash/src/multi_digest.rs
@@ -123,11 +123,14 @@ impl<D: MultiDigest<N, Digest: Send> + Send + Sync, const N: usize> ParallelDige
 			buffers,
 			|buffers, (data, out_chunk)| {
 				let mut hasher = self.0.clone();
+				let n_items = data.len();
 				for (buf, chunk) in buffers.iter_mut().zip(data.into_iter()) {
 					buf.clear();
 					chunk.serialize(buf);
 				}
-				let data = array::from_fn(|i| buffers[i].as_ref());
+				// All lanes must have equal lengths, so the unused lanes of an incomplete chunk repeat
+				// the first item.
+				let data = array::from_fn(|i| buffers[if i < n_items { i } else { 0 }].as_ref());
 				hasher.update(data);
 
 				if out_chunk.len() == N {
-- 
2.43.0


From ec6392eb395a5fb1dbf2a954dcf60ca9e4bf1284 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 14:31:36 +0000
Subject: [PATCH 22/51] fix: count every branch node in the Merkle proof size

---
 crates/core/src/merkle_tree/scheme.rs | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/crates/core/src/merkle_tree/scheme.rs b/crates/core/src/merkle_tree/scheme.rs
index cbd04c1..c1f1fc3 100644
--- a/crates/core/src/merkle_tree/scheme.rs
+++ b/crates/core/src/merkle_tree/scheme.rs
@@ -60,7 +60,7 @@ where
 			bail!(Error::IncorrectLayerDepth)
 		}
 
-		Ok(((log_len - layer_depth - 1) * n_queries + (1 << layer_depth))
+		Ok(((log_len - layer_depth) * n_queries + (1 << layer_depth))
 			* <H as Digest>::output_size())
 	}
 
-- 
2.43.0


From c6d47f3fdd61e6bc112e4a71259dec59b96425e3 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 14:36:05 +0000
Subject: [PATCH 23/51] fix: refuse to build a Merkle tree from the wrong
 number of leaves

---
 crates/core/src/merkle_tree/binary_merkle_tree.rs | 6 ++++++
 1 file changed, 6 insertions(+)

diff --git a/crates/core/src/merkle_tree/binary_merkle_tree.rs b/crates/core/src/merkle_tree/binary_merkle_tree.rs
index 2594680..f2e2ff9 100644
--- a/crates/core/src/merkle_tree/binary_merkle_tree.rs
+++ b/crates/core/src/merkle_tree/binary_merkle_tree.rs
@@ -204,6 +204,12 @@ where
 	H: ParallelDigest<Digest: BlockSizeUser + FixedOutputReset>,
 	ParIter: IndexedParallelIterator<Item: IntoIterator<Item = F>>,
 {
+	if iterated_chunks.len() != digests.len() {
+		return Err(Error::IncorrectVectorLen {
+			expected: digests.len(),
+		});
+	}
+
 	let hasher = H::new();
 	hasher.digest(iterated_chunks, digests);
 
-- 
2.43.0


From 8c426448a70a02e2c4eab77fc9d937804a8ed97e Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 14:38:03 +0000
Subject: [PATCH 24/51] fix: sample single-byte challenges right after an
 observation

---
 crates/core/src/fiat_shamir/hasher_challenger.rs | 16 ++++++++++------
 1 file changed, 10 insertions(+), 6 deletions(-)

diff --git a/crates/core/src/fiat_shamir/hasher_challenger.rs b/crates/core/src/fiat_shamir/hasher_challenger.rs
index 811fc54..f95b799 100644
--- a/crates/core/src/fiat_shamir/hasher_challenger.rs
+++ b/crates/core/src/fiat_shamir/hasher_challenger.rs
@@ -77,15 +77,19 @@ impl<H: Digest + BlockSizeUser + FixedOutputReset + Default> Challenger for Hash
 
 	/// This returns the inner challenger which implements [`Buf`].
 	fn sampler(&mut self) -> &mut impl Buf {
+		if let Self::Observer(observer) = self {
+			*self = Self::Sampler(mem::take(observer).into_sampler());
+		}
 		match self {
-			Self::Sampler(sampler) => sampler,
-			Self::Observer(observer) => {
-				*self = Self::Sampler(mem::take(observer).into_sampler());
-				match self {
-					Self::Sampler(sampler) => sampler,
-					_ => unreachable!(),
+			Self::Sampler(sampler) => {
+				// The buffer must not be empty, because reads of a single byte take it from `chunk`
+				// without advancing first.
+				if sampler.index == <H as Digest>::output_size() {
+					sampler.fill_buffer();
 				}
+				sampler
 			}
+			_ => unreachable!(),
 		}
 	}
 }
-- 
2.43.0


From e79419d61ef7887c0cd4d9d891aa9c4b6a29ab78 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 14:46:53 +0000
Subject: [PATCH 25/51] fix: make transparent arithmetic circuits
 deserializable

They were written without the type name every other transparent polynomial is prefixed
with, and no deserializer was registered, so a system with a fixed-size structured
column could not be read back.
---
 crates/core/src/polynomial/multivariate.rs | 21 +++++++++++----------
 1 file changed, 11 insertions(+), 10 deletions(-)

diff --git a/crates/core/src/polynomial/multivariate.rs b/crates/core/src/polynomial/multivariate.rs
index 99cf19d..045a5e7 100644
--- a/crates/core/src/polynomial/multivariate.rs
+++ b/crates/core/src/polynomial/multivariate.rs
@@ -3,11 +3,12 @@
 use std::{borrow::Borrow, fmt::Debug, iter::repeat_with, marker::PhantomData, sync::Arc};
 
 use auto_impl::auto_impl;
-use binius_field::{Field, PackedField, TowerField};
+use binius_field::{BinaryField128b, Field, PackedField, TowerField};
+use binius_macros::erased_serialize_bytes;
 use binius_math::{
 	ArithCircuit, CompositionPoly, MLEDirectAdapter, MultilinearPoly, MultilinearQueryRef,
 };
-use binius_utils::{SerializationError, SerializationMode, SerializeBytes as _, bail};
+use binius_utils::{DeserializeBytes, SerializationError, SerializationMode, bail};
 use bytes::BufMut;
 use itertools::Itertools;
 use rand::{SeedableRng, rngs::StdRng};
@@ -77,6 +78,14 @@ impl<P: PackedField> CompositionPoly<P> for IdentityCompositionPoly {
 	}
 }
 
+inventory::submit! {
+	<dyn MultivariatePoly<BinaryField128b>>::register_deserializer(
+		"ArithCircuit",
+		|buf, mode| Ok(Box::new(ArithCircuit::<BinaryField128b>::deserialize(&mut *buf, mode)?))
+	)
+}
+
+#[erased_serialize_bytes]
 impl<F: TowerField> MultivariatePoly<F> for ArithCircuit<F> {
 	fn n_vars(&self) -> usize {
 		self.n_vars()
@@ -93,14 +102,6 @@ impl<F: TowerField> MultivariatePoly<F> for ArithCircuit<F> {
 	fn binary_tower_level(&self) -> usize {
 		self.binary_tower_level()
 	}
-
-	fn erased_serialize(
-		&self,
-		write_buf: &mut dyn BufMut,
-		mode: SerializationMode,
-	) -> Result<(), SerializationError> {
-		self.serialize(write_buf, mode)
-	}
 }
 
 /// An adapter that constructs a [`CompositionPoly`] for a field from a [`CompositionPoly`] for a
-- 
2.43.0


From 3738d1195ff2fdb05b14e9607c17e98b6c021391 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 14:46:53 +0000
Subject: [PATCH 26/51] fix: serialize the values of a transparent multilinear,
 not its packed words

The number of variables and the digest of the constraint system depended on the packing
width, and columns narrower than a packed element did not survive a round trip.
---
 .../src/transparent/multilinear_extension.rs  | 37 +++++++++++--------
 1 file changed, 22 insertions(+), 15 deletions(-)

diff --git a/crates/core/src/transparent/multilinear_extension.rs b/crates/core/src/transparent/multilinear_extension.rs
index bd71863..0007af9 100644
--- a/crates/core/src/transparent/multilinear_extension.rs
+++ b/crates/core/src/transparent/multilinear_extension.rs
@@ -10,7 +10,10 @@ use binius_field::{
 use binius_hal::{ComputationBackendExt, make_portable_backend};
 use binius_macros::erased_serialize_bytes;
 use binius_math::{MLEEmbeddingAdapter, MultilinearExtension, MultilinearPoly};
-use binius_utils::{DeserializeBytes, SerializationError, SerializationMode, SerializeBytes};
+use binius_utils::{
+	DeserializeBytes, SerializationError, SerializationMode, SerializeBytes,
+	checked_arithmetics::log2_strict_usize,
+};
 
 use crate::polynomial::{Error, MultivariatePoly};
 
@@ -44,12 +47,10 @@ where
 		write_buf: impl bytes::BufMut,
 		mode: SerializationMode,
 	) -> Result<(), SerializationError> {
-		let elems = PE::iter_slice(
-			self.data
-				.packed_evals()
-				.expect("Evals should always be available here"),
-		)
-		.collect::<Vec<_>>();
+		let elems = (0..1 << self.data.n_vars())
+			.map(|index| self.data.evaluate_on_hypercube(index))
+			.collect::<Result<Vec<_>, _>>()
+			.expect("all indices are on the hypercube");
 		SerializeBytes::serialize(&elems, write_buf, mode)
 	}
 }
@@ -62,22 +63,28 @@ inventory::submit! {
 			type F = BinaryField128b;
 			type P = PackedType<U, F>;
 			let hypercube_evals = Vec::<F>::deserialize(&mut *buf, mode)?;
+			if !hypercube_evals.len().is_power_of_two() {
+				return Err(SerializationError::InvalidConstruction {
+					name: "MultilinearExtensionTransparent",
+				});
+			}
+			let n_vars = log2_strict_usize(hypercube_evals.len());
 			let result: Box<dyn MultivariatePoly<F>> = if let Some(packed_evals) = try_pack_slice(&hypercube_evals) {
-				Box::new(MultilinearExtensionTransparent::<PackedType<U, BinaryField1b>, P, _>::from_values(packed_evals).unwrap())
+				Box::new(MultilinearExtensionTransparent::<PackedType<U, BinaryField1b>, P, _>::from_values_and_mu(packed_evals, n_vars).unwrap())
 			} else if let Some(packed_evals) = try_pack_slice(&hypercube_evals) {
-				Box::new(MultilinearExtensionTransparent::<PackedType<U, BinaryField2b>, P, _>::from_values(packed_evals).unwrap())
+				Box::new(MultilinearExtensionTransparent::<PackedType<U, BinaryField2b>, P, _>::from_values_and_mu(packed_evals, n_vars).unwrap())
 			} else if let Some(packed_evals) = try_pack_slice(&hypercube_evals) {
-				Box::new(MultilinearExtensionTransparent::<PackedType<U, BinaryField4b>, P, _>::from_values(packed_evals).unwrap())
+				Box::new(MultilinearExtensionTransparent::<PackedType<U, BinaryField4b>, P, _>::from_values_and_mu(packed_evals, n_vars).unwrap())
 			} else if let Some(packed_evals) = try_pack_slice(&hypercube_evals) {
-				Box::new(MultilinearExtensionTransparent::<PackedType<U, BinaryField8b>, P, _>::from_values(packed_evals).unwrap())
+				Box::new(MultilinearExtensionTransparent::<PackedType<U, BinaryField8b>, P, _>::from_values_and_mu(packed_evals, n_vars).unwrap())
 			} else if let Some(packed_evals) = try_pack_slice(&hypercube_evals) {
-				Box::new(MultilinearExtensionTransparent::<PackedType<U, BinaryField16b>, P, _>::from_values(packed_evals).unwrap())
+				Box::new(MultilinearExtensionTransparent::<PackedType<U, BinaryField16b>, P, _>::from_values_and_mu(packed_evals, n_vars).unwrap())
 			} else if let Some(packed_evals) = try_pack_slice(&hypercube_evals) {
-				Box::new(MultilinearExtensionTransparent::<PackedType<U, BinaryField32b>, P, _>::from_values(packed_evals).unwrap())
+				Box::new(MultilinearExtensionTransparent::<PackedType<U, BinaryField32b>, P, _>::from_values_and_mu(packed_evals, n_vars).unwrap())
 			} else if let Some(packed_evals) = try_pack_slice(&hypercube_evals) {
-				Box::new(MultilinearExtensionTransparent::<PackedType<U, BinaryField64b>, P, _>::from_values(packed_evals).unwrap())
+				Box::new(MultilinearExtensionTransparent::<PackedType<U, BinaryField64b>, P, _>::from_values_and_mu(packed_evals, n_vars).unwrap())
 			} else {
-				Box::new(MultilinearExtensionTransparent::<P, P, _>::from_values(pack_slice(&hypercube_evals)).unwrap())
+				Box::new(MultilinearExtensionTransparent::<P, P, _>::from_values_and_mu(pack_slice(&hypercube_evals), n_vars).unwrap())
 			};
 			Ok(result)
 		}
-- 
2.43.0


From ba978a09da9e2188ce6e13b7f9db7cb6184ca6a5 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 15:01:17 +0000
Subject: [PATCH 27/51] fix: count the leaves of a Merkle tree without rayon as
 well

The serial iterators had no len, which the check of the number of leaves needs.
---
 .../src/iter/indexed_parallel_iterator.rs         | 15 +++++++++++++++
 1 file changed, 15 insertions(+)

diff --git a/crates/maybe_rayon/src/iter/indexed_parallel_iterator.rs b/crates/maybe_rayon/src/iter/indexed_parallel_iterator.rs
index 5383df0..98567c7 100644
--- a/crates/maybe_rayon/src/iter/indexed_parallel_iterator.rs
+++ b/crates/maybe_rayon/src/iter/indexed_parallel_iterator.rs
@@ -98,6 +98,11 @@ impl<I: Iterator> Iterator for Chunks<I> {
 		}
 		if chunk.is_empty() { None } else { Some(chunk) }
 	}
+
+	fn size_hint(&self) -> (usize, Option<usize>) {
+		let (lower, upper) = self.inner.size_hint();
+		(lower.div_ceil(self.chunk_size), upper.map(|upper| upper.div_ceil(self.chunk_size)))
+	}
 }
 
 impl<I: Iterator> IndexedParallelIteratorInner for Chunks<I> {}
@@ -125,6 +130,9 @@ pub trait IndexedParallelIterator: ParallelIterator {
 	type Inner: IndexedParallelIteratorInner<Item = Self::Item>;
 	fn into_inner(self) -> <Self as IndexedParallelIterator>::Inner;
 
+	/// The exact number of items, as in `rayon::iter::IndexedParallelIterator::len`.
+	fn len(&self) -> usize;
+
 	#[inline(always)]
 	fn with_min_len(self, min: usize) -> impl IndexedParallelIterator<Item = Self::Item>
 	where
@@ -212,6 +220,13 @@ impl<I: IndexedParallelIteratorInner> IndexedParallelIterator for ParallelWrappe
 	fn into_inner(self) -> I {
 		self.0
 	}
+
+	#[inline]
+	fn len(&self) -> usize {
+		let (lower, upper) = self.0.size_hint();
+		assert_eq!(Some(lower), upper, "the length of an indexed iterator is known");
+		lower
+	}
 }
 
 #[cfg(test)]
-- 
2.43.0


From bf3803817ca1e01379ee105d77123ae0e788721f Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 15:10:05 +0000
Subject: [PATCH 28/51] fix: repeat a Reed-Solomon message that is narrower
 than a packed element

The test compared the dimension of the code, not its logarithm, with the
logarithm of the packing width, so a message of more than a few symbols but
less than a packed element was padded with whatever lay behind it instead of
being repeated.
---
 crates/core/src/reed_solomon/reed_solomon.rs | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/crates/core/src/reed_solomon/reed_solomon.rs b/crates/core/src/reed_solomon/reed_solomon.rs
index 5e731c1..acd0f4e 100644
--- a/crates/core/src/reed_solomon/reed_solomon.rs
+++ b/crates/core/src/reed_solomon/reed_solomon.rs
@@ -131,7 +131,7 @@ impl<F: BinaryField> ReedSolomonCode<F> {
 
 		// First, if the message is less than the packing width, we need to repeat it to fill one
 		// packed element.
-		if self.dim() + log_batch_size < P::LOG_WIDTH {
+		if self.log_dim() + log_batch_size < P::LOG_WIDTH {
 			let repeated_values = code[0]
 				.into_iter()
 				.take(1 << (self.log_dim() + log_batch_size))
-- 
2.43.0


From 5dc39e2a8f9111f861084bf072e32955c5877ef7 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 15:30:31 +0000
Subject: [PATCH 29/51] fix: support static base exponents wider than 64 bits
 in GKR exponentiation

---
 crates/core/src/protocols/gkr_exp/provers.rs   |  4 +++-
 crates/core/src/protocols/gkr_exp/verifiers.rs | 12 ++++++------
 2 files changed, 9 insertions(+), 7 deletions(-)

diff --git a/crates/core/src/protocols/gkr_exp/provers.rs b/crates/core/src/protocols/gkr_exp/provers.rs
index 8cba625..920694a 100644
--- a/crates/core/src/protocols/gkr_exp/provers.rs
+++ b/crates/core/src/protocols/gkr_exp/provers.rs
@@ -143,7 +143,9 @@ where
 			_ => unreachable!("witness must contain static base"),
 		};
 
-		let base_power_static = base.pow(1 << internal_layer_index);
+		// `1 << internal_layer_index` overflows for exponents wider than 64 bits.
+		let base_power_static =
+			(0..internal_layer_index).fold(base, |base_power, _| base_power.square());
 
 		let composition = IndexComposition::new(
 			composite_claims_n_multilinears,
diff --git a/crates/core/src/protocols/gkr_exp/verifiers.rs b/crates/core/src/protocols/gkr_exp/verifiers.rs
index 58ee08f..461738b 100644
--- a/crates/core/src/protocols/gkr_exp/verifiers.rs
+++ b/crates/core/src/protocols/gkr_exp/verifiers.rs
@@ -1,6 +1,6 @@
 // Copyright 2025 Irreducible Inc.
 
-use binius_field::{BinaryField, Field, PackedField};
+use binius_field::{BinaryField, Field};
 use binius_math::EvaluationOrder;
 use binius_utils::bail;
 
@@ -130,11 +130,11 @@ where
 		} else {
 			let internal_layer_index = self.exponent_bit_width() - 1 - layer_no;
 
-			let base_power_static = self
-				.0
-				.static_base
-				.expect("static_base exist")
-				.pow(1 << internal_layer_index);
+			let base = self.0.static_base.expect("static_base exist");
+
+			// `1 << internal_layer_index` overflows for exponents wider than 64 bits.
+			let base_power_static =
+				(0..internal_layer_index).fold(base, |base_power, _| base_power.square());
 
 			let this_layer_input_index = multilinears_index;
 			let exponent_bit_index = multilinears_index + 1;
-- 
2.43.0


From 9d3c71ee3af88e04c736169ed19194c1e3f951f7 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 15:30:31 +0000
Subject: [PATCH 30/51] fix: compute_composite on rows shorter than the packing
 width

---
 crates/fast_compute/src/layer.rs | 3 ++-
 1 file changed, 2 insertions(+), 1 deletion(-)

diff --git a/crates/fast_compute/src/layer.rs b/crates/fast_compute/src/layer.rs
index bac9a44..074c8c9 100644
--- a/crates/fast_compute/src/layer.rs
+++ b/crates/fast_compute/src/layer.rs
@@ -572,7 +572,8 @@ impl<'a, T: TowerFamily, P: PackedTop<T>> ComputeLayerExecutor<T::B128>
 
 		let chunk_size = (output.len() >> log_chunks).max(1);
 
-		let packed_row_len = checked_int_div(inputs.row_len(), P::WIDTH);
+		// Rows shorter than the packing width still take a whole packed element.
+		let packed_row_len = inputs.row_len().div_ceil(P::WIDTH);
 
 		let rows_batch = unsafe { RowsBatchRef::new_unchecked(&rows, packed_row_len) };
 
-- 
2.43.0


From 902b6ab9ec5232d57070bcd7918611661cb6175f Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 15:39:37 +0000
Subject: [PATCH 31/51] fix: start each chunk of packed Powers values at the
 right power

---
 crates/core/src/transparent/powers.rs | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/crates/core/src/transparent/powers.rs b/crates/core/src/transparent/powers.rs
index f1183b9..4a8956e 100644
--- a/crates/core/src/transparent/powers.rs
+++ b/crates/core/src/transparent/powers.rs
@@ -42,7 +42,7 @@ impl<F: TowerField> Powers<F> {
 			.par_chunks_mut(1 << CHUNK_LOG_SIZE)
 			.enumerate()
 			.for_each(|(chunk_index, chunk)| {
-				let start_power = (chunk_index as u64) << CHUNK_LOG_SIZE;
+				let start_power = (chunk_index as u64) << (CHUNK_LOG_SIZE + P::LOG_WIDTH);
 				let powers = successors(Some(self.base.pow_vartime([start_power])), |&power| {
 					Some(power * self.base)
 				})
-- 
2.43.0


From 6e8d297e308d4012903731a02435993b5a475304 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 15:42:53 +0000
Subject: [PATCH 32/51] fix: scale the offset of nested linear combinations in
 partial evaluations

---
 crates/core/src/protocols/evalcheck/subclaims.rs | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/crates/core/src/protocols/evalcheck/subclaims.rs b/crates/core/src/protocols/evalcheck/subclaims.rs
index 07b5818..ea97b6c 100644
--- a/crates/core/src/protocols/evalcheck/subclaims.rs
+++ b/crates/core/src/protocols/evalcheck/subclaims.rs
@@ -322,7 +322,7 @@ pub fn try_build_partial_eval<F: TowerField, P: PackedField<Scalar = F>>(
 			}
 
 			if lc.offset() != F::zero() {
-				let offset = P::broadcast(lc.offset());
+				let offset = coeff * P::broadcast(lc.offset());
 				for acc in acc.iter_mut() {
 					*acc += offset;
 				}
-- 
2.43.0


From e445cbac4234d04279ebc2492cfb8c7ce49500bc Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 15:53:35 +0000
Subject: [PATCH 33/51] fix: FRI-fold codewords whose interleaved symbols share
 a packed element

---
 crates/ntt/src/fri.rs | 16 ++++++++++++++++
 1 file changed, 16 insertions(+)

diff --git a/crates/ntt/src/fri.rs b/crates/ntt/src/fri.rs
index 58e0888..998dd5b 100644
--- a/crates/ntt/src/fri.rs
+++ b/crates/ntt/src/fri.rs
@@ -41,6 +41,22 @@ pub fn fold_interleaved_allocated<F, FS, NTT, P>(
 	assert!(challenges.len() >= log_batch_size);
 	assert_eq!(out.len(), 1 << (log_len - (challenges.len() - log_batch_size)));
 
+	// When several chunks, or several symbols of the interleaved codewords, share a packed element,
+	// fold the scalars.
+	if challenges.len() < P::LOG_WIDTH || (1..P::LOG_WIDTH).contains(&log_batch_size) {
+		let scalars = P::iter_slice(codeword)
+			.take(1 << (log_len + log_batch_size))
+			.collect::<Vec<F>>();
+		return fold_interleaved_allocated(
+			ntt,
+			&scalars,
+			challenges,
+			log_len,
+			log_batch_size,
+			out,
+		);
+	}
+
 	let (interleave_challenges, fold_challenges) = challenges.split_at(log_batch_size);
 	let tensor = MultilinearQuery::expand(interleave_challenges);
 
-- 
2.43.0


From e551e0e79be175ed70c4a080af6784754b4d29b7 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 16:28:13 +0000
Subject: [PATCH 34/51] fix: expand tensors into memory that is not zero

---
 crates/compute/src/cpu/layer.rs | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/crates/compute/src/cpu/layer.rs b/crates/compute/src/cpu/layer.rs
index 52e3992..1e49872 100644
--- a/crates/compute/src/cpu/layer.rs
+++ b/crates/compute/src/cpu/layer.rs
@@ -295,7 +295,7 @@ impl<F: TowerTop> ComputeLayerExecutor<F> for CpuLayerExecutor<F> {
 			for (x_i, y_i) in std::iter::zip(lhs, rhs) {
 				let prod = *x_i * r_i;
 				*x_i -= prod;
-				*y_i += prod;
+				*y_i = prod;
 			}
 		}
 		Ok(())
-- 
2.43.0


From 5e44164fd71445de5e15797d7d267360ab5b9ab1 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 16:28:13 +0000
Subject: [PATCH 35/51] fix: report the errors of kernels launched by
 map_kernels

---
 crates/compute/src/cpu/layer.rs | 3 +--
 1 file changed, 1 insertion(+), 2 deletions(-)

diff --git a/crates/compute/src/cpu/layer.rs b/crates/compute/src/cpu/layer.rs
index 1e49872..db1ad5b 100644
--- a/crates/compute/src/cpu/layer.rs
+++ b/crates/compute/src/cpu/layer.rs
@@ -198,8 +198,7 @@ impl<F: TowerTop> ComputeLayerExecutor<F> for CpuLayerExecutor<F> {
 		) -> Result<(), Error>,
 		mem_maps: Vec<KernelMemMap<'_, F, Self::DevMem>>,
 	) -> Result<(), Error> {
-		self.process_kernels_chunks(map, mem_maps)?.for_each(drop);
-		Ok(())
+		self.process_kernels_chunks(map, mem_maps)?.collect()
 	}
 
 	fn inner_product<'a>(
-- 
2.43.0


From 87c9ca215a137916d33faccc20f9b7d219f9f428 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 16:28:13 +0000
Subject: [PATCH 36/51] fix: zero the local buffers of every kernel

---
 crates/compute/src/cpu/layer.rs  | 2 ++
 crates/fast_compute/src/layer.rs | 2 ++
 2 files changed, 4 insertions(+)

diff --git a/crates/compute/src/cpu/layer.rs b/crates/compute/src/cpu/layer.rs
index db1ad5b..2adfa3a 100644
--- a/crates/compute/src/cpu/layer.rs
+++ b/crates/compute/src/cpu/layer.rs
@@ -143,6 +143,8 @@ impl<F: TowerTop> CpuLayerExecutor<F> {
 		let total_alloc = count_total_local_buffer_sizes(&mem_maps, log_chunks);
 		let mut local_buffer = zeroed_vec(total_alloc);
 		let iter = (0..1 << log_chunks).map(move |i| {
+			// Local buffers are zero at the start of each kernel.
+			local_buffer.fill(F::ZERO);
 			let local_buffer_alloc = BumpAllocator::new(local_buffer.as_mut());
 			let kernel_data =
 				Self::map_kernel_mem(&mut mem_maps, &local_buffer_alloc, log_chunks, i);
diff --git a/crates/fast_compute/src/layer.rs b/crates/fast_compute/src/layer.rs
index 074c8c9..c5868df 100644
--- a/crates/fast_compute/src/layer.rs
+++ b/crates/fast_compute/src/layer.rs
@@ -269,6 +269,8 @@ impl<'a, T: TowerFamily, P: PackedTop<T>> FastCpuExecutor<'a, T, P> {
 				if buffer.len() < total_alloc {
 					buffer.resize(total_alloc, P::zero());
 				}
+				// Local buffers are zero at the start of each kernel.
+				buffer[..total_alloc].fill(P::zero());
 
 				let buffer = PackedMemorySliceMut::new_slice(&mut buffer);
 				let allocator = BumpAllocator::<T::B128, PackedMemory<P>>::new(buffer);
-- 
2.43.0


From 66434aa1dfcee307a7d0be1405be2e2407c6698e Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 16:28:13 +0000
Subject: [PATCH 37/51] fix: copy slices shorter than the packing width to the
 device

---
 crates/fast_compute/src/layer.rs | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/crates/fast_compute/src/layer.rs b/crates/fast_compute/src/layer.rs
index c5868df..2c86d73 100644
--- a/crates/fast_compute/src/layer.rs
+++ b/crates/fast_compute/src/layer.rs
@@ -92,7 +92,7 @@ impl<T: TowerFamily, P: PackedTop<T>> ComputeLayer<T::B128> for FastCpuLayer<T,
 				Ok(())
 			},
 			|packed| {
-				src.par_chunks_exact(P::WIDTH)
+				src.par_chunks(P::WIDTH)
 					.zip(packed.par_iter_mut())
 					.for_each(|(input, output)| {
 						*output = PackedField::from_scalars(input.iter().copied());
-- 
2.43.0


From 891f50c3c2142dc0b2deec48219093c7df430995 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 16:28:44 +0000
Subject: [PATCH 38/51] fix: FRI-fold into outputs shorter than the packing
 width, from the input

---
 crates/fast_compute/src/layer.rs | 6 ++++--
 1 file changed, 4 insertions(+), 2 deletions(-)

diff --git a/crates/fast_compute/src/layer.rs b/crates/fast_compute/src/layer.rs
index 2c86d73..c776762 100644
--- a/crates/fast_compute/src/layer.rs
+++ b/crates/fast_compute/src/layer.rs
@@ -480,6 +480,8 @@ impl<'a, T: TowerFamily, P: PackedTop<T>> ComputeLayerExecutor<T::B128>
 		FSub: binius_field::BinaryField,
 		T::B128: binius_field::ExtensionField<FSub>,
 	{
+		// Outputs shorter than the packing width still take a whole packed element.
+		let out_len = data_out.len();
 		unpack_if_possible_mut(
 			data_out.as_slice_mut(),
 			|out| {
@@ -489,7 +491,7 @@ impl<'a, T: TowerFamily, P: PackedTop<T>> ComputeLayerExecutor<T::B128>
 					challenges,
 					log_len,
 					log_batch_size,
-					out,
+					&mut out[..out_len],
 				);
 			},
 			|packed| {
@@ -497,7 +499,7 @@ impl<'a, T: TowerFamily, P: PackedTop<T>> ComputeLayerExecutor<T::B128>
 					zeroed_vec(1 << (log_len - (challenges.len() - log_batch_size)));
 				fold_interleaved_allocated(
 					ntt,
-					packed,
+					data_in.as_slice(),
 					challenges,
 					log_len,
 					log_batch_size,
-- 
2.43.0


From fa41ac63703b730956060524693b57c9e35c71e0 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 16:28:44 +0000
Subject: [PATCH 39/51] fix: chunk compute_composite by packed elements

---
 crates/fast_compute/src/layer.rs | 6 +++---
 1 file changed, 3 insertions(+), 3 deletions(-)

diff --git a/crates/fast_compute/src/layer.rs b/crates/fast_compute/src/layer.rs
index c776762..4651f62 100644
--- a/crates/fast_compute/src/layer.rs
+++ b/crates/fast_compute/src/layer.rs
@@ -574,11 +574,11 @@ impl<'a, T: TowerFamily, P: PackedTop<T>> ComputeLayerExecutor<T::B128>
 
 		let log_chunks = get_log_max_threads() + 1;
 
-		let chunk_size = (output.len() >> log_chunks).max(1);
-
 		// Rows shorter than the packing width still take a whole packed element.
 		let packed_row_len = inputs.row_len().div_ceil(P::WIDTH);
 
+		let chunk_size = (packed_row_len >> log_chunks).max(1);
+
 		let rows_batch = unsafe { RowsBatchRef::new_unchecked(&rows, packed_row_len) };
 
 		output
@@ -587,7 +587,7 @@ impl<'a, T: TowerFamily, P: PackedTop<T>> ComputeLayerExecutor<T::B128>
 			.enumerate()
 			.for_each(|(chunk_idx, output_chunk)| {
 				let offset = chunk_idx * chunk_size;
-				let rows = rows_batch.columns_subrange(offset..offset + chunk_size);
+				let rows = rows_batch.columns_subrange(offset..offset + output_chunk.len());
 
 				composition
 					.batch_evaluate(&rows, output_chunk)
-- 
2.43.0


From 1fb7af4e8c368f4d41796003c6a693ea980c4cbb Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 16:28:44 +0000
Subject: [PATCH 40/51] fix: inner products of slices shorter than the packing
 width

---
 crates/fast_compute/src/layer.rs | 15 ++++++++++++---
 1 file changed, 12 insertions(+), 3 deletions(-)

diff --git a/crates/fast_compute/src/layer.rs b/crates/fast_compute/src/layer.rs
index 4651f62..70fccdc 100644
--- a/crates/fast_compute/src/layer.rs
+++ b/crates/fast_compute/src/layer.rs
@@ -28,7 +28,7 @@ use binius_field::{
 	tower_levels::TowerLevel16,
 	underlier::{NumCast, UnderlierWithBitOps, WithUnderlier},
 	unpack_if_possible, unpack_if_possible_mut,
-	util::inner_product_par,
+	util::{inner_product_par, inner_product_unchecked},
 };
 use binius_math::{ArithCircuit, CompositionPoly, RowsBatchRef, tensor_prod_eq_ind};
 use binius_maybe_rayon::{
@@ -323,14 +323,23 @@ impl<'a, T: TowerFamily, P: PackedTop<T>> ComputeLayerExecutor<T::B128>
 		fn inner_product_par_impl<FSub: Field, P: PackedExtension<FSub>>(
 			a_in: &[P],
 			b_in: &[P],
+			len: usize,
 		) -> P::Scalar {
-			inner_product_par(b_in, PackedExtension::cast_bases(a_in))
+			let a_in = PackedExtension::cast_bases(a_in);
+			if len < P::WIDTH {
+				// The lanes after the end of a slice shorter than the packing width are arbitrary.
+				return inner_product_unchecked(
+					P::iter_slice(b_in).take(len),
+					PackedField::iter_slice(a_in),
+				);
+			}
+			inner_product_par(b_in, a_in)
 		}
 
 		let result = each_tower_subfield!(
 			a_in.tower_level,
 			T,
-			inner_product_par_impl::<_, P>(a_in.slice.as_slice(), b_in.as_slice())
+			inner_product_par_impl::<_, P>(a_in.slice.as_slice(), b_in.as_slice(), b_in.len())
 		);
 
 		Ok(result)
-- 
2.43.0


From d2bd1b51b46e5f1976ba9da67600e15b8b184d3e Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 17:05:20 +0000
Subject: [PATCH 41/51] fix: constrain the borrow bits of WideSub

---
 crates/m3/src/gadgets/sub.rs | 7 +++++++
 1 file changed, 7 insertions(+)

diff --git a/crates/m3/src/gadgets/sub.rs b/crates/m3/src/gadgets/sub.rs
index 4c4158c..c81d25d 100644
--- a/crates/m3/src/gadgets/sub.rs
+++ b/crates/m3/src/gadgets/sub.rs
@@ -199,6 +199,13 @@ impl<UX: UnsignedAddPrimitives, const BIT_LENGTH: usize> WideSub<UX, BIT_LENGTH>
 
 		let final_borrow = flags.expose_final_borrow.then(|| bout[BIT_LENGTH - 1]);
 
+		for bit in 0..BIT_LENGTH {
+			table.assert_zero(
+				format!("borrow_out[{bit}]"),
+				(bin[bit] + (xin[bit] - B1::ONE)) * (bin[bit] + yin[bit]) + bin[bit] - bout[bit],
+			);
+		}
+
 		let zout = if flags.commit_zout {
 			let zout = table.add_committed_multiple("zout");
 			for (bit, zout_bit) in zout.iter().enumerate() {
-- 
2.43.0


From be3a5d4df30cb119ec677c1d271d50526c1fcd77 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 17:05:20 +0000
Subject: [PATCH 42/51] fix: WideAdd without a carry-in starts from a zero
 carry

---
 crates/m3/src/gadgets/add.rs | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/crates/m3/src/gadgets/add.rs b/crates/m3/src/gadgets/add.rs
index 63e3aa4..cd9cdd6 100644
--- a/crates/m3/src/gadgets/add.rs
+++ b/crates/m3/src/gadgets/add.rs
@@ -282,7 +282,7 @@ impl<UX: UnsignedAddPrimitives, const BIT_LENGTH: usize> WideAdd<UX, BIT_LENGTH>
 				flags
 					.carry_in_bit
 					.map(|carry_col| table.add_selected("cin[0]", carry_col, 0))
-					.unwrap_or_else(|| table.add_committed("cin[0]"))
+					.unwrap_or_else(|| table.add_constant("cin[0]", [B1::ZERO]))
 			}
 		});
 		let zout = if flags.commit_zout {
-- 
2.43.0


From ff7249fc7c828de2240dfa4a92d12c236f96f496 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 17:05:20 +0000
Subject: [PATCH 43/51] fix: WideAdd::populate reads the carry-in from bit 0 of
 each cell

---
 crates/m3/src/gadgets/add.rs | 16 ++++++++++------
 1 file changed, 10 insertions(+), 6 deletions(-)

diff --git a/crates/m3/src/gadgets/add.rs b/crates/m3/src/gadgets/add.rs
index cd9cdd6..7094f81 100644
--- a/crates/m3/src/gadgets/add.rs
+++ b/crates/m3/src/gadgets/add.rs
@@ -1,11 +1,11 @@
 // Copyright 2025 Irreducible Inc.
 
-use std::{array, marker::PhantomData, ops::Deref};
+use std::{array, marker::PhantomData};
 
 use binius_core::oracle::ShiftVariant;
 use binius_field::{
 	Field, PackedExtension, PackedField, PackedFieldIndexable, PackedSubfield, TowerField,
-	packed::set_packed_slice,
+	packed::{get_packed_slice, set_packed_slice},
 };
 use itertools::izip;
 
@@ -337,10 +337,14 @@ impl<UX: UnsignedAddPrimitives, const BIT_LENGTH: usize> WideAdd<UX, BIT_LENGTH>
 			let initial_carry = PackedSubfield::<P, B1>::default();
 			vec![initial_carry; cin[0].len()]
 		} else {
-			index
-				.get(self.flags.carry_in_bit.expect("carry_in_bit is not None"))?
-				.deref()
-				.to_vec()
+			// The carry is the least significant bit of each 32-bit cell.
+			let carry_in_bit =
+				index.get(self.flags.carry_in_bit.expect("carry_in_bit is not None"))?;
+			let mut carry_in = vec![PackedSubfield::<P, B1>::default(); cin[0].len()];
+			for i in 0..index.size() {
+				set_packed_slice(&mut carry_in, i, get_packed_slice(&carry_in_bit, i << 5));
+			}
+			carry_in
 		};
 		for bit in 0..BIT_LENGTH {
 			for (x_in_packed, y_in_packed, c_in_packed, zout_packed, carry_in) in izip!(
-- 
2.43.0


From 494f6b24c30180f28c9ffb508e0a337bcd65d1a5 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 17:05:20 +0000
Subject: [PATCH 44/51] fix: WideSub::populate fills the borrow-in it selects

---
 crates/m3/src/gadgets/sub.rs | 20 ++++++++++++++------
 1 file changed, 14 insertions(+), 6 deletions(-)

diff --git a/crates/m3/src/gadgets/sub.rs b/crates/m3/src/gadgets/sub.rs
index c81d25d..5dd2bc6 100644
--- a/crates/m3/src/gadgets/sub.rs
+++ b/crates/m3/src/gadgets/sub.rs
@@ -4,7 +4,8 @@ use std::{array, marker::PhantomData};
 
 use binius_core::oracle::ShiftVariant;
 use binius_field::{
-	Field, PackedExtension, PackedField, PackedFieldIndexable, packed::set_packed_slice,
+	Field, PackedExtension, PackedField, PackedFieldIndexable,
+	packed::{get_packed_slice, set_packed_slice},
 };
 use itertools::izip;
 
@@ -246,11 +247,18 @@ impl<UX: UnsignedAddPrimitives, const BIT_LENGTH: usize> WideSub<UX, BIT_LENGTH>
 		let mut b_in = self
 			.flags
 			.borrow_in_bit
-			.map(|_| {
-				index
-					.get(self.bin)
-					.expect("witness index for borrow_in must be set before")
-					.to_vec()
+			.map(|borrow_in_bit| {
+				// The borrow is the least significant bit of each 32-bit cell.
+				let borrow_in_bit = index
+					.get(borrow_in_bit)
+					.expect("witness index for borrow_in must be set before");
+				let mut b_in = index
+					.get_mut(self.bin)
+					.expect("witness index for selected borrow_in not set");
+				for i in 0..index.size() {
+					set_packed_slice(&mut b_in, i, get_packed_slice(&borrow_in_bit, i << 5));
+				}
+				b_in.to_vec()
 			})
 			.unwrap_or_else(|| {
 				let mut b_in = index
-- 
2.43.0


From fc11a245b380ec570d9bd11750e524609a14de78 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 17:05:20 +0000
Subject: [PATCH 45/51] fix: DivSS32 admits a zero remainder of a negative
 dividend

---
 crates/m3/src/gadgets/div.rs | 11 +++++++----
 1 file changed, 7 insertions(+), 4 deletions(-)

diff --git a/crates/m3/src/gadgets/div.rs b/crates/m3/src/gadgets/div.rs
index 407955b..bb2f361 100644
--- a/crates/m3/src/gadgets/div.rs
+++ b/crates/m3/src/gadgets/div.rs
@@ -6,7 +6,7 @@ use binius_field::{Field, PackedExtension, PackedField, packed::set_packed_slice
 use itertools::izip;
 
 use crate::{
-	builder::{B1, B32, B64, B128, Col, TableBuilder, TableWitnessSegment},
+	builder::{B1, B32, B64, B128, Col, TableBuilder, TableWitnessSegment, upcast_col},
 	gadgets::{
 		add::{U32AddFlags, WideAdd},
 		mul::{MulSS32, MulUU32, SignConverter, UnsignedMulPrimitives},
@@ -229,9 +229,6 @@ impl DivSS32 {
 		let out_div_bits = table.add_committed_multiple("out_div_bits");
 		let out_rem_bits = table.add_committed_multiple("out_rem_bits");
 
-		// Check sign(p) == sign(r)
-		table.assert_zero("sign_dividend_eq_sign_rem", p_in_bits[31] - out_rem_bits[31]);
-
 		let sign_extend_q: [_; 64] =
 			array::from_fn(|i| if i < 32 { q_in_bits[i] } else { q_in_bits[31] });
 		let sign_extend_rem = array::from_fn(|i| {
@@ -245,6 +242,12 @@ impl DivSS32 {
 		let out_div = table.add_computed("out_div", pack_fp(out_div_bits));
 		let out_rem = table.add_computed("out_rem", pack_fp(out_rem_bits));
 
+		// Check r == 0 or sign(p) == sign(r)
+		table.assert_zero(
+			"sign_dividend_eq_sign_rem",
+			out_rem * (upcast_col(p_in_bits[31]) - upcast_col(out_rem_bits[31])),
+		);
+
 		let mul_inner = MulSS32::with_input(table, q_in_bits, out_div_bits);
 
 		// Check q is non-zero
-- 
2.43.0


From 3a9b83f9d0eda38648617839bf0775238b6d7400 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 17:05:20 +0000
Subject: [PATCH 46/51] fix: BitAnd::populate fills every stacked value of a
 cell

---
 crates/m3/src/gadgets/indexed_lookup/and.rs | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/crates/m3/src/gadgets/indexed_lookup/and.rs b/crates/m3/src/gadgets/indexed_lookup/and.rs
index 5f41388..c9f107c 100644
--- a/crates/m3/src/gadgets/indexed_lookup/and.rs
+++ b/crates/m3/src/gadgets/indexed_lookup/and.rs
@@ -82,7 +82,7 @@ impl<const V: usize> BitAnd<V> {
 		let mut output_col: std::cell::RefMut<'_, [B8]> = witness.get_scalars_mut(self.output)?;
 		let mut merged_col: std::cell::RefMut<'_, [B32]> = witness.get_scalars_mut(self.merged)?;
 
-		for i in 0..witness.size() {
+		for i in 0..witness.size() * V {
 			let in_a = in_a_col[i].val();
 			let in_b = in_b_col[i].val();
 			let output = in_a & in_b;
-- 
2.43.0


From d334bd66699dd8746995a193750d01ac0db36b26 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 17:05:20 +0000
Subject: [PATCH 47/51] fix: read_state_outs returns one state per row

---
 crates/m3/src/gadgets/hash/groestl.rs | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/crates/m3/src/gadgets/hash/groestl.rs b/crates/m3/src/gadgets/hash/groestl.rs
index c33d087..666f38a 100644
--- a/crates/m3/src/gadgets/hash/groestl.rs
+++ b/crates/m3/src/gadgets/hash/groestl.rs
@@ -133,7 +133,7 @@ impl Permutation {
 		let state_out = self
 			.state_out()
 			.try_map_ext(|state_out_i| index.get(state_out_i))?;
-		let iter = (0..index.log_size()).map(move |k| {
+		let iter = (0..index.size()).map(move |k| {
 			array::from_fn(|ij| {
 				let i = ij % 8;
 				let j = ij / 8;
-- 
2.43.0


From e1fd54722463bcc02cb36eb01f817a4d1e345352 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 17:06:22 +0000
Subject: [PATCH 48/51] fix: tally counts a read as often as its multiplicity

---
 crates/m3/src/builder/indexed_lookup.rs | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/crates/m3/src/builder/indexed_lookup.rs b/crates/m3/src/builder/indexed_lookup.rs
index 33b01f0..d271736 100644
--- a/crates/m3/src/builder/indexed_lookup.rs
+++ b/crates/m3/src/builder/indexed_lookup.rs
@@ -97,7 +97,7 @@ where
 								*elem = col.get(i);
 							}
 							let index = indexed_lookup.entry_to_index(&elems);
-							counts[index] += 1;
+							counts[index] += flush.multiplicity;
 						}
 					}
 				}
@@ -109,7 +109,7 @@ where
 	for boundary in boundaries {
 		if boundary.channel_id == chan && boundary.direction == FlushDirection::Pull {
 			let index = indexed_lookup.entry_to_index(&boundary.values);
-			counts[index] += 1;
+			counts[index] += boundary.multiplicity as u32;
 		}
 	}
 
-- 
2.43.0


From ff0910cacf5fe1943a66d8e7aaa4065f19b7d99a Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 20:14:42 +0000
Subject: [PATCH 49/51] fix: tally channel multiplicities without overflow

A multiplicity is any u64; counting it as i64 made a push of u64::MAX
cancel a push of 1, and overflowed for two large multiplicities.
---
 crates/core/src/constraint_system/channel.rs | 10 +++++-----
 1 file changed, 5 insertions(+), 5 deletions(-)

diff --git a/crates/core/src/constraint_system/channel.rs b/crates/core/src/constraint_system/channel.rs
index 6031d02..ab3824d 100644
--- a/crates/core/src/constraint_system/channel.rs
+++ b/crates/core/src/constraint_system/channel.rs
@@ -226,7 +226,7 @@ where
 			let unbalanced_flushes: Vec<_> = channel
 				.multiplicities
 				.iter()
-				.filter(|(_, c)| **c != 0i64)
+				.filter(|(_, c)| **c != 0)
 				.collect();
 
 			tracing::debug!("Channel {:?} unbalanced: {:?}", id, unbalanced_flushes);
@@ -241,7 +241,7 @@ where
 #[derive(Default, Debug, Clone)]
 struct Channel<F: TowerField> {
 	width: Option<usize>,
-	multiplicities: HashMap<Vec<F>, i64>,
+	multiplicities: HashMap<Vec<F>, i128>,
 }
 
 impl<F: TowerField> Channel<F> {
@@ -271,10 +271,10 @@ impl<F: TowerField> Channel<F> {
 				got: values.len(),
 			});
 		}
-		*self.multiplicities.entry(values).or_default() += (multiplicity as i64)
+		*self.multiplicities.entry(values).or_default() += i128::from(multiplicity)
 			* (match direction {
-				FlushDirection::Pull => -1i64,
-				FlushDirection::Push => 1i64,
+				FlushDirection::Pull => -1,
+				FlushDirection::Push => 1,
 			});
 		Ok(())
 	}
-- 
2.43.0


From bc284a44b04772262cfd080fa2ab8bedc75e3c3e Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 20:24:43 +0000
Subject: [PATCH 50/51] fix: intersperse without rayon ends with the last item

---
 crates/maybe_rayon/src/iter/parallel_iterator.rs | 9 +++++----
 1 file changed, 5 insertions(+), 4 deletions(-)

diff --git a/crates/maybe_rayon/src/iter/parallel_iterator.rs b/crates/maybe_rayon/src/iter/parallel_iterator.rs
index 523decc..2819d6d 100644
--- a/crates/maybe_rayon/src/iter/parallel_iterator.rs
+++ b/crates/maybe_rayon/src/iter/parallel_iterator.rs
@@ -527,7 +527,7 @@ pub(crate) trait ParallelIteratorInner: Sized + Iterator {
 		Self::Item: Clone,
 	{
 		struct Intersperse<I: Iterator> {
-			iter: I,
+			iter: std::iter::Peekable<I>,
 			element: I::Item,
 			insert: bool,
 		}
@@ -537,9 +537,9 @@ pub(crate) trait ParallelIteratorInner: Sized + Iterator {
 			I: Iterator,
 			I::Item: Clone,
 		{
-			const fn new(iter: I, element: I::Item) -> Self {
+			fn new(iter: I, element: I::Item) -> Self {
 				Self {
-					iter,
+					iter: iter.peekable(),
 					element,
 					insert: false,
 				}
@@ -554,7 +554,8 @@ pub(crate) trait ParallelIteratorInner: Sized + Iterator {
 			type Item = I::Item;
 
 			fn next(&mut self) -> Option<Self::Item> {
-				if self.insert {
+				// The separator goes between two items, not after the last one.
+				if self.insert && self.iter.peek().is_some() {
 					self.insert = false;
 					Some(self.element.clone())
 				} else {
-- 
2.43.0


From 251219563d8979d93bcb0b43d80aa3731cc17c23 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 21:20:44 +0000
Subject: [PATCH 51/51] hook: a prover that does not refuse zeros in non-zero
 columns, under --cfg binius_cheating_prover

---
 crates/core/src/constraint_system/prove.rs | 11 ++++++++---
 1 file changed, 8 insertions(+), 3 deletions(-)

diff --git a/crates/core/src/constraint_system/prove.rs b/crates/core/src/constraint_system/prove.rs
index dddcf7a..42aaa84 100644
--- a/crates/core/src/constraint_system/prove.rs
+++ b/crates/core/src/constraint_system/prove.rs
@@ -314,9 +314,14 @@ where
 
 	let non_zero_products =
 		gkr_gpa::get_grand_products_from_witnesses(&non_zero_prodcheck_witnesses);
-	if non_zero_products
-		.iter()
-		.any(|count| *count == Tower::B128::zero())
+	// Test hook: built with `--cfg binius_cheating_prover`, the prover goes on with a false claim, so
+	// that it is the verifier's own check that has to reject it.
+	#[allow(unexpected_cfgs)]
+	let honest = !cfg!(binius_cheating_prover);
+	if honest
+		&& non_zero_products
+			.iter()
+			.any(|count| *count == Tower::B128::zero())
 	{
 		bail!(Error::Zeros);
 	}
-- 
2.43.0

