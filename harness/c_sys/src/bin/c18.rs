//! Sumcheck, eq-indicator sumcheck, zerocheck and the compute-layer bivariate provers: honest runs
//! verify and reduce to true evaluations; false claims never reduce to true evaluations only.
use binius_compute::{
	ComputeData, ComputeHolder, ComputeLayer, ComputeMemory,
	alloc::ComputeAllocator,
	cpu::layer::CpuLayerHolder,
};
use binius_core::{
	composition::{BivariateProduct, IndexComposition},
	fiat_shamir::CanSample,
	protocols::sumcheck::{
		self, BatchSumcheckOutput, BatchZerocheckOutput, CompositeSumClaim, EqIndSumcheckClaim, SumcheckClaim, ZerocheckClaim,
		eq_ind::{ClaimsSortingOrder, reduce_to_regular_sumchecks, verify_sumcheck_outputs},
		front_loaded,
		prove::{RegularSumcheckProver, SumcheckProver, eq_ind::EqIndSumcheckProverBuilder, front_loaded as prove_front, ZerocheckProverImpl},
		v3::{bivariate_mlecheck::BivariateMLEcheckProver, bivariate_product::BivariateSumcheckProver},
	},
	transcript::{ProverTranscript, VerifierTranscript},
	witness::MultilinearWitness,
};
use binius_fast_compute::{arith_circuit::ArithCircuitPoly, layer::FastCpuLayerHolder};
use binius_field::{
	arch::packed_128::*, arch::packed_256::*, as_packed_field::PackedType, tower::CanonicalTowerFamily, *,
};
use binius_hal::{CpuBackend, make_portable_backend};
use binius_math::{ArithCircuit, EvaluationOrder, IsomorphicEvaluationDomainFactory, MLEDirectAdapter};
use c_field::Fd;
use c_math::vals;
use c_sys::{
	Pk, Under,
	audit::{Ch, challenge, eq_table, mle_at, offset},
	mle,
};
use vp::*;

type B128 = BinaryField128b;

// ------------------------------------------------------------------------------------------------
// compositions: sums of monomials

#[derive(Clone, Debug)]
struct Comp(Vec<(u128, Vec<usize>)>);
impl Comp {
	fn draw(s: &mut Src, n: usize, level: usize, max_deg: usize) -> Self {
		let mut terms: Vec<(u128, Vec<usize>)> = vec![];
		for _ in 0..s.range(1, 4) {
			let d = s.range(1, max_deg);
			let mut vs: Vec<usize> = (0..d).map(|_| s.index(n)).collect();
			vs.sort();
			if terms.iter().any(|(_, t)| *t == vs) {
				continue;
			}
			let c = if s.bool() { 1 } else { (s.special_u128() & c_sys::refm::mask(level)).max(1) };
			terms.push((c, vs));
		}
		if s.chance(1, 4) {
			terms.push(((s.special_u128() & c_sys::refm::mask(level)).max(1), vec![]));
		}
		Comp(terms)
	}
	fn eval(&self, x: &[B128]) -> B128 {
		self.0.iter().map(|(c, vs)| vs.iter().map(|v| x[*v]).product::<B128>() * B128::new(*c)).sum()
	}
	fn circuit<F: Field>(&self, k: impl Fn(u128) -> F) -> ArithCircuit<F> {
		let mut e = ArithCircuit::constant(F::ZERO);
		for (c, vs) in &self.0 {
			let mut t = ArithCircuit::constant(k(*c));
			for v in vs {
				t = t * ArithCircuit::var(*v);
			}
			e = e + t;
		}
		e
	}
	fn poly(&self, n: usize) -> ArithCircuitPoly<B128> {
		ArithCircuitPoly::with_n_vars(n, self.circuit(B128::new)).unwrap()
	}
	fn degree(&self) -> usize {
		self.0.iter().map(|t| t.1.len()).max().unwrap()
	}
}

/// A group of multilinears over the same variables with compositions over them.
#[derive(Clone)]
struct Group {
	n: usize,
	cols: Vec<(usize, Vec<B128>)>,
	comps: Vec<Comp>,
}
impl Group {
	fn draw(s: &mut Src, n: usize, max_level: usize, comp_level: usize, max_deg: usize) -> Self {
		let m = s.range(1, 4);
		let cols = (0..m)
			.map(|_| {
				let levels: Vec<usize> = [0, 3, 4, 5, 6, 7].into_iter().filter(|l| *l <= max_level).collect();
				let l = *s.pick(&levels);
				let v: Vec<B128> = vals(s, 1 << n);
				let mask = c_sys::refm::mask(l);
				(l, v.into_iter().map(|x| B128::new(x.val() & mask)).collect())
			})
			.collect();
		let k = s.weighted(&[0, 4, 2, 1]);
		let comps = (0..k).map(|_| Comp::draw(s, m, comp_level, max_deg)).collect();
		Group { n, cols, comps }
	}
	fn row(&self, c: usize, i: usize) -> B128 {
		let x: Vec<B128> = self.cols.iter().map(|v| v.1[i]).collect();
		self.comps[c].eval(&x)
	}
	fn sum(&self, c: usize) -> B128 {
		(0..1 << self.n).map(|i| self.row(c, i)).sum()
	}
	fn eq_sum(&self, c: usize, r: &[B128]) -> B128 {
		let e = eq_table(r);
		(0..1 << self.n).map(|i| self.row(c, i) * e[i]).sum()
	}
	fn evals(&self, p: &[B128]) -> Vec<B128> {
		self.cols.iter().map(|c| mle_at(&c.1, p)).collect()
	}
	fn witness<U: Under>(&self) -> Vec<MultilinearWitness<'static, PackedType<U, B128>>>
	where
		PackedType<U, B128>: Pk<U>,
	{
		self.cols.iter().map(|(l, v)| mle::<U>(&v.iter().map(|x| x.val()).collect::<Vec<_>>(), self.n, *l)).collect()
	}
	fn show(&self) -> String {
		format!("{} vars, levels {:?}, {:?}", self.n, self.cols.iter().map(|c| c.0).collect::<Vec<_>>(), self.comps.iter().map(|c| &c.0).collect::<Vec<_>>())
	}
}
/// What a verifier concluded: the evaluation claims it was left with, per group.
type Left = Vec<(Vec<B128>, Vec<B128>)>;

/// `left` must be true of the groups.
fn all_true(groups: &[Group], left: &Left) -> bool {
	groups.len() == left.len() && groups.iter().zip(left).all(|(g, (p, e))| p.len() == g.n && g.evals(p) == *e)
}

fn audit(
	s: &mut Src,
	groups: &[Group],
	tape: &[u8],
	honest: bool,
	next: B128,
	verify: &dyn Fn(&mut VerifierTranscript<Ch>) -> Result<Left, String>,
) -> Res {
	c_sys::audit::audit(s, tape, honest, next, &|l| all_true(groups, l), verify)
}

fn order(s: &mut Src) -> EvaluationOrder {
	if s.bool() { EvaluationOrder::LowToHigh } else { EvaluationOrder::HighToLow }
}
fn switchover(s: &mut Src) -> usize {
	s.weighted(&[4, 2, 2, 1, 1])
}
// ------------------------------------------------------------------------------------------------

/// Points of the claims of a batch in round order.
fn points(order: EvaluationOrder, rounds: &[B128]) -> Vec<B128> {
	let mut p = rounds.to_vec();
	if order == EvaluationOrder::HighToLow {
		p.reverse();
	}
	p
}

/// Some cases are large enough for the provers to split their work into subcubes.
fn max_vars(s: &mut Src) -> usize {
	if s.chance(1, 40) { 11 } else if s.thorough { 8 } else { 6 }
}

fn sizes(s: &mut Src, max: usize, min: usize) -> Vec<usize> {
	let k = s.weighted(&[0, 4, 3, 2]);
	let mut v: Vec<usize> = (0..k).map(|_| s.range(min, max)).collect();
	v.sort();
	v
}

fn regular<U: Under>(s: &mut Src) -> Res
where
	PackedType<U, B128>: Pk<U> + PackedExtension<BinaryField8b> + PackedExtension<BinaryField16b>,
{
	type P<U> = PackedType<U, B128>;
	let backend = make_portable_backend();
	let front = s.bool();
	let max = max_vars(s);
	let mut ns = sizes(s, max, 0);
	if !front {
		ns.reverse();
	}
	let groups: Vec<Group> = ns.iter().map(|n| Group::draw(s, *n, 7, 7, 4)).collect();
	let mut sums: Vec<Vec<B128>> = groups.iter().map(|g| (0..g.comps.len()).map(|c| g.sum(c)).collect()).collect();
	let honest = s.chance(2, 3);
	if !honest {
		let g = s.index(groups.len());
		let c = s.index(sums[g].len());
		sums[g][c] += offset(s);
	}
	let ord = order(s);
	let sw = switchover(s);
	let wide = s.bool();
	s.desc(format!("{} {ord:?} switchover {sw} honest {honest} front-loaded {front}: {}", std::any::type_name::<U>().rsplit(':').next().unwrap(), groups.iter().map(|g| g.show()).collect::<Vec<_>>().join("; ")));
	s.nontrivial_if(ns.iter().any(|n| *n > 1));
	let claims: Vec<SumcheckClaim<B128, ArithCircuitPoly<B128>>> = groups
		.iter()
		.zip(&sums)
		.map(|(g, su)| {
			SumcheckClaim::new(g.n, g.cols.len(), g.comps.iter().zip(su).map(|(c, s)| CompositeSumClaim { composition: c.poly(g.cols.len()), sum: *s }).collect()).unwrap()
		})
		.collect();
	let mut t = ProverTranscript::<Ch>::new();
	let pre = s.u64();
	t.observe().write_bytes(&pre.to_le_bytes());
	let provers: Vec<Box<dyn SumcheckProver<B128> + '_>> = groups
		.iter()
		.zip(&claims)
		.map(|(g, c)| {
			let w = g.witness::<U>();
			macro_rules! mk {
				($f:ty) => {
					RegularSumcheckProver::<$f, P<U>, _, _, _>::new(
						ord,
						w,
						c.composite_sums().to_vec(),
						IsomorphicEvaluationDomainFactory::<$f>::default(),
						move |_| sw,
						&backend,
					)
					.map(|p| Box::new(p) as Box<dyn SumcheckProver<B128> + '_>)
					.map_err(|e| format!("prover refused: {e}"))
				};
			}
			if wide { mk!(BinaryField16b) } else { mk!(BinaryField8b) }
		})
		.collect::<Result<_, _>>()?;
	let out = if front {
		prove_front::BatchProver::new(provers, &mut t).and_then(|p| p.run(&mut t))
	} else {
		sumcheck::batch_prove(provers, &mut t)
	};
	let out = match out {
		Ok(o) => o,
		Err(e) if honest => return Err(format!("prover failed: {e}")),
		Err(_) => return Ok(()),
	};
	let next = t.sample();
	let tape = t.finalize();
	let left_of = |o: BatchSumcheckOutput<B128>| -> Left {
		// back-loaded outputs are already in variable order
		groups
			.iter()
			.zip(o.multilinear_evals)
			.map(|(g, e)| {
				let k = o.challenges.len();
				let p = if front {
					points(ord, &o.challenges[..g.n])
				} else if ord == EvaluationOrder::HighToLow {
					o.challenges[..g.n].to_vec()
				} else {
					o.challenges[k - g.n..].to_vec()
				};
				(p, e)
			})
			.collect()
	};
	if honest {
		ck!(all_true(&groups, &left_of(out)), "prover's own output is false");
	}
	audit(s, &groups, &tape, honest, next, &|v| {
		v.observe().write_bytes(&pre.to_le_bytes());
		let o = if front {
			front_loaded::BatchVerifier::new(&claims, v).and_then(|b| b.run(v))
		} else {
			sumcheck::batch_verify(ord, &claims, v)
		}
		.map_err(|e| e.to_string())?;
		Ok(left_of(o))
	})
}

// ------------------------------------------------------------------------------------------------

fn eq_ind<U: Under>(s: &mut Src) -> Res
where
	PackedType<U, B128>: Pk<U> + PackedExtension<BinaryField8b>,
{
	type P<U> = PackedType<U, B128>;
	let backend = make_portable_backend();
	let max = max_vars(s);
	// eq-indicator provers need a round to fold the indicator in
	let mut ns = sizes(s, max, 1);
	let front = s.bool();
	if !front {
		ns.reverse();
	}
	let mut groups: Vec<Group> = ns.iter().map(|n| Group::draw(s, *n, 7, 7, 4)).collect();
	// constant suffixes
	let mut suffixes: Vec<Option<Vec<(B128, usize)>>> = vec![];
	for g in &mut groups {
		suffixes.push(if s.chance(1, 2) {
			let v = g
				.cols
				.iter_mut()
				.map(|(l, c)| {
					let n = match s.index(4) {
						0 => 0,
						1 => 1usize << s.range(0, g.n),
						2 => (1 << g.n) - 1,
						_ => s.range(0, 1 << g.n),
					};
					let x = match s.index(3) {
						0 => B128::ZERO,
						1 => B128::ONE,
						_ => B128::new(s.special_u128() & c_sys::refm::mask(*l)),
					};
					let k = c.len();
					for y in &mut c[k - n..] {
						*y = x;
					}
					(x, n)
				})
				.collect();
			s.label("constant suffixes");
			Some(v)
		} else {
			None
		});
	}
	let ord = order(s);
	let n_max = *ns.iter().max().unwrap();
	let r: Vec<B128> = (0..n_max).map(|_| Fd::draw(s)).collect();
	// a smaller claim takes the challenges of the rounds it takes part in
	let r_of = |n: usize| {
		match (front, ord) {
			(true, EvaluationOrder::LowToHigh) | (false, EvaluationOrder::HighToLow) => r[..n].to_vec(),
			_ => r[n_max - n..].to_vec(),
		}
	};
	let mut sums: Vec<Vec<B128>> = groups.iter().map(|g| (0..g.comps.len()).map(|c| g.eq_sum(c, &r_of(g.n))).collect()).collect();
	let honest = s.chance(2, 3);
	if !honest {
		let g = s.index(groups.len());
		let c = s.index(sums[g].len());
		sums[g][c] += offset(s);
	}
	let sw = switchover(s);
	s.desc(format!("{} {ord:?} switchover {sw} honest {honest} front-loaded {front} suffixes {suffixes:?}: {}", std::any::type_name::<U>().rsplit(':').next().unwrap(), groups.iter().map(|g| g.show()).collect::<Vec<_>>().join("; ")));
	s.nontrivial_if(ns.iter().any(|n| *n > 1));
	let claims: Vec<EqIndSumcheckClaim<B128, ArithCircuitPoly<B128>>> = groups
		.iter()
		.zip(&sums)
		.map(|(g, su)| {
			EqIndSumcheckClaim::new(g.n, g.cols.len(), g.comps.iter().zip(su).map(|(c, s)| CompositeSumClaim { composition: c.poly(g.cols.len()), sum: *s }).collect()).unwrap()
		})
		.collect();
	// the output check takes suffixes only, so batches of several sizes need that arrangement
	let suffix_like = r_of(0).is_empty() && matches!((front, ord), (true, EvaluationOrder::HighToLow) | (false, EvaluationOrder::LowToHigh));
	if !suffix_like && ns.iter().any(|n| *n != n_max) {
		s.discard();
		return Ok(());
	}
	let mut t = ProverTranscript::<Ch>::new();
	let pre = s.u64();
	t.observe().write_bytes(&pre.to_le_bytes());
	let mut provers: Vec<Box<dyn SumcheckProver<B128> + '_>> = vec![];
	for ((g, c), suf) in groups.iter().zip(&claims).zip(&suffixes) {
		let re = r_of(g.n);
		let eval1 = s.bool();
		let e1: Vec<B128> = {
			// the round polynomial at 1 in the first round, without the indicator of that variable
			let rest = if ord == EvaluationOrder::HighToLow { re[..g.n - 1].to_vec() } else { re[1..].to_vec() };
			let e = eq_table(&rest);
			(0..g.comps.len())
				.map(|c| {
					(0..e.len())
						.map(|j| {
							let i = if ord == EvaluationOrder::HighToLow { j | 1 << (g.n - 1) } else { j << 1 | 1 };
							g.row(c, i) * e[j]
						})
						.sum()
				})
				.collect()
		};
		let folded = s.chance(1, 3);
		let own_eq = s.chance(1, 3);
		macro_rules! fin {
			($b:expr) => {{
				let mut b = $b;
				if eval1 {
					b = b.with_first_round_eval_1s(&e1);
				}
				if own_eq {
					let rest = if ord == EvaluationOrder::HighToLow { &re[..g.n - 1] } else { &re[1..] };
					let e: Vec<P<U>> = c_math::packed(&eq_table(rest));
					b = b.with_eq_ind_partial_evals(e);
				}
				if let Some(v) = suf {
					b = b.with_const_suffixes(v).map_err(|e| format!("suffixes refused: {e}"))?;
				}
				let p = b
					.build::<BinaryField8b, _>(ord, &re, c.eq_ind_composite_sums().to_vec(), IsomorphicEvaluationDomainFactory::<BinaryField8b>::default())
					.map_err(|e| format!("prover refused: {e}"))?;
				provers.push(Box::new(p));
			}};
		}
		if folded {
			let m: Vec<Vec<P<U>>> = g.cols.iter().map(|c| c_math::packed(&c.1)).collect();
			fin!(EqIndSumcheckProverBuilder::<P<U>, MLEDirectAdapter<P<U>, Vec<P<U>>>, CpuBackend>::without_switchover(g.n, m, &backend))
		} else {
			fin!(EqIndSumcheckProverBuilder::with_switchover(g.witness::<U>(), move |_| sw, &backend).map_err(|e| e.to_string())?)
		}
	}
	let out = if front {
		prove_front::BatchProver::new(provers, &mut t).and_then(|p| p.run(&mut t))
	} else {
		sumcheck::batch_prove(provers, &mut t)
	};
	match out {
		Ok(_) => {}
		Err(e) if honest => return Err(format!("prover failed: {e}")),
		Err(_) => return Ok(()),
	};
	let next = t.sample();
	let tape = t.finalize();
	audit(s, &groups, &tape, honest, next, &|v| {
		v.observe().write_bytes(&pre.to_le_bytes());
		let reg = reduce_to_regular_sumchecks(&claims).map_err(|e| e.to_string())?;
		let mut o = if front {
			front_loaded::BatchVerifier::new(&reg, v).and_then(|b| b.run(v))
		} else {
			sumcheck::batch_verify(ord, &reg, v)
		}
		.map_err(|e| e.to_string())?;
		if front && ord == EvaluationOrder::HighToLow {
			o.challenges.reverse();
		}
		let so = if front { ClaimsSortingOrder::AscendingVars } else { ClaimsSortingOrder::DescendingVars };
		let o = verify_sumcheck_outputs(so, &claims, &r, o).map_err(|e| e.to_string())?;
		Ok(groups.iter().zip(o.multilinear_evals).map(|(g, e)| (o.challenges[n_max - g.n..].to_vec(), e)).collect())
	})
}

// ------------------------------------------------------------------------------------------------

fn zero<U: Under, FB>(s: &mut Src) -> Res
where
	FB: TowerField + ExtensionField<BinaryField8b> + TryFrom<B128> + Fd,
	B128: ExtensionField<FB>,
	PackedType<U, B128>: Pk<U> + PackedExtension<FB> + PackedExtension<BinaryField8b>,
{
	type P<U> = PackedType<U, B128>;
	let backend = make_portable_backend();
	let level = FB::TOWER_LEVEL;
	// the univariate round splits cubes of more than 12 variables
	let max = if s.chance(1, 400) { 14 } else { max_vars(s) };
	let mut ns = sizes(s, max, 0);
	if max == 14 {
		*ns.last_mut().unwrap() = s.range(13, 14);
		s.label("zerocheck past 12 variables");
	}
	let ns = ns;
	let n_max = *ns.last().unwrap();
	let skip = s.range(0, n_max.min(5));
	let mut groups: Vec<Group> = ns.iter().map(|n| Group::draw(s, *n, level, level, 3)).collect();
	// make the compositions vanish: a further column holds what must be subtracted
	for g in &mut groups {
		let m = g.cols.len();
		for c in 0..g.comps.len() {
			let v: Vec<B128> = (0..1 << g.n).map(|i| g.row(c, i)).collect();
			g.cols.push((level, v));
			g.comps[c].0.push((1, vec![m + c]));
		}
	}
	let honest = s.chance(2, 3);
	if !honest {
		let g = s.index(groups.len());
		let c = groups[g].cols.len() - 1 - s.index(groups[g].comps.len());
		let n = groups[g].cols[c].1.len();
		for _ in 0..s.range(1, 2) {
			let i = s.index(n);
			groups[g].cols[c].1[i] += B128::new((s.special_u128() & c_sys::refm::mask(level)).max(1));
		}
		// two changes may cancel
		let gr = &groups[g];
		if (0..gr.comps.len()).all(|c| (0..1 << gr.n).all(|i| gr.row(c, i) == B128::ZERO)) {
			s.discard();
			return Ok(());
		}
	}
	s.desc(format!("{} base {} skip {skip} honest {honest}: {}", std::any::type_name::<U>().rsplit(':').next().unwrap(), FB::NAME, groups.iter().map(|g| g.show()).collect::<Vec<_>>().join("; ")));
	s.nontrivial_if(n_max > 1);
	s.label_if(ns.iter().any(|n| *n < skip), "claim smaller than the skipped rounds");
	let claims: Vec<ZerocheckClaim<B128, ArithCircuitPoly<B128>>> =
		groups.iter().map(|g| ZerocheckClaim::new(g.n, g.cols.len(), g.comps.iter().map(|c| c.poly(g.cols.len())).collect()).unwrap()).collect();
	let mut t = ProverTranscript::<Ch>::new();
	let pre = s.u64();
	t.observe().write_bytes(&pre.to_le_bytes());
	let zc: Vec<B128> = t.sample_vec(n_max - skip);
	let mut provers = vec![];
	for g in &groups {
		let m = g.cols.len();
		let zs: Vec<(String, ArithCircuitPoly<FB>, ArithCircuitPoly<B128>)> = g
			.comps
			.iter()
			.map(|c| ("z".to_string(), ArithCircuitPoly::with_n_vars(m, c.circuit(|k| FB::of(k))).unwrap(), c.poly(m)))
			.collect();
		// a claim takes the last challenges
		let k = g.n.saturating_sub(skip);
		let p = ZerocheckProverImpl::<BinaryField8b, FB, P<U>, _, _, _, _, _>::new(
			g.witness::<U>(),
			zs,
			&zc[zc.len() - k..],
			IsomorphicEvaluationDomainFactory::<BinaryField8b>::default(),
			&backend,
		)
		.map_err(|e| format!("prover refused: {e}"))?;
		provers.push(p);
	}
	let out = sumcheck::batch_prove_zerocheck::<B128, BinaryField8b, P<U>, _, _>(provers, skip, &mut t);
	let out = match out {
		Ok(o) => o,
		Err(e) if honest => return Err(format!("prover failed: {e}")),
		Err(_) => return Ok(()),
	};
	let next = t.sample();
	let tape = t.finalize();
	let left_of = |o: BatchZerocheckOutput<B128>| -> Result<Left, String> {
		let mut e = o.concat_multilinear_evals.into_iter();
		if o.skipped_challenges.len() != skip || o.unskipped_challenges.len() != n_max - skip {
			return Err("wrong number of challenges".into());
		}
		let l = groups
			.iter()
			.map(|g| {
				let mut p = o.skipped_challenges[..g.n.min(skip)].to_vec();
				let k = g.n.saturating_sub(skip);
				p.extend(&o.unskipped_challenges[n_max - skip - k..]);
				(p, e.by_ref().take(g.cols.len()).collect())
			})
			.collect();
		if e.next().is_some() {
			return Err("too many evaluations".into());
		}
		Ok(l)
	};
	if honest {
		ck!(all_true(&groups, &left_of(out)?), "prover's own output is false");
	}
	audit(s, &groups, &tape, honest, next, &|v| {
		v.observe().write_bytes(&pre.to_le_bytes());
		let o = sumcheck::batch_verify_zerocheck(&claims, skip, v).map_err(|e| e.to_string())?;
		left_of(o)
	})
}

// ------------------------------------------------------------------------------------------------

fn bivariate_on<Hal: ComputeLayer<B128>, H: ComputeHolder<B128, Hal>>(s: &mut Src, mut holder: H) -> Res {
	let max = max_vars(s);
	let ns = sizes(s, max, 1);
	let n_max = *ns.last().unwrap();
	let mut groups: Vec<Group> = ns.iter().map(|n| Group::draw(s, *n, 7, 7, 2)).collect();
	let mut pairs: Vec<Vec<[usize; 2]>> = vec![];
	for g in &mut groups {
		let m = g.cols.len();
		let k = s.range(1, 4);
		let ps: Vec<[usize; 2]> = (0..k).map(|_| [s.index(m), s.index(m)]).collect();
		g.comps = ps.iter().map(|p| Comp(vec![(1, p.to_vec())])).collect();
		pairs.push(ps);
	}
	let ml = s.bool();
	let r: Vec<B128> = (0..n_max).map(|_| challenge(s)).collect();
	let mut sums: Vec<Vec<B128>> = groups
		.iter()
		.map(|g| (0..g.comps.len()).map(|c| if ml { g.eq_sum(c, &r[n_max - g.n..]) } else { g.sum(c) }).collect())
		.collect();
	let honest = s.chance(2, 3);
	if !honest {
		let g = s.index(groups.len());
		let c = s.index(sums[g].len());
		sums[g][c] += offset(s);
	}
	s.desc(format!("mlecheck {ml} honest {honest}: {}", groups.iter().map(|g| g.show()).collect::<Vec<_>>().join("; ")));
	s.nontrivial_if(n_max > 1);
	let comp = |g: &Group, p: &[usize; 2]| IndexComposition::new(g.cols.len(), *p, BivariateProduct {}).unwrap();
	let composites = |i: usize| -> Vec<CompositeSumClaim<B128, IndexComposition<BivariateProduct, 2>>> {
		pairs[i].iter().zip(&sums[i]).map(|(p, s)| CompositeSumClaim { composition: comp(&groups[i], p), sum: *s }).collect()
	};
	let reg: Vec<_> = groups.iter().enumerate().map(|(i, g)| SumcheckClaim::new(g.n, g.cols.len(), composites(i)).unwrap()).collect();
	let eqc: Vec<_> = groups.iter().enumerate().map(|(i, g)| EqIndSumcheckClaim::new(g.n, g.cols.len(), composites(i)).unwrap()).collect();
	let ComputeData { hal, dev_alloc, host_alloc, .. } = holder.to_data();
	let mut t = ProverTranscript::<Ch>::new();
	let pre = s.u64();
	t.observe().write_bytes(&pre.to_le_bytes());
	let mut provers: Vec<Box<dyn SumcheckProver<B128> + '_>> = vec![];
	let mut eqs = vec![];
	for g in &groups {
		let e = eq_table(&r[n_max - g.n..][..g.n - 1]);
		let mut d = dev_alloc.alloc(e.len()).map_err(|e| e.to_string())?;
		hal.copy_h2d(&e, &mut d).map_err(|e| e.to_string())?;
		eqs.push(Hal::DevMem::to_const(d));
	}
	for (i, g) in groups.iter().enumerate() {
		let mut devs = vec![];
		for (_, v) in &g.cols {
			let mut d = dev_alloc.alloc(v.len()).map_err(|e| e.to_string())?;
			hal.copy_h2d(v, &mut d).map_err(|e| e.to_string())?;
			devs.push(Hal::DevMem::to_const(d));
		}
		if ml {
			let p = BivariateMLEcheckProver::new(hal, &dev_alloc, &host_alloc, &eqc[i], devs, eqs.remove(0), r[n_max - g.n..].to_vec()).map_err(|e| format!("prover refused: {e}"))?;
			provers.push(Box::new(p));
		} else {
			let p = BivariateSumcheckProver::new(hal, &dev_alloc, &host_alloc, &reg[i], devs).map_err(|e| format!("prover refused: {e}"))?;
			provers.push(Box::new(p));
		}
	}
	let out = prove_front::BatchProver::new(provers, &mut t).and_then(|p| p.run(&mut t));
	match out {
		Ok(_) => {}
		Err(e) if honest => return Err(format!("prover failed: {e}")),
		Err(_) => return Ok(()),
	};
	let next = t.sample();
	let tape = t.finalize();
	audit(s, &groups, &tape, honest, next, &|v| {
		v.observe().write_bytes(&pre.to_le_bytes());
		let o = if ml {
			let red = reduce_to_regular_sumchecks(&eqc).map_err(|e| e.to_string())?;
			let mut o = front_loaded::BatchVerifier::new(&red, v).and_then(|b| b.run(v)).map_err(|e| e.to_string())?;
			o.challenges.reverse();
			verify_sumcheck_outputs(ClaimsSortingOrder::AscendingVars, &eqc, &r, o).map_err(|e| e.to_string())?
		} else {
			let mut o = front_loaded::BatchVerifier::new(&reg, v).and_then(|b| b.run(v)).map_err(|e| e.to_string())?;
			o.challenges.reverse();
			o
		};
		Ok(groups.iter().zip(o.multilinear_evals).map(|(g, e)| (o.challenges[n_max - g.n..].to_vec(), e)).collect())
	})
}

fn bivariate(s: &mut Src) -> Res {
	match s.index(3) {
		0 => bivariate_on(s, CpuLayerHolder::<B128>::new(1 << 14, 1 << 17)),
		1 => bivariate_on(s, FastCpuLayerHolder::<CanonicalTowerFamily, PackedBinaryField1x128b>::new(1 << 14, 1 << 17)),
		_ => bivariate_on(s, FastCpuLayerHolder::<CanonicalTowerFamily, PackedBinaryField2x128b>::new(1 << 14, 1 << 17)),
	}
}

macro_rules! under {
	($s:ident, $f:ident $(, $g:ty)*) => {{
		use binius_field::arch::{OptimalUnderlier128b, OptimalUnderlier256b, OptimalUnderlier512b};
		match $s.index(3) {
			0 => $f::<OptimalUnderlier128b $(, $g)*>($s),
			1 => $f::<OptimalUnderlier256b $(, $g)*>($s),
			_ => $f::<OptimalUnderlier512b $(, $g)*>($s),
		}
	}};
}
fn sums(s: &mut Src) -> Res {
	under!(s, regular)
}
fn eq_sums(s: &mut Src) -> Res {
	under!(s, eq_ind)
}
fn zerocheck(s: &mut Src) -> Res {
	match s.index(4) {
		0 => under!(s, zero, BinaryField8b),
		1 => under!(s, zero, BinaryField16b),
		2 => under!(s, zero, BinaryField32b),
		_ => under!(s, zero, BinaryField64b),
	}
}

fn main() {
	run(Prop {
		id: "C18",
		rule: "some claim has at least two variables",
		assumptions: &[
			"scalar field arithmetic (C06), transcripts (C16)",
			"a false claim or altered proof is accepted by chance with probability below 2^-100 per case",
			"up to 6 (quick) or 8 (thorough) variables, 11 in one case of forty, 14 in some zerochecks; three claims of up to four columns",
		],
		subs: vec![
			Sub { name: "sums", quick: 16000, thorough: 640000, threads: 0, f: sums },
			Sub { name: "eq_sums", quick: 16000, thorough: 640000, threads: 0, f: eq_sums },
			Sub { name: "zerocheck", quick: 10000, thorough: 400000, threads: 0, f: zerocheck },
			Sub { name: "bivariate", quick: 20000, thorough: 800000, threads: 0, f: bivariate },
		],
	});
}
