//! GKR grand products, exponentiation and the compute-layer product circuit.
use binius_compute::{ComputeData, ComputeHolder, ComputeLayer, ComputeMemory, SizedSlice, alloc::ComputeAllocator, cpu::{CpuLayer, layer::CpuLayerHolder}};
use binius_core::{
	fiat_shamir::CanSample,
	protocols::{
		gkr_exp::{self, BaseExpReductionOutput, BaseExpWitness, ExpClaim},
		gkr_gpa::{self, GrandProductClaim, GrandProductWitness},
		prodcheck::ProductCircuitLayers,
	},
	transcript::{ProverTranscript, VerifierTranscript},
	witness::MultilinearWitness,
};
use binius_fast_compute::layer::{FastCpuLayer, FastCpuLayerHolder};
use binius_field::{arch::packed_128::*, arch::packed_256::*, as_packed_field::PackedType, tower::CanonicalTowerFamily, *};
use binius_hal::make_portable_backend;
use binius_math::{EvaluationOrder, IsomorphicEvaluationDomainFactory};
use c_field::Fd;
use c_math::vals;
use c_sys::{
	Pk, Under,
	audit::{Ch, audit, mle_at, offset},
	mle, refm,
};
use vp::*;

type B128 = BinaryField128b;

fn order(s: &mut Src) -> EvaluationOrder {
	if s.bool() { EvaluationOrder::LowToHigh } else { EvaluationOrder::HighToLow }
}
fn nonzero_vals(s: &mut Src, n: usize) -> Vec<B128> {
	// zeros make whole products vanish, so they are rare
	let zeros = s.chance(1, 6);
	vals::<B128>(s, n).into_iter().map(|x| if x == B128::ZERO && !zeros { B128::ONE } else { x }).collect()
}

// ------------------------------------------------------------------------------------------------

fn gpa<U: Under>(s: &mut Src) -> Res
where
	PackedType<U, B128>: Pk<U> + PackedExtension<BinaryField8b>,
{
	type P<U> = PackedType<U, B128>;
	let w = P::<U>::WIDTH;
	let k = s.weighted(&[1, 4, 3, 2, 1]);
	let max = if s.chance(1, 40) { 11 } else if s.thorough { 9 } else { 7 };
	let ord = order(s);
	let mut ns = vec![];
	let mut input: Vec<Vec<P<U>>> = vec![];
	let mut full: Vec<Vec<B128>> = vec![];
	let mut truncated = false;
	for _ in 0..k {
		let n = s.range(0, max);
		// inputs may be cut at any packed element: the rest are ones
		let len = 1usize << n.saturating_sub(P::<U>::LOG_WIDTH);
		let keep = match s.index(3) {
			0 => len,
			1 => s.range(0, len),
			_ => {
				let h = len / 2;
				s.range(h.saturating_sub(1), (h + 1).min(len))
			}
		};
		truncated |= keep < len;
		let mut v = nonzero_vals(s, 1 << n);
		let cut = keep * w;
		for x in v.iter_mut().skip(cut) {
			*x = B128::ONE;
		}
		let kept: Vec<B128> = v.iter().take(cut).copied().collect();
		input.push(c_math::packed::<P<U>>(&kept));
		ns.push(n);
		full.push(v);
	}
	s.desc(format!("{} {ord:?} sizes {ns:?} packed lengths {:?}", P::<U>::WIDTH, input.iter().map(|x| x.len()).collect::<Vec<_>>()));
	s.nontrivial_if(ns.iter().any(|n| *n > 1));
	s.label_if(truncated, "truncated input");
	let products: Vec<B128> = full.iter().map(|v| v.iter().copied().product()).collect();
	let mut claims = vec![];
	let mut wits = vec![];
	for ((n, i), p) in ns.iter().zip(&input).zip(&products) {
		let wit = GrandProductWitness::<P<U>>::new(*n, i.clone()).map_err(|e| format!("witness refused: {e}"))?;
		ck_eq!(wit.grand_product_evaluation(), *p, "grand product");
		ck_eq!(wit.n_vars(), *n, "variables");
		wits.push(wit);
		claims.push(GrandProductClaim { n_vars: *n, product: *p });
	}
	let backend = make_portable_backend();
	let pre = s.u64();
	let mut t = ProverTranscript::<Ch>::new();
	t.observe().write_bytes(&pre.to_le_bytes());
	let domain = || IsomorphicEvaluationDomainFactory::<BinaryField8b>::default();
	// a prover whose claim does not match its witness is refused
	if k > 0 && s.chance(1, 8) {
		let mut bad = claims.clone();
		let i = s.index(k);
		bad[i].product += offset(s);
		let r = gkr_gpa::batch_prove::<_, _, BinaryField8b, _, _>(ord, wits.clone(), &bad, domain(), &mut ProverTranscript::<Ch>::new(), &backend);
		ck!(r.is_err(), "prover accepts a claim its witness contradicts");
	}
	let out = gkr_gpa::batch_prove::<_, _, BinaryField8b, _, _>(ord, wits, &claims, domain(), &mut t, &backend).map_err(|e| format!("prover failed: {e}"))?;
	type Left = Vec<(Vec<B128>, B128)>;
	let truth = |l: &Left| l.len() == full.len() && l.iter().zip(&full).zip(&ns).all(|(((p, e), v), n)| p.len() == *n && mle_at(v, p) == *e);
	ck!(truth(&out.final_layer_claims.into_iter().map(|c| (c.eval_point, c.eval)).collect()), "prover's own output is false");
	let next = t.sample();
	let tape = t.finalize();
	let honest = k == 0 || s.chance(2, 3);
	let mut vc = claims;
	if !honest {
		let i = s.index(k);
		vc[i].product += offset(s);
	}
	audit(s, &tape, honest, next, &truth, &|v: &mut VerifierTranscript<Ch>| {
		v.observe().write_bytes(&pre.to_le_bytes());
		let o = gkr_gpa::batch_verify(ord, vc.clone(), v).map_err(|e| e.to_string())?;
		Ok(o.into_iter().map(|c| (c.eval_point, c.eval)).collect())
	})
}

// ------------------------------------------------------------------------------------------------

struct X {
	n: usize,
	level: usize,
	/// exponent bits, lowest first
	bits: Vec<Vec<B128>>,
	base: Result<Vec<B128>, B128>,
	out: Vec<B128>,
	point: Vec<B128>,
}

fn exp<U: Under>(s: &mut Src) -> Res
where
	PackedType<U, B128>: Pk<U> + PackedExtension<BinaryField8b>,
	PackedType<U, B128>: RepackedExtension<PackedType<U, BinaryField8b>>
		+ RepackedExtension<PackedType<U, BinaryField16b>>
		+ RepackedExtension<PackedType<U, BinaryField32b>>
		+ RepackedExtension<PackedType<U, BinaryField64b>>
		+ RepackedExtension<PackedType<U, B128>>,
{
	type P<U> = PackedType<U, B128>;
	let k = s.weighted(&[0, 4, 3, 2, 1]);
	let max = if s.chance(1, 40) { 9 } else if s.thorough { 7 } else { 5 };
	let mut xs: Vec<X> = vec![];
	let mut ns: Vec<usize> = (0..k).map(|_| s.range(1, max)).collect();
	ns.sort_by(|a, b| b.cmp(a));
	for (i, n) in ns.iter().enumerate() {
		let level = *s.pick(&[3usize, 4, 5, 6, 7]);
		let width = match s.weighted(&[1, 2, 17]) {
			0 => 1 << level,
			1 => s.range(1, 1 << level),
			_ => s.range(1, 6),
		};
		let bits: Vec<Vec<B128>> = (0..width)
			.map(|_| {
				let mut b = s.bulk();
				(0..1usize << n).map(|_| B128::new((b.u64() & 1) as u128)).collect()
			})
			.collect();
		let mask = refm::mask(level);
		let base = if s.bool() {
			let b = s.special_u128() & mask;
			// 1^e says nothing about e
			Err(B128::new(if b == 1 { 2 } else { b }))
		} else {
			// the result of an earlier exponentiation, or fresh values; narrow columns must fill a packed element
			match (0..i).filter(|j| xs[*j].n == *n && xs[*j].level == level).last() {
				Some(j) if s.bool() => Ok(xs[j].out.clone()),
				_ => Ok(vals::<B128>(s, 1 << n).into_iter().map(|x| B128::new(x.val() & mask)).collect()),
			}
		};
		let out = (0..1usize << n)
			.map(|r| {
				let e = bits.iter().enumerate().fold(0u128, |a, (j, b)| a | b[r].val() << j);
				let b = match &base {
					Ok(v) => v[r],
					Err(b) => *b,
				};
				B128::new(refm::pow(b.val(), e))
			})
			.collect();
		let point = match xs.last() {
			Some(x) if x.n == *n && s.bool() => x.point.clone(),
			_ => (0..*n).map(|_| Fd::draw(s)).collect(),
		};
		xs.push(X { n: *n, level, bits, base, out, point });
	}
	let ord = order(s);
	s.desc(format!("{} {ord:?} {:?}", P::<U>::WIDTH, xs.iter().map(|x| (x.n, x.level, x.bits.len(), x.base.is_ok())).collect::<Vec<_>>()));
	s.nontrivial_if(xs.iter().any(|x| x.bits.len() > 1));
	s.label_if(xs.iter().any(|x| x.bits.len() > 64), "exponents wider than 64 bits");
	s.label_if(xs.windows(2).any(|w| w[0].point == w[1].point), "shared evaluation point");
	let col = |v: &[B128], n: usize, l: usize| mle::<U>(&v.iter().map(|x| x.val()).collect::<Vec<_>>(), n, l);
	let honest = s.chance(2, 3);
	let bad = if honest { k } else { s.index(k) };
	let mut wits: Vec<BaseExpWitness<'static, P<U>>> = vec![];
	let mut claims = vec![];
	for (i, x) in xs.iter().enumerate() {
		let bits: Vec<MultilinearWitness<'static, P<U>>> = x.bits.iter().map(|b| col(b, x.n, 0)).collect();
		macro_rules! go {
			($f:ty) => {
				match &x.base {
					Ok(b) => BaseExpWitness::<P<U>>::new_with_dynamic_base::<PackedType<U, $f>>(bits, col(b, x.n, x.level)),
					Err(b) => BaseExpWitness::<P<U>>::new_with_static_base::<PackedType<U, $f>>(bits, <$f>::try_from(*b).ok().unwrap()),
				}
			};
		}
		let wit = match x.level {
			3 => go!(BinaryField8b),
			4 => go!(BinaryField16b),
			5 => go!(BinaryField32b),
			6 => go!(BinaryField64b),
			_ => go!(B128),
		}
		.map_err(|e| format!("witness refused: {e}"))?;
		let r = wit.exponentiation_result_witness();
		ck_eq!(r.n_vars(), x.n, "variables");
		for (j, o) in x.out.iter().enumerate() {
			ck_eq!(r.evaluate_on_hypercube(j).unwrap(), *o, "exponentiation result of row {j}");
		}
		ck_eq!(wit.uses_dynamic_base(), x.base.is_ok(), "kind of base");
		wits.push(wit);
		let mut eval = mle_at(&x.out, &x.point);
		if i == bad {
			eval += offset(s);
		}
		claims.push(ExpClaim { eval_point: x.point.clone(), eval, exponent_bit_width: x.bits.len(), n_vars: x.n, static_base: x.base.as_ref().err().copied() });
	}
	let backend = make_portable_backend();
	let pre = s.u64();
	let mut t = ProverTranscript::<Ch>::new();
	t.observe().write_bytes(&pre.to_le_bytes());
	let out = gkr_exp::batch_prove::<_, _, BinaryField8b, _, _>(ord, wits, &claims, IsomorphicEvaluationDomainFactory::<BinaryField8b>::default(), &mut t, &backend);
	let out = match out {
		Ok(o) => o,
		Err(e) if honest => return Err(format!("prover failed: {e}")),
		Err(_) => return Ok(()),
	};
	// each layer leaves a claim on one exponent bit per exponentiation, and on its base when that is a column
	let truth = |o: &BaseExpReductionOutput<B128>| {
		let widest = xs.iter().map(|x| x.bits.len()).max().unwrap();
		if o.layers_claims.len() != widest {
			return false;
		}
		o.layers_claims.iter().enumerate().all(|(l, cs)| {
			let mut it = cs.iter();
			for x in xs.iter().filter(|x| x.bits.len() > l) {
				let bit = if x.base.is_ok() { &x.bits[l] } else { &x.bits[x.bits.len() - 1 - l] };
				for v in [Some(bit), x.base.as_ref().ok()].into_iter().flatten() {
					let Some(c) = it.next() else { return false };
					if c.eval_point.len() != x.n || mle_at(v, &c.eval_point) != c.eval {
						return false;
					}
				}
			}
			it.next().is_none()
		})
	};
	if honest {
		ck!(truth(&out), "prover's own output is false");
	}
	let next = t.sample();
	let tape = t.finalize();
	audit(s, &tape, honest, next, &truth, &|v: &mut VerifierTranscript<Ch>| {
		v.observe().write_bytes(&pre.to_le_bytes());
		gkr_exp::batch_verify(ord, &claims, v).map_err(|e| e.to_string())
	})
}

// ------------------------------------------------------------------------------------------------

macro_rules! layers_on {
	($s:ident, $hal:ty, $holder:expr) => {{
	type Hal = $hal;
	let s: &mut Src = $s;
	let mut holder = $holder;
	let n = s.range(0, if s.thorough { 11 } else { 8 });
	let v = nonzero_vals(s, 1 << n);
	s.desc(format!("{n} variables"));
	s.nontrivial_if(n > 1);
	let ComputeData { hal, dev_alloc, host_alloc, .. } = holder.to_data();
	let mut d = dev_alloc.alloc(v.len()).map_err(|e| e.to_string())?;
	hal.copy_h2d(&v, &mut d).map_err(|e| e.to_string())?;
	let l = ProductCircuitLayers::compute::<Hal>(<Hal as ComputeLayer<B128>>::DevMem::to_const(d), hal, &dev_alloc, &host_alloc).map_err(|e| e.to_string())?;
	ck_eq!(l.product(), v.iter().copied().product::<B128>(), "product");
	ck_eq!(l.layers().len(), n, "number of layers");
	let mut want = v;
	for layer in l.layers().iter().rev() {
		ck_eq!(layer.len(), want.len(), "layer length");
		let got = host_alloc.alloc(want.len()).map_err(|e| e.to_string())?;
		hal.copy_d2h(*layer, got).map_err(|e| e.to_string())?;
		ck!(got == &want[..], "layer of {} values", want.len());
		let h = want.len() / 2;
		want = (0..h).map(|i| want[i] * want[i + h]).collect();
	}
	Ok(())
	}};
}
fn layers(s: &mut Src) -> Res {
	match s.index(3) {
		0 => layers_on!(s, CpuLayer<B128>, CpuLayerHolder::<B128>::new(1 << 12, 1 << 13)),
		1 => layers_on!(s, FastCpuLayer<CanonicalTowerFamily, PackedBinaryField1x128b>, FastCpuLayerHolder::<CanonicalTowerFamily, PackedBinaryField1x128b>::new(1 << 12, 1 << 13)),
		_ => layers_on!(s, FastCpuLayer<CanonicalTowerFamily, PackedBinaryField2x128b>, FastCpuLayerHolder::<CanonicalTowerFamily, PackedBinaryField2x128b>::new(1 << 12, 1 << 13)),
	}
}

macro_rules! under {
	($s:ident, $f:ident) => {{
		use binius_field::arch::{OptimalUnderlier128b, OptimalUnderlier256b, OptimalUnderlier512b};
		match $s.index(3) {
			0 => $f::<OptimalUnderlier128b>($s),
			1 => $f::<OptimalUnderlier256b>($s),
			_ => $f::<OptimalUnderlier512b>($s),
		}
	}};
}
fn products(s: &mut Src) -> Res {
	under!(s, gpa)
}
fn exponents(s: &mut Src) -> Res {
	under!(s, exp)
}

fn main() {
	run(Prop {
		id: "C19",
		rule: "some product has at least four factors, or some exponent at least two bits",
		assumptions: &[
			"scalar field arithmetic (C06), transcripts (C16)",
			"a false claim or altered proof is accepted by chance with probability below 2^-100 per case",
			"static exponentiation base 1 is left out",
		],
		subs: vec![
			Sub { name: "products", quick: 14000, thorough: 560000, threads: 0, f: products },
			Sub { name: "exponents", quick: 4000, thorough: 160000, threads: 0, f: exponents },
			Sub { name: "layers", quick: 20000, thorough: 800000, threads: 0, f: layers },
		],
	});
}
