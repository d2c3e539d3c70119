//! Multilinear extensions, tensor expansions and folds against naive evaluation.
use std::mem::MaybeUninit;

use binius_field::{
	ExtensionField, Field, PackedField, RepackedExtension,
	arch::{
		packed_8::*, packed_16::*, packed_32::*, packed_64::*, packed_128::*, packed_256::*, packed_512::*,
		packed_aes_128::*, packed_aes_256::*, packed_polyval_128::*, packed_polyval_256::*,
	},
	*,
};
use binius_math::{
	MLEDirectAdapter, MultilinearExtension, MultilinearPoly, MultilinearQuery, eq_ind_partial_eval,
	evaluate_piecewise_multilinear, extrapolate_line_scalar, fold_left, fold_left_lerp, fold_left_lerp_inplace, fold_middle,
	fold_right, fold_right_lerp, tensor_prod_eq_ind,
};
use c_math::*;

type Sc<P> = <P as PackedField>::Scalar;

/// Values over the hypercube of `values ⊗ eq(point)`.
fn tensor<F: Field>(values: &[F], point: &[F]) -> Vec<F> {
	let n = values.len();
	(0..n << point.len())
		.map(|i| {
			let mut v = values[i % n];
			for (k, r) in point.iter().enumerate() {
				v *= if (i / n) >> k & 1 == 1 { *r } else { F::ONE + *r };
			}
			v
		})
		.collect()
}
/// Contracts variables `at..at+log_q` of `evals` with the vector `q`.
fn contract<F: Field, FE: ExtensionField<F>>(evals: &[F], at: usize, log_q: usize, q: &[FE]) -> Vec<FE> {
	(0..evals.len() >> log_q)
		.map(|o| {
			let (lo, hi) = (o & ((1 << at) - 1), o >> at);
			(0..1usize << log_q).map(|k| q[k] * evals[hi << (at + log_q) | k << at | lo]).sum()
		})
		.collect()
}
fn special<F: Fd>(s: &mut Src, n: usize) -> Vec<F> {
	(0..n)
		.map(|_| match s.weighted(&[6, 1, 1]) {
			0 => F::draw(s),
			1 => F::ZERO,
			_ => F::ONE,
		})
		.collect()
}
/// Scalars of a generated evaluation vector of 2^n entries, packed with arbitrary unused lanes.
fn gen_evals<P: PackedField<Scalar: Fd>>(s: &mut Src, n: usize) -> (Vec<Sc<P>>, Vec<P>) {
	let len = 1usize << n.saturating_sub(P::LOG_WIDTH);
	let all: Vec<Sc<P>> = vals(s, len << P::LOG_WIDTH);
	let p = packed::<P>(&all);
	(all[..1 << n].to_vec(), p)
}
fn first<P: PackedField>(p: &[P], n: usize) -> Vec<Sc<P>> {
	p.iter().flat_map(|x| x.iter()).take(n).collect()
}
fn diff<F: PartialEq + std::fmt::Debug>(got: &[F], want: &[F], what: &str) -> Res {
	ck_eq!(got.len(), want.len(), "{what}: length");
	for i in 0..got.len() {
		ck!(got[i] == want[i], "{what}: entry {i} is {:?}, expected {:?}", got[i], want[i]);
	}
	Ok(())
}
fn max_vars(s: &Src) -> usize {
	if s.thorough { 12 } else { 10 }
}
/// A number of variables spread around the packing widths.
fn n_vars(s: &mut Src) -> usize {
	let m = max_vars(s);
	if s.chance(1, 3) { s.range(0, 4) } else { s.range(0, m) }
}

fn queries<P: PackedField<Scalar: Fd>>(s: &mut Src) -> Res {
	let n0 = s.range(0, 5);
	let k = s.range(0, max_vars(s) - n0);
	let pt: Vec<Sc<P>> = special(s, k);
	s.desc(format!("width {} {} n0 {n0} k {k}", P::WIDTH, Sc::<P>::NAME));
	s.nontrivial_if(k > 0);
	let one = [Sc::<P>::ONE];
	let want = tensor(&one, &pt);
	diff(&first(&eq_ind_partial_eval::<P>(&pt), 1 << k), &want, "eq_ind_partial_eval")?;
	let q = MultilinearQuery::<P>::expand(&pt);
	ck_eq!(q.n_vars(), k, "query variables");
	diff(&first(q.expansion(), 1 << k), &want, "MultilinearQuery::expand")?;
	// the same point added in pieces, with room to spare
	let spare = s.range(0, 2);
	let mut q = MultilinearQuery::<P>::with_capacity(k + spare);
	let mut at = 0;
	while at < k {
		let step = s.range(1, k - at);
		q = q.update(&pt[at..at + step]).map_err(|e| format!("update within capacity refused: {e}"))?;
		at += step;
		diff(&first(q.expansion(), 1 << at), &want_prefix(&pt[..at]), "MultilinearQuery::update")?;
	}
	// one variable more than the capacity is refused once the packed width is exceeded
	if k + spare >= P::LOG_WIDTH {
		let extra: Vec<Sc<P>> = special(s, spare + 1);
		ck!(q.update(&extra).is_err(), "update past the capacity was accepted");
	}
	// tensor product with an arbitrary vector
	let (v, _) = gen_evals::<P>(s, n0);
	let len = 1usize << (n0 + k).saturating_sub(P::LOG_WIDTH);
	let mut buf: Vec<P> = vals_packed(s, len);
	for (i, x) in v.iter().enumerate() {
		binius_field::packed::set_packed_slice(&mut buf, i, *x);
	}
	tensor_prod_eq_ind(n0, &mut buf, &pt).map_err(|e| format!("tensor_prod_eq_ind refused: {e}"))?;
	diff(&first(&buf, 1 << (n0 + k)), &tensor(&v, &pt), "tensor_prod_eq_ind")?;
	buf.push(P::zero());
	ck!(tensor_prod_eq_ind(n0, &mut buf, &pt).is_err(), "tensor_prod_eq_ind accepted a wrong length");
	Ok(())
}
fn want_prefix<F: Field>(pt: &[F]) -> Vec<F> {
	tensor(&[F::ONE], pt)
}
fn vals_packed<P: PackedField<Scalar: Fd>>(s: &mut Src, n: usize) -> Vec<P> {
	packed(&vals::<Sc<P>>(s, n << P::LOG_WIDTH))
}

/// `fold_right`, `fold_left` and `fold_middle` are contractions with the query vector, whatever it is.
fn folds<P, PE>(s: &mut Src) -> Res
where
	P: PackedField<Scalar: Fd>,
	PE: PackedField<Scalar: Fd + ExtensionField<Sc<P>>>,
{
	let n = n_vars(s);
	let k = if s.chance(1, 6) { 1.min(n) } else { s.range(0, n.min(9)) };
	let at = s.range(0, n - k);
	let (ev, evp) = gen_evals::<P>(s, n);
	let as_point = s.bool();
	let pt: Vec<Sc<PE>> = special(s, k);
	let qlen = 1usize << k.saturating_sub(PE::LOG_WIDTH);
	let qp: Vec<PE> = if as_point { eq_ind_partial_eval::<PE>(&pt) } else { vals_packed(s, qlen) };
	let q = first(&qp, 1 << k);
	s.desc(format!("{}x{} by {}x{}: n {n} query {k} at {at}, {}", P::WIDTH, Sc::<P>::NAME, PE::WIDTH, Sc::<PE>::NAME, if as_point { "point" } else { "arbitrary vector" }));
	s.nontrivial_if(k > 0);
	s.label(format!("query vars {k}"));
	let m = 1usize << (n - k);
	let olen = 1usize << (n - k).saturating_sub(PE::LOG_WIDTH);
	let mut out: Vec<PE> = vals_packed(s, olen);
	fold_right(&evp, n, &qp, k, &mut out).map_err(|e| format!("fold_right refused: {e}"))?;
	diff(&first(&out, m), &contract(&ev, 0, k, &q), "fold_right")?;
	let mut out: Vec<MaybeUninit<PE>> = vals_packed::<PE>(s, olen).into_iter().map(MaybeUninit::new).collect();
	fold_left(&evp, n, &qp, k, &mut out).map_err(|e| format!("fold_left refused: {e}"))?;
	let got: Vec<PE> = out.iter().map(|x| unsafe { x.assume_init() }).collect();
	diff(&first(&got, m), &contract(&ev, n - k, k, &q), "fold_left")?;
	let mut out: Vec<MaybeUninit<PE>> = vals_packed::<PE>(s, olen).into_iter().map(MaybeUninit::new).collect();
	fold_middle(&evp, n, &qp, k, at, &mut out).map_err(|e| format!("fold_middle refused: {e}"))?;
	let got: Vec<PE> = out.iter().map(|x| unsafe { x.assume_init() }).collect();
	diff(&first(&got, m), &contract(&ev, at, k, &q), "fold_middle")?;
	// argument lengths that cannot hold the data are refused
	if n > P::LOG_WIDTH {
		let mut o: Vec<PE> = vec![PE::zero(); olen];
		ck!(fold_right(&evp[..evp.len() - 1], n, &qp, k, &mut o).is_err(), "fold_right accepted too few evaluations");
	}
	if n - k > PE::LOG_WIDTH {
		let mut o: Vec<PE> = vec![PE::zero(); olen - 1];
		ck!(fold_right(&evp, n, &qp, k, &mut o).is_err(), "fold_right accepted a short output");
	}
	if k > PE::LOG_WIDTH {
		let mut o: Vec<PE> = vec![PE::zero(); olen];
		ck!(fold_right(&evp, n, &qp[..qp.len() - 1], k, &mut o).is_err(), "fold_right accepted a short query");
	}
	let mut o: Vec<MaybeUninit<PE>> = vec![MaybeUninit::uninit(); olen];
	ck!(fold_middle(&evp, n, &qp, k, n - k + 1, &mut o).is_err(), "fold_middle accepted a start index too high");
	Ok(())
}

/// Single-variable folds of a vector known up to a prefix, with a constant suffix.
fn lerps<P, PE>(s: &mut Src) -> Res
where
	P: PackedField<Scalar: Fd>,
	PE: PackedField<Scalar: Fd + ExtensionField<Sc<P>>>,
{
	let n = s.range(1, max_vars(s));
	let size = 1usize << n;
	let prefix = match s.weighted(&[2, 1, 1, 3]) {
		0 => size,
		1 => size / 2,
		2 => (size / 2 + 1).min(size),
		_ => s.range(0, size),
	};
	let suffix = Sc::<P>::draw(s);
	let r = special::<Sc<PE>>(s, 1)[0];
	s.desc(format!("{}x{} by {}: n {n} prefix {prefix} suffix {suffix:?} r {r:?}", P::WIDTH, Sc::<P>::NAME, Sc::<PE>::NAME));
	s.nontrivial_if(prefix > 0);
	s.label(if prefix == size { "full" } else if prefix > size / 2 { "past half" } else { "below half" });
	// lanes past the prefix hold the suffix value
	let mut v: Vec<Sc<P>> = vals(s, prefix);
	let mut full = v.clone();
	full.resize(size, suffix);
	v.resize(prefix.div_ceil(P::WIDTH) << P::LOG_WIDTH, suffix);
	let evp: Vec<P> = packed(&v);
	let lerp = |a: Sc<PE>, b: Sc<PE>| a + (b + a) * r;
	let e = |x: Sc<P>| Sc::<PE>::from(x);
	// right: neighbouring pairs
	let olen = prefix.div_ceil(2).div_ceil(PE::WIDTH);
	let mut out: Vec<PE> = vals_packed(s, olen);
	fold_right_lerp(&evp, prefix, r, suffix, &mut out).map_err(|e| format!("fold_right_lerp refused: {e}"))?;
	let want: Vec<Sc<PE>> = (0..prefix.div_ceil(2)).map(|i| lerp(e(full[2 * i]), e(full[2 * i + 1]))).collect();
	diff(&first(&out, want.len()), &want, "fold_right_lerp")?;
	if olen > 0 && prefix > 2 * (olen - 1) * PE::WIDTH {
		ck!(fold_right_lerp(&evp, prefix, r, suffix, &mut out[..olen - 1]).is_err(), "fold_right_lerp accepted a short output");
	}
	Ok(())
}

fn left_lerps<P: PackedField<Scalar: Fd>>(s: &mut Src) -> Res {
	let n = s.range(1, max_vars(s));
	let size = 1usize << n;
	let prefix = match s.weighted(&[2, 1, 1, 3]) {
		0 => size,
		1 => size / 2,
		2 => (size / 2 + 1).min(size),
		_ => s.range(0, size),
	};
	let suffix = Sc::<P>::draw(s);
	let r = special::<Sc<P>>(s, 1)[0];
	s.desc(format!("{}x{}: n {n} prefix {prefix} suffix {suffix:?} r {r:?}", P::WIDTH, Sc::<P>::NAME));
	s.nontrivial_if(prefix > 0);
	s.label(if prefix == size { "full" } else if prefix > size / 2 { "past half" } else { "below half" });
	let mut v: Vec<Sc<P>> = vals(s, prefix);
	let mut full = v.clone();
	full.resize(size, suffix);
	v.resize(prefix.div_ceil(P::WIDTH) << P::LOG_WIDTH, suffix);
	let evp: Vec<P> = packed(&v);
	let lerp = |a: Sc<P>, b: Sc<P>| a + (b + a) * r;
	let half = size / 2;
	let fp = prefix.min(half);
	let want: Vec<Sc<P>> = (0..fp).map(|i| lerp(full[i], full[i + half])).collect();
	let olen = fp.div_ceil(P::WIDTH);
	let mut out: Vec<MaybeUninit<P>> = vals_packed::<P>(s, olen).into_iter().map(MaybeUninit::new).collect();
	fold_left_lerp(&evp, prefix, suffix, n, r, &mut out).map_err(|e| format!("fold_left_lerp refused: {e}"))?;
	let got: Vec<P> = out.iter().map(|x| unsafe { x.assume_init() }).collect();
	diff(&first(&got, fp), &want, "fold_left_lerp")?;
	let mut inp = evp.clone();
	fold_left_lerp_inplace(&mut inp, prefix, suffix, n, r).map_err(|e| format!("fold_left_lerp_inplace refused: {e}"))?;
	diff(&first(&inp, fp), &want, "fold_left_lerp_inplace")?;
	// a fold continued on its own result: all n variables
	let mut cur = evp.clone();
	let mut left = prefix;
	let mut model = full.clone();
	for m in (1..=n).rev() {
		let r: Sc<P> = special(s, 1)[0];
		fold_left_lerp_inplace(&mut cur, left, suffix, m, r).map_err(|e| format!("repeated fold refused at {m}: {e}"))?;
		let h = model.len() / 2;
		model = (0..h).map(|i| model[i] + (model[i] + model[i + h]) * r).collect();
		left = left.min(h);
		diff(&first(&cur, left), &model[..left], "repeated fold_left_lerp_inplace")?;
		if left < h {
			ck!(model[left..].iter().all(|x| *x == suffix), "model suffix");
		}
	}
	ck!(fold_left_lerp(&evp, size + 1, suffix, n, r, &mut out).is_err(), "fold_left_lerp accepted a prefix longer than the vector");
	Ok(())
}

/// `MultilinearExtension` and its trait objects.
fn polys<P, PE>(s: &mut Src) -> Res
where
	P: PackedField<Scalar: Fd>,
	PE: PackedField<Scalar: Fd + ExtensionField<Sc<P>>> + RepackedExtension<P>,
{
	let n = n_vars(s);
	let (ev, evp) = gen_evals::<P>(s, n);
	s.desc(format!("{}x{} in {}x{}: n {n}", P::WIDTH, Sc::<P>::NAME, PE::WIDTH, Sc::<PE>::NAME));
	s.nontrivial_if(n > 0);
	s.label(if n < P::LOG_WIDTH { "sub-packed" } else { "packed" });
	let mle = MultilinearExtension::new(n, evp.clone()).map_err(|e| format!("new refused: {e}"))?;
	ck!(MultilinearExtension::new(n.max(P::LOG_WIDTH) + 1, evp.clone()).is_err(), "new accepted a wrong number of variables");
	for _ in 0..4 {
		let i = s.index(1 << n);
		ck_eq!(mle.evaluate_on_hypercube(i).ok(), Some(ev[i]), "evaluate_on_hypercube({i})");
	}
	ck!(mle.evaluate_on_hypercube(1 << n).is_err(), "evaluate_on_hypercube accepted an index past the end");
	let pt: Vec<Sc<PE>> = special(s, n);
	let q = MultilinearQuery::<PE>::expand(&pt);
	let ext: Vec<Sc<PE>> = ev.iter().map(|x| (*x).into()).collect();
	let want = contract(&ev, 0, n, &tensor(&[Sc::<PE>::ONE], &pt))[0];
	ck_eq!(mle.evaluate(q.to_ref()).ok(), Some(want), "evaluate");
	let longer = MultilinearQuery::<PE>::expand(&special(s, n + 1));
	ck!(mle.evaluate::<Sc<PE>, PE>(longer.to_ref()).is_err(), "evaluate accepted a query of another size");

	// partial evaluations, with the extension and with the trait object
	let k = s.range(0, n.min(8));
	let at = s.range(0, n - k);
	let kpt: Vec<Sc<PE>> = special(s, k);
	let kq = MultilinearQuery::<PE>::expand(&kpt);
	let t = tensor(&[Sc::<PE>::ONE], &kpt);
	let m = 1usize << (n - k);
	let low = mle.evaluate_partial_low(kq.to_ref()).map_err(|e| format!("evaluate_partial_low: {e}"))?;
	ck_eq!(low.n_vars(), n - k, "variables left");
	diff(&first(low.evals(), m), &contract(&ev, 0, k, &t), "evaluate_partial_low")?;
	let high = mle.evaluate_partial_high(kq.to_ref()).map_err(|e| format!("evaluate_partial_high: {e}"))?;
	diff(&first(high.evals(), m), &contract(&ev, n - k, k, &t), "evaluate_partial_high")?;
	let mid = mle.evaluate_partial(kq.to_ref(), at).map_err(|e| format!("evaluate_partial: {e}"))?;
	diff(&first(mid.evals(), m), &contract(&ev, at, k, &t), "evaluate_partial")?;
	ck!(mle.evaluate_partial(kq.to_ref(), n - k + 1).is_err(), "evaluate_partial accepted a start index too high");

	// zero padding
	let pad = s.range(0, 4);
	let idx = s.index(1 << pad);
	let zat = s.range(0, n);
	let zp: MultilinearExtension<PE> = mle.zero_pad(pad, zat, idx).map_err(|e| format!("zero_pad: {e}"))?;
	let want: Vec<Sc<PE>> = (0..1usize << (n + pad))
		.map(|i| {
			let (lo, mid, hi) = (i & ((1 << zat) - 1), i >> zat & ((1 << pad) - 1), i >> (zat + pad));
			if mid == idx { ext[hi << zat | lo] } else { Sc::<PE>::ZERO }
		})
		.collect();
	diff(&first(zp.evals(), want.len()), &want, "zero_pad")?;
	ck!(mle.zero_pad::<PE>(pad, n + 1, idx).is_err(), "zero_pad accepted a start index past the end");
	ck!(mle.zero_pad::<PE>(pad, zat, 1 << pad).is_err(), "zero_pad accepted an index out of range");

	// trait objects
	let obj = mle.clone().specialize::<PE>();
	object::<PE, _>(s, &obj, n, &ext, <Sc<PE> as ExtensionField<Sc<P>>>::LOG_DEGREE, "embedding adapter", |lo, b| {
		<Sc<PE> as ExtensionField<Sc<P>>>::from_bases_sparse(b.iter().map(|i| ev[*i]), lo).unwrap()
	})?;
	// the raw data behind it
	let raw = obj.packed_evals();
	if let Some(r) = raw {
		let d = PE::cast_bases(r);
		diff(&first(d, 1 << n), &ev, "packed_evals")?;
	}
	let (dv, dp) = gen_evals::<PE>(s, n);
	let dir = MLEDirectAdapter::from(MultilinearExtension::new(n, dp).unwrap());
	object::<PE, _>(s, &dir, n, &dv, 0, "direct adapter", |_, b| dv[b[0]])?;
	Ok(())
}

fn object<PE, M>(
	s: &mut Src,
	obj: &M,
	n: usize,
	ext: &[Sc<PE>],
	max_embed: usize,
	name: &str,
	embed: impl Fn(usize, &[usize]) -> Sc<PE>,
) -> Res
where
	PE: PackedField<Scalar: Fd>,
	M: MultilinearPoly<PE>,
{
	ck_eq!(obj.n_vars(), n, "{name}: n_vars");
	ck_eq!(obj.size(), 1usize << n, "{name}: size");
	ck_eq!(obj.log_extension_degree(), max_embed, "{name}: log_extension_degree");
	let i = s.index(1 << n);
	let c = Sc::<PE>::draw(s);
	ck_eq!(obj.evaluate_on_hypercube(i).ok(), Some(ext[i]), "{name}: evaluate_on_hypercube");
	ck_eq!(obj.evaluate_on_hypercube_and_scale(i, c).ok(), Some(ext[i] * c), "{name}: evaluate_on_hypercube_and_scale");
	ck!(obj.evaluate_on_hypercube(1 << n).is_err(), "{name}: index past the end accepted");
	let pt: Vec<Sc<PE>> = special(s, n);
	let q = MultilinearQuery::<PE>::expand(&pt);
	ck_eq!(obj.evaluate(q.to_ref()).ok(), Some(contract(ext, 0, n, &tensor(&[Sc::<PE>::ONE], &pt))[0]), "{name}: evaluate");
	let k = s.range(0, n.min(6));
	let kpt: Vec<Sc<PE>> = special(s, k);
	let kq = MultilinearQuery::<PE>::expand(&kpt);
	let t = tensor(&[Sc::<PE>::ONE], &kpt);
	let at = s.range(0, n - k);
	let m = 1usize << (n - k);
	let lo = contract(ext, 0, k, &t);
	let hi = contract(ext, n - k, k, &t);
	let e = |e: binius_math::Error| format!("{name}: refused: {e}");
	diff(&first(obj.evaluate_partial_low(kq.to_ref()).map_err(e)?.evals(), m), &lo, "evaluate_partial_low of the object")?;
	diff(&first(obj.evaluate_partial_high(kq.to_ref()).map_err(e)?.evals(), m), &hi, "evaluate_partial_high of the object")?;
	diff(&first(obj.evaluate_partial(kq.to_ref(), at).map_err(e)?.evals(), m), &contract(ext, at, k, &t), "evaluate_partial of the object")?;
	// subcubes
	let sv = s.range(0, n - k);
	let si = s.index(1 << (n - k - sv));
	let len = 1usize << sv.saturating_sub(PE::LOG_WIDTH);
	let mut buf: Vec<PE> = vals_packed(s, len);
	obj.subcube_partial_low_evals(kq.to_ref(), sv, si, &mut buf).map_err(e)?;
	diff(&first(&buf, 1 << sv), &lo[si << sv..(si + 1) << sv], "subcube_partial_low_evals")?;
	let mut buf: Vec<PE> = vals_packed(s, len);
	obj.subcube_partial_high_evals(kq.to_ref(), sv, si, &mut buf).map_err(e)?;
	diff(&first(&buf, 1 << sv), &hi[si << sv..(si + 1) << sv], "subcube_partial_high_evals")?;
	ck!(obj.subcube_partial_low_evals(kq.to_ref(), sv, 1 << (n - k - sv), &mut buf).is_err(), "{name}: subcube index past the end accepted");
	let sv = s.range(0, n);
	let si = s.index(1 << (n - sv));
	let emb = s.range(0, max_embed);
	let len = 1usize << sv.saturating_sub(emb + PE::LOG_WIDTH);
	let mut buf: Vec<PE> = vals_packed(s, len);
	obj.subcube_evals(sv, si, emb, &mut buf).map_err(e)?;
	let cnt = 1usize << sv.saturating_sub(emb);
	let want: Vec<Sc<PE>> = (0..cnt)
		.map(|o| {
			if emb == 0 {
				return ext[(si << sv) + o];
			}
			let ids: Vec<usize> = (0..(1usize << emb).min(1 << sv)).map(|j| (si << sv) + (o << emb) + j).collect();
			embed(max_embed - emb, &ids)
		})
		.collect();
	diff(&first(&buf, cnt), &want, "subcube_evals")?;
	ck!(obj.subcube_evals(sv, 1 << (n - sv), emb, &mut buf).is_err(), "{name}: subcube_evals index past the end accepted");
	ck!(obj.subcube_evals(n + 1, 0, 0, &mut buf).is_err(), "{name}: subcube larger than the cube accepted");
	ck!(obj.subcube_evals(sv, si, max_embed + 1, &mut buf).is_err(), "{name}: embedding degree too large accepted");
	Ok(())
}

fn piecewise<F: Fd>(s: &mut Src) -> Res {
	let n = s.range(0, 10);
	let point: Vec<F> = special(s, n);
	let mut left = 1usize << n;
	let mut pieces: Vec<Vec<F>> = vec![];
	let max_piece = s.range(0, n);
	let mut counts = vec![0usize; s.range(max_piece, n) + 1];
	for k in (0..=max_piece).rev() {
		let c = match s.weighted(&[2, 2, 1]) {
			0 => 0,
			1 => (left >> k).min(1),
			_ => s.range(0, (left >> k).min(5)),
		};
		counts[k] = c;
		for _ in 0..c {
			left -= 1 << k;
			pieces.push(vals(s, 1 << k));
		}
	}
	if pieces.is_empty() {
		// no piece: not a polynomial this function is used for
		s.discard();
		return Ok(());
	}
	s.desc(format!("{} n {n} pieces {counts:?}", F::NAME));
	s.nontrivial_if(pieces.len() > 1);
	let mut evals: Vec<F> = pieces
		.iter()
		.map(|p| {
			let k = p.len().trailing_zeros() as usize;
			contract(p, 0, k, &tensor(&[F::ONE], &point[..k]))[0]
		})
		.collect();
	let mut cat: Vec<F> = pieces.concat();
	cat.resize(1 << n, F::ZERO);
	let want = contract(&cat, 0, n, &tensor(&[F::ONE], &point))[0];
	let mut extra = evals.clone();
	extra.push(F::ZERO);
	let got = evaluate_piecewise_multilinear(&point, &counts, &mut evals);
	ck_eq!(got.ok(), Some(want), "piecewise evaluation");
	ck!(evaluate_piecewise_multilinear(&point, &counts, &mut extra).is_err(), "too many piece evaluations accepted");
	let mut big = counts.clone();
	big.resize(n + 1, 0);
	big[n] += 1;
	let mut ev2: Vec<F> = vals(s, big.iter().sum());
	ck!(evaluate_piecewise_multilinear(&point, &big, &mut ev2).is_err(), "more coefficients than the cube accepted");
	let (a, b, z) = (F::draw(s), F::draw(s), F::draw(s));
	ck_eq!(extrapolate_line_scalar::<F, F>(a, b, z), a + (a + b) * z, "extrapolate_line_scalar");
	Ok(())
}

macro_rules! dispatch {
	($name:ident $f:ident [$($p:ty, $pe:ty;)*]) => {
		fn $name(s: &mut Src) -> Res {
			let fs: &[fn(&mut Src) -> Res] = &[$($f::<$p, $pe>),*];
			let i = s.index(fs.len());
			fs[i](s)
		}
	};
	($name:ident $f:ident one [$($p:ty;)*]) => {
		fn $name(s: &mut Src) -> Res {
			let fs: &[fn(&mut Src) -> Res] = &[$($f::<$p>),*];
			let i = s.index(fs.len());
			fs[i](s)
		}
	};
}
dispatch!(queries_all queries one [
	BinaryField1b; BinaryField8b; BinaryField128b; PackedBinaryField8x1b; PackedBinaryField64x2b; PackedBinaryField16x8b; PackedBinaryField4x32b;
	PackedBinaryField1x128b; PackedBinaryField2x128b; PackedBinaryField4x128b; PackedBinaryField8x64b; PackedAESBinaryField16x8b;
	PackedAESBinaryField2x128b; PackedBinaryPolyval1x128b; PackedBinaryPolyval2x128b; ByteSlicedAES16x128b; ByteSlicedAES32x8b;
]);
dispatch!(folds_all folds [
	PackedBinaryField8x1b, PackedBinaryField1x128b;
	PackedBinaryField128x1b, PackedBinaryField1x128b;
	PackedBinaryField128x1b, PackedBinaryField2x128b;
	PackedBinaryField256x1b, PackedBinaryField2x128b;
	PackedBinaryField64x1b, PackedBinaryField2x128b;
	PackedBinaryField512x1b, PackedBinaryField4x128b;
	PackedBinaryField256x1b, PackedBinaryPolyval2x128b;
	PackedBinaryField256x1b, PackedAESBinaryField2x128b;
	PackedBinaryField256x1b, PackedBinaryField32x8b;
	PackedBinaryField8x1b, PackedBinaryField32x8b;
	PackedBinaryField16x1b, PackedBinaryField64x8b;
	PackedBinaryField8x1b, ByteSlicedAES32x8b;
	PackedBinaryField32x1b, PackedBinaryField256x1b;
	PackedBinaryField4x1b, PackedBinaryField4x32b;
	BinaryField1b, BinaryField128b;
	ByteSliced16x128x1b, PackedAESBinaryField16x8b;
	PackedBinaryField64x2b, PackedBinaryField2x64b;
	PackedBinaryField16x8b, PackedBinaryField1x128b;
	PackedBinaryField16x8b, PackedBinaryField16x8b;
	PackedBinaryField8x16b, PackedBinaryField8x32b;
	PackedBinaryField4x32b, PackedBinaryField1x128b;
	PackedBinaryField2x128b, PackedBinaryField2x128b;
	PackedBinaryField4x128b, PackedBinaryField1x128b;
	PackedAESBinaryField32x8b, PackedAESBinaryField2x128b;
	ByteSlicedAES16x128b, ByteSlicedAES16x128b;
	ByteSlicedAES16x8b, ByteSlicedAES16x128b;
	PackedBinaryPolyval2x128b, PackedBinaryPolyval2x128b;
	BinaryField128b, BinaryField128b;
]);
dispatch!(lerps_all lerps [
	PackedBinaryField8x1b, PackedBinaryField1x128b;
	PackedBinaryField256x1b, PackedBinaryField2x128b;
	PackedBinaryField32x1b, PackedBinaryField32x8b;
	PackedBinaryField16x8b, PackedBinaryField1x128b;
	PackedBinaryField16x8b, PackedBinaryField16x8b;
	PackedBinaryField4x32b, PackedBinaryField4x64b;
	PackedBinaryField2x128b, PackedBinaryField2x128b;
	PackedAESBinaryField32x8b, PackedAESBinaryField2x128b;
	ByteSlicedAES16x128b, ByteSlicedAES16x128b;
	BinaryField32b, BinaryField128b;
]);
dispatch!(left_lerps_all left_lerps one [
	BinaryField8b; BinaryField128b; PackedBinaryField16x1b; PackedBinaryField16x8b; PackedBinaryField4x32b; PackedBinaryField1x128b;
	PackedBinaryField2x128b; PackedBinaryField4x128b; PackedAESBinaryField16x16b; PackedBinaryPolyval2x128b; ByteSlicedAES16x128b; ByteSlicedAES32x32b;
]);
dispatch!(polys_all polys [
	PackedBinaryField128x1b, PackedBinaryField1x128b;
	PackedBinaryField256x1b, PackedBinaryField2x128b;
	PackedBinaryField512x1b, PackedBinaryField4x128b;
	PackedBinaryField32x1b, PackedBinaryField2x16b;
	PackedBinaryField64x2b, PackedBinaryField4x32b;
	PackedBinaryField32x4b, PackedBinaryField1x128b;
	PackedBinaryField16x8b, PackedBinaryField1x128b;
	PackedBinaryField32x8b, PackedBinaryField2x128b;
	PackedBinaryField64x8b, PackedBinaryField16x32b;
	PackedBinaryField8x16b, PackedBinaryField2x64b;
	PackedBinaryField8x32b, PackedBinaryField2x128b;
	PackedBinaryField4x64b, PackedBinaryField2x128b;
	PackedBinaryField2x128b, PackedBinaryField2x128b;
	PackedBinaryField1x128b, PackedBinaryField1x128b;
	PackedAESBinaryField16x8b, PackedAESBinaryField1x128b;
	PackedAESBinaryField32x8b, PackedAESBinaryField8x32b;
	PackedBinaryPolyval2x128b, PackedBinaryPolyval2x128b;
	PackedBinaryField128x1b, PackedAESBinaryField16x8b;
	ByteSlicedAES16x16x8b, ByteSlicedAES16x128b;
]);
fn piecewise_all(s: &mut Src) -> Res {
	let fs: &[fn(&mut Src) -> Res] = &[piecewise::<BinaryField1b>, piecewise::<BinaryField8b>, piecewise::<BinaryField128b>, piecewise::<BinaryField128bPolyval>];
	let i = s.index(fs.len());
	fs[i](s)
}

fn main() {
	run(Prop {
		id: "C11",
		rule: "at least one variable is evaluated, folded or expanded (piecewise: at least two pieces)",
		assumptions: &["scalar field arithmetic (C06)", "up to 10 variables (quick) or 12 (thorough)"],
		subs: vec![
			Sub { name: "queries", quick: 12000, thorough: 200000, threads: 0, f: queries_all },
			Sub { name: "folds", quick: 24000, thorough: 300000, threads: 0, f: folds_all },
			Sub { name: "lerps", quick: 12000, thorough: 300000, threads: 0, f: lerps_all },
			Sub { name: "left_lerps", quick: 12000, thorough: 300000, threads: 0, f: left_lerps_all },
			Sub { name: "polys", quick: 10000, thorough: 200000, threads: 0, f: polys_all },
			Sub { name: "piecewise", quick: 20000, thorough: 300000, threads: 0, f: piecewise_all },
		],
	})
}
