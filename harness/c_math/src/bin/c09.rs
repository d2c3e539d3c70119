//! The additive NTT against direct evaluation of novel-basis polynomials.
use binius_field::{
	BinaryField, ExtensionField, PackedExtension, PackedField,
	arch::{packed_16::*, packed_32::*, packed_64::*, packed_128::*, packed_256::*, packed_512::*, packed_aes_128::*, packed_aes_256::*},
	*,
};
use binius_math::BinarySubspace;
use binius_ntt::{
	AdditiveNTT, DynamicDispatchNTT, NTTOptions, NTTShape, OddInterpolate, SingleThreadedNTT, ThreadingSettings, fri,
};
use c_math::{novel::*, *};

fn make<F: BinaryField>(s: &mut Src, log_domain: usize) -> DynamicDispatchNTT<F> {
	let k = s.range(0, 3);
	let precompute = s.bool();
	s.label(format!("{} threads, precompute {precompute}", 1 << k));
	DynamicDispatchNTT::new(log_domain, &NTTOptions {
		precompute_twiddles: precompute,
		thread_settings: if k == 0 {
			ThreadingSettings::SingleThreaded
		} else {
			ThreadingSettings::ExplicitThreadsCount { log_threads: k }
		},
	})
	.unwrap()
}

fn transform<P>(s: &mut Src) -> Res
where
	P: PackedField<Scalar: Fd>,
{
	type S<P> = <P as PackedField>::Scalar;
	let bits = S::<P>::BITS;
	let maxlog = if s.thorough { 11 } else { 9 };
	let log_domain = s.range(1, bits.min(maxlog + 3));
	let basis: Vec<S<P>> = BinarySubspace::<S<P>>::with_dim(log_domain).unwrap().basis().to_vec();
	let r = Ref::new(&basis);
	let ntt = make::<S<P>>(s, log_domain);
	let log_y = s.range(0, log_domain.min(maxlog));
	let coset_bits = s.range(0, (log_domain - log_y).min(6));
	let coset = if coset_bits == 0 { 0 } else { s.index(1 << coset_bits) };
	let skip = if s.chance(1, 2) { s.range(0, log_y) } else { 0 };
	let log_x = s.weighted(&[4, 2, 2, 1, 1]);
	let log_z = s.weighted(&[4, 2, 2, 1]);
	let n = log_x + log_y + log_z;
	let len = 1usize << n.saturating_sub(P::LOG_WIDTH);
	s.desc(format!("width {} of {}: log_domain {log_domain} x {log_x} y {log_y} z {log_z} coset {coset}/{coset_bits} skip {skip}", P::WIDTH, S::<P>::NAME));
	let data: Vec<S<P>> = vals(s, (len << P::LOG_WIDTH).max(1 << n));
	let shape = NTTShape { log_x, log_y, log_z };
	let mut buf: Vec<P> = packed(&data);
	let input = buf.clone();
	ntt.forward_transform(&mut buf, shape, coset, coset_bits, skip)
		.map_err(|e| format!("forward transform refused valid parameters: {e}"))?;
	let out = scalars(&buf);
	s.nontrivial_if(log_y > skip);
	s.label(if n < P::LOG_WIDTH { "sub-packed" } else { "packed" });
	// which outputs to compare
	let (ym, xz) = (1usize << log_y, 1usize << (log_x + log_z));
	let budget = 128usize;
	let sub = log_y - skip;
	for t in 0..(ym * xz).min(budget) {
		let k = if ym * xz <= budget { t } else { s.index(ym * xz) };
		let (x, y, z) = (k & ((1 << log_x) - 1), k >> log_x & (ym - 1), k >> (log_x + log_y));
		// with skipped rounds the column is 2^skip independent transforms on neighbouring cosets
		let chunk = y >> sub;
		let coef: Vec<_> = (0..1usize << sub).map(|i| data[x | (chunk << sub | i) << log_x | z << (log_x + log_y)]).collect();
		let want = r.at(&coef, sub, coset << skip | chunk, coset_bits + skip, y & ((1 << sub) - 1));
		ck_eq!(out[k], want, "forward transform, column ({x},{z}) at {y}");
	}
	ntt.inverse_transform(&mut buf, shape, coset, coset_bits, skip)
		.map_err(|e| format!("inverse transform refused valid parameters: {e}"))?;
	ck_eq!(&scalars(&buf)[..1 << n], &scalars(&input)[..1 << n], "inverse of the forward transform");
	// and the other way round
	let mut b2 = input.clone();
	ntt.inverse_transform(&mut b2, shape, coset, coset_bits, skip).map_err(|e| e.to_string())?;
	ntt.forward_transform(&mut b2, shape, coset, coset_bits, skip).map_err(|e| e.to_string())?;
	ck_eq!(&scalars(&b2)[..1 << n], &scalars(&input)[..1 << n], "forward of the inverse transform");
	Ok(())
}

macro_rules! pick_ty {
	($s:ident, $f:ident, $($t:ty),* $(,)?) => {{
		let fs: &[fn(&mut Src) -> Res] = &[$($f::<$t>),*];
		let i = $s.index(fs.len());
		fs[i]($s)
	}};
}

fn forward_inverse(s: &mut Src) -> Res {
	pick_ty!(s, transform,
		BinaryField8b, BinaryField16b, BinaryField32b, BinaryField128b, AESTowerField8b, AESTowerField32b,
		PackedBinaryField2x8b, PackedBinaryField4x8b, PackedBinaryField2x32b, PackedBinaryField8x8b,
		PackedBinaryField16x8b, PackedBinaryField8x16b, PackedBinaryField4x32b, PackedBinaryField2x64b,
		PackedBinaryField32x8b, PackedBinaryField16x16b, PackedBinaryField8x32b, PackedBinaryField4x64b, PackedBinaryField2x128b,
		PackedBinaryField64x8b, PackedBinaryField16x32b, PackedBinaryField4x128b,
		PackedAESBinaryField16x8b, PackedAESBinaryField4x32b, PackedAESBinaryField32x8b, PackedAESBinaryField16x16b,
	)
}

/// Transforms over a subfield domain of data in an extension field act on each coordinate.
fn ext<P, PE, F, FE>(s: &mut Src) -> Res
where
	F: Fd,
	FE: Fd + ExtensionField<F>,
	P: PackedField<Scalar = F>,
	PE: PackedExtension<F, PackedSubfield = P> + PackedField<Scalar = FE>,
{
	let log_domain = s.range(1, F::BITS.min(8));
	let ntt = make::<F>(s, log_domain);
	let basis: Vec<F> = BinarySubspace::<F>::with_dim(log_domain).unwrap().basis().to_vec();
	let r = Ref::new(&basis.iter().map(|b| FE::from(*b)).collect::<Vec<_>>());
	let log_y = s.range(0, log_domain.min(6));
	let coset_bits = s.range(0, log_domain - log_y);
	let coset = if coset_bits == 0 { 0 } else { s.index(1 << coset_bits) };
	let log_x = s.range(0, 2);
	let n = (log_x + log_y).max(PE::LOG_WIDTH);
	let log_z = n - log_x - log_y;
	let data: Vec<FE> = vals(s, 1 << n);
	s.desc(format!("{} in {}: log_domain {log_domain} x {log_x} y {log_y} z {log_z} coset {coset}/{coset_bits}", FE::NAME, F::NAME));
	let shape = NTTShape { log_x, log_y, log_z };
	let mut buf: Vec<PE> = packed(&data);
	ntt.forward_transform_ext(&mut buf, shape, coset, coset_bits, 0).map_err(|e| format!("refused: {e}"))?;
	let out = scalars(&buf);
	s.nontrivial_if(log_y > 0);
	for k in 0..1usize << n {
		let (x, y, z) = (k & ((1 << log_x) - 1), k >> log_x & ((1 << log_y) - 1), k >> (log_x + log_y));
		let coef: Vec<_> = (0..1usize << log_y).map(|i| data[x | i << log_x | z << (log_x + log_y)]).collect();
		ck_eq!(out[k], r.at(&coef, log_y, coset, coset_bits, y), "extension transform at {k}");
	}
	ntt.inverse_transform_ext(&mut buf, shape, coset, coset_bits, 0).map_err(|e| format!("refused: {e}"))?;
	ck_eq!(scalars(&buf), data, "inverse of the extension transform");
	Ok(())
}
fn extension(s: &mut Src) -> Res {
	let fs: &[fn(&mut Src) -> Res] = &[
		ext::<PackedBinaryField16x8b, PackedBinaryField1x128b, BinaryField8b, BinaryField128b>,
		ext::<PackedBinaryField4x32b, PackedBinaryField1x128b, BinaryField32b, BinaryField128b>,
		ext::<PackedBinaryField8x32b, PackedBinaryField2x128b, BinaryField32b, BinaryField128b>,
		ext::<PackedBinaryField16x16b, PackedBinaryField8x32b, BinaryField16b, BinaryField32b>,
		ext::<PackedBinaryField64x8b, PackedBinaryField8x64b, BinaryField8b, BinaryField64b>,
		ext::<PackedAESBinaryField16x8b, PackedAESBinaryField2x64b, AESTowerField8b, AESTowerField64b>,
		ext::<PackedBinaryField1x128b, PackedBinaryField1x128b, BinaryField128b, BinaryField128b>,
	];
	let i = s.index(fs.len());
	fs[i](s)
}

/// The subspaces the NTT reports are the domains of its transforms, for any domain containing 1.
fn subspaces(s: &mut Src) -> Res {
	type F = BinaryField32b;
	let dim = s.range(1, 12);
	// a random basis of independent elements starting with 1
	let mut basis = vec![F::ONE];
	let custom = s.bool();
	if custom {
		let mut b = s.stream();
		let mut span = vec![F::ZERO, F::ONE];
		while basis.len() < dim {
			let v = <F as Fd>::of(b.u128() & 0xffff_ffff);
			if span.contains(&v) {
				continue;
			}
			let more: Vec<F> = span.iter().map(|x| *x + v).collect();
			span.extend(more);
			basis.push(v);
		}
	} else {
		basis = BinarySubspace::<F>::with_dim(dim).unwrap().basis().to_vec();
	}
	s.desc(format!("dim {dim}, custom {custom}"));
	s.nontrivial_if(dim > 1);
	let r = Ref::new(&basis);
	let sub = BinarySubspace::new_unchecked(basis.clone());
	let ntt = SingleThreadedNTT::with_subspace(&sub).map_err(|e| format!("domain refused: {e}"))?;
	ck_eq!(ntt.log_domain_size(), dim, "domain size");
	let pre = ntt.precompute_twiddles();
	for i in 1..=dim {
		ck_eq!(ntt.subspace(i).basis().to_vec(), r.dom(i).to_vec(), "subspace of dimension {i}");
		ck_eq!(pre.subspace(i).basis().to_vec(), r.dom(i).to_vec(), "subspace of dimension {i} (precomputed)");
		for _ in 0..4 {
			// twiddle j is the point whose index is 2j
			let j = s.index(1 << (i - 1));
			let want = point(r.dom(i), j << 1);
			ck_eq!(ntt.get_subspace_eval(i, j), want, "subspace evaluation ({i}, {j})");
			ck_eq!(pre.get_subspace_eval(i, j), want, "subspace evaluation ({i}, {j}) (precomputed)");
		}
	}
	let log_y = s.range(0, dim.min(6));
	let mut data: Vec<F> = vals(s, 1 << log_y);
	let coef = data.clone();
	ntt.forward_transform(&mut data, NTTShape { log_y, ..Default::default() }, 0, dim - log_y, 0).map_err(|e| e.to_string())?;
	for (y, v) in data.iter().enumerate() {
		ck_eq!(*v, r.at(&coef, log_y, 0, dim - log_y, y), "transform on a custom domain at {y}");
	}
	Ok(())
}

/// Interpolation from d 2^l values recovers the polynomial.
fn odd(s: &mut Src) -> Res {
	type F = BinaryField32b;
	let ell = s.range(0, 4);
	let d = s.range(1, 9);
	let cb = (usize::BITS - (d - 1).leading_zeros()) as usize;
	let coset_bits = s.range(cb, cb + 2);
	let log_domain = s.range(coset_bits + ell, coset_bits + ell + 2).max(1);
	s.desc(format!("{d} x 2^{ell}, coset_bits {coset_bits}, log_domain {log_domain}"));
	s.nontrivial_if(d > 1);
	let ntt = make::<F>(s, log_domain);
	let basis: Vec<F> = BinarySubspace::<F>::with_dim(log_domain).unwrap().basis().to_vec();
	let r = Ref::new(&basis);
	let b = r.dom(coset_bits + ell);
	let coef: Vec<F> = vals(s, d << ell);
	let k = coset_bits + ell;
	let mut data: Vec<F> = (0..d << ell)
		.map(|i| r.nov(k).at(k, point(b, i)).into_iter().zip(&coef).map(|(a, c)| a * *c).sum())
		.collect();
	let o = OddInterpolate::new(&ntt, d, ell, coset_bits).map_err(|e| format!("refused: {e}"))?;
	o.inverse_transform(&mut data).map_err(|e| format!("refused: {e}"))?;
	ck_eq!(data, coef, "interpolated coefficients");
	Ok(())
}

/// Folding a codeword gives the codeword of the folded message.
fn fold<P, FS>(s: &mut Src) -> Res
where
	FS: Fd,
	P: PackedField<Scalar: Fd + ExtensionField<FS>>,
{
	type S<P> = <P as PackedField>::Scalar;
	let log_dim = s.range(0, 5);
	let rate = s.range(0, 3);
	let log_len = log_dim + rate;
	let log_domain = (log_len + s.range(0, 2)).clamp(1, FS::BITS);
	if log_len > log_domain {
		s.discard();
		return Ok(());
	}
	let log_batch = {
		let b = s.range(0, 4);
		if b == 0 || b >= P::LOG_WIDTH { b } else { P::LOG_WIDTH }
	};
	if log_len + log_batch < P::LOG_WIDTH {
		s.discard();
		return Ok(());
	}
	let n_fold = s.range(0, log_dim);
	if n_fold + log_batch < P::LOG_WIDTH {
		s.discard();
		return Ok(());
	}
	let ntt = make::<FS>(s, log_domain);
	let basis: Vec<S<P>> =
		BinarySubspace::<FS>::with_dim(log_domain).unwrap().basis().iter().map(|b| S::<P>::from(*b)).collect();
	let r = Ref::new(&basis);
	let msg: Vec<S<P>> = vals(s, 1 << (log_dim + log_batch));
	let ch: Vec<S<P>> = (0..log_batch + n_fold).map(|_| Fd::draw(s)).collect();
	s.desc(format!("log_dim {log_dim} rate {rate} batch {log_batch} folds {n_fold} width {} over {}", P::WIDTH, FS::NAME));
	s.nontrivial_if(n_fold > 0);
	// message index = batch + 2^batch * coefficient; codeword alike
	let enc = |m: &[S<P>], ld: usize, y: usize| -> S<P> {
		// a codeword is the transform of the zero-padded coefficients on the whole domain
		let b = r.dom(ld + rate);
		r.nov(ld + rate).at(ld, point(b, y)).into_iter().zip(m).map(|(a, c)| a * *c).sum()
	};
	let mut code = vec![S::<P>::ZERO; 1 << (log_len + log_batch)];
	for y in 0..1usize << log_len {
		let b = r.dom(log_len);
		let nv = r.nov(log_len).at(log_dim, point(b, y));
		for x in 0..1usize << log_batch {
			code[y << log_batch | x] = nv.iter().enumerate().map(|(j, a)| *a * msg[j << log_batch | x]).sum();
		}
	}
	// fold the message by the same challenges, low variables first
	let mut f = msg.clone();
	for c in &ch {
		f = f.chunks(2).map(|p| p[0] + (p[1] - p[0]) * *c).collect();
	}
	let ld = log_dim - n_fold;
	let want: Vec<_> = (0..1usize << (log_len - n_fold)).map(|y| enc(&f, ld, y)).collect();
	let pc: Vec<P> = packed(&code);
	let got = fri::fold_interleaved(&ntt, &pc, &ch, log_len, log_batch);
	ck_eq!(got, want.clone(), "fold of the codeword against the codeword of the fold");
	// one chunk on its own
	let i = s.index(want.len());
	let w = log_batch + n_fold;
	let chunk = &code[i << w..(i + 1) << w];
	if log_batch == 0 {
		let mut v = chunk.to_vec();
		let one = fri::fold_chunk(&ntt, log_len, i, &mut v, &ch);
		ck_eq!(one, want[i], "fold of chunk {i}");
	}
	Ok(())
}
fn folding(s: &mut Src) -> Res {
	let fs: &[fn(&mut Src) -> Res] = &[
		fold::<BinaryField128b, BinaryField32b>,
		fold::<BinaryField128b, BinaryField8b>,
		fold::<BinaryField32b, BinaryField32b>,
		fold::<BinaryField64b, BinaryField16b>,
		fold::<PackedBinaryField1x128b, BinaryField32b>,
		fold::<PackedBinaryField2x128b, BinaryField32b>,
		fold::<PackedBinaryField4x128b, BinaryField32b>,
		fold::<PackedBinaryField4x32b, BinaryField16b>,
	];
	let i = s.index(fs.len());
	fs[i](s)
}

/// Parameters outside the contract are errors.
fn refusals(s: &mut Src) -> Res {
	type F = BinaryField16b;
	let log_domain = s.range(1, 8);
	let ntt = make::<F>(s, log_domain);
	let log_y = s.range(0, 10);
	let coset_bits = s.range(0, 6);
	let coset = s.range(0, 80);
	let skip = s.range(0, 12);
	let shape = NTTShape { log_x: 0, log_y, log_z: 0 };
	let valid = log_y + coset_bits <= log_domain && coset < 1 << coset_bits && skip <= log_y;
	s.desc(format!("log_domain {log_domain} y {log_y} coset {coset}/{coset_bits} skip {skip}"));
	s.nontrivial_if(!valid);
	let mut d: Vec<F> = vals(s, 1 << log_y);
	let a = no_panic(|| ntt.forward_transform(&mut d, shape, coset, coset_bits, skip).is_ok());
	ck_eq!(a.clone(), Ok(valid), "forward transform accepted the parameters");
	let b = no_panic(|| ntt.inverse_transform(&mut d, shape, coset, coset_bits, skip).is_ok());
	ck_eq!(b, Ok(valid), "inverse transform accepted the parameters");
	Ok(())
}

fn main() {
	run(Prop {
		id: "C09",
		rule: "the transform has at least one butterfly layer (folding: at least one fold; refusals: parameters out of range)",
		assumptions: &["scalar field arithmetic (C06)", "log sizes up to 9 (quick) or 11 (thorough)"],
		subs: vec![
			Sub { name: "forward_inverse", quick: 15000, thorough: 1500000, threads: 0, f: forward_inverse },
			Sub { name: "extension", quick: 12000, thorough: 300000, threads: 0, f: extension },
			Sub { name: "subspaces", quick: 6000, thorough: 100000, threads: 0, f: subspaces },
			Sub { name: "odd", quick: 15000, thorough: 300000, threads: 0, f: odd },
			Sub { name: "folding", quick: 8000, thorough: 600000, threads: 0, f: folding },
			Sub { name: "refusals", quick: 10000, thorough: 100000, threads: 0, f: refusals },
		],
	})
}
