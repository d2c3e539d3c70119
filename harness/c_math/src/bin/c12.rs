//! Univariate domains, matrices and binary subspaces against textbook definitions.
use binius_field::{
	ExtensionField, Field, PackedExtension, PackedField,
	arch::{packed_128::*, packed_256::*, packed_32::*, packed_64::*, packed_aes_128::*},
	*,
};
use binius_math::{
	BinarySubspace, DefaultEvaluationDomainFactory, EvaluationDomain, EvaluationDomainFactory, InterpolationDomain,
	IsomorphicEvaluationDomainFactory, Matrix, evaluate_univariate, extrapolate_line, extrapolate_lines,
};
use c_math::*;

fn power<F: Field>(x: F, e: usize) -> F {
	(0..e).fold(F::ONE, |a, _| a * x)
}
fn horner<F: Field>(c: &[F], x: F) -> F {
	c.iter().enumerate().map(|(i, c)| *c * power(x, i)).sum()
}
fn distinct<F: Fd>(s: &mut Src, n: usize) -> Vec<F> {
	let mut out: Vec<F> = vec![];
	let mut tries = 0;
	while out.len() < n && tries < 40 * n {
		tries += 1;
		let v = if s.chance(1, 4) { F::of(out.len() as u128 % (1u128 << F::BITS.min(16))) } else { F::draw(s) };
		if !out.contains(&v) {
			out.push(v);
		}
	}
	out
}

fn domains<F, P>(s: &mut Src) -> Res
where
	F: Fd,
	P: PackedField<Scalar: Fd + ExtensionField<F>> + PackedExtension<F>,
{
	type E<P> = <P as PackedField>::Scalar;
	let want = s.range(1, if F::BITS == 1 { 2 } else { 9 });
	let pts: Vec<F> = distinct(s, want);
	let n = pts.len();
	let inf = s.bool();
	let size = n + inf as usize;
	s.desc(format!("{} points of {} inf {inf} in {}x{}", n, F::NAME, P::WIDTH, E::<P>::NAME));
	s.nontrivial_if(size > 1);
	s.label_if(inf, "infinity");
	let dom = EvaluationDomain::from_points(pts.clone(), inf).map_err(|e| format!("distinct points refused: {e}"))?;
	ck_eq!(dom.size(), size, "size");
	ck_eq!(dom.finite_points(), &pts[..], "points");
	// per lane, a random polynomial of degree size - 1
	let coefs: Vec<Vec<E<P>>> = (0..P::WIDTH).map(|_| vals(s, size)).collect();
	let at = |k: usize| -> Vec<E<P>> {
		if k < n { coefs.iter().map(|c| horner(c, E::<P>::from(pts[k]))).collect() } else { coefs.iter().map(|c| c[size - 1]).collect() }
	};
	let values: Vec<P> = (0..size).map(|k| packed::<P>(&at(k))[0]).collect();
	let x = if s.chance(1, 3) { E::<P>::from(*s.pick(&pts)) } else { E::<P>::draw(s) };
	let got = dom.extrapolate(&values, x).map_err(|e| format!("extrapolate: {e}"))?;
	let exp: Vec<E<P>> = coefs.iter().map(|c| horner(c, x)).collect();
	ck_eq!(scalars(&[got]), exp.clone(), "extrapolate at {x:?}");
	ck!(dom.extrapolate(&values[..size - 1], x).is_err(), "extrapolate accepted too few values");
	// Lagrange basis of the finite points
	let lag = dom.lagrange_evals(x);
	ck_eq!(lag.len(), n, "number of Lagrange values");
	for i in 0..n {
		let num: E<P> = (0..n).filter(|j| *j != i).map(|j| x + E::<P>::from(pts[j])).product();
		let den: F = (0..n).filter(|j| *j != i).map(|j| pts[i] + pts[j]).product();
		ck_eq!(lag[i] * den, num, "Lagrange value {i}");
	}
	let id = InterpolationDomain::from(dom);
	ck_eq!(scalars(&[id.extrapolate(&values, x).map_err(|e| format!("{e}"))?]), exp, "InterpolationDomain::extrapolate");
	let lane = s.index(P::WIDTH);
	let v: Vec<E<P>> = (0..size).map(|k| at(k)[lane]).collect();
	ck_eq!(id.interpolate(&v).ok(), Some(coefs[lane].clone()), "interpolate");
	ck!(id.interpolate(&v[..size - 1]).is_err(), "interpolate accepted too few values");
	ck_eq!(evaluate_univariate(&coefs[lane], x), horner(&coefs[lane], x), "evaluate_univariate");
	// a repeated point is refused
	if n > 1 {
		let mut dup = pts.clone();
		let (i, j) = (s.index(n - 1), n - 1);
		dup[i] = dup[j];
		ck!(EvaluationDomain::from_points(dup, inf).is_err(), "a repeated point was accepted");
	}
	// lines
	let (a, b): (Vec<E<P>>, Vec<E<P>>) = (vals(s, P::WIDTH), vals(s, P::WIDTH));
	let (pa, pb) = (packed::<P>(&a)[0], packed::<P>(&b)[0]);
	let z = F::draw(s);
	let want: Vec<E<P>> = a.iter().zip(&b).map(|(a, b)| *a + (*a + *b) * z).collect();
	ck_eq!(scalars(&[extrapolate_line(pa, pb, z)]), want, "extrapolate_line");
	let zs: Vec<E<P>> = vals(s, P::WIDTH);
	let want: Vec<E<P>> = (0..P::WIDTH).map(|i| a[i] + (a[i] + b[i]) * zs[i]).collect();
	ck_eq!(scalars(&[extrapolate_lines(pa, pb, packed::<P>(&zs)[0])]), want, "extrapolate_lines");
	Ok(())
}

fn factories(s: &mut Src) -> Res {
	fn go<F: Fd, T: Fd + From<F> + Into<F>>(s: &mut Src) -> Res {
		let size = s.range(1, if F::BITS <= 4 { (1 << F::BITS) + 3 } else { 40 });
		let finite = if size >= 3 { size - 1 } else { size };
		let fits = F::BITS > 16 || finite <= 1usize << F::BITS;
		s.desc(format!("{} -> {} size {size}", F::NAME, T::NAME));
		s.nontrivial_if(size > 2);
		let d = EvaluationDomainFactory::<F>::create(&DefaultEvaluationDomainFactory::<F>::default(), size);
		ck_eq!(d.is_ok(), fits, "a domain of that size exists");
		let i = EvaluationDomainFactory::<T>::create(&IsomorphicEvaluationDomainFactory::<F>::default(), size);
		ck_eq!(i.is_ok(), fits, "an isomorphic domain of that size exists");
		if let (Ok(d), Ok(i)) = (d, i) {
			ck_eq!(d.size(), size, "size");
			ck_eq!(d.with_infinity(), size >= 3, "infinity");
			let want: Vec<F> = (0..finite).map(|k| F::of(k as u128)).collect();
			ck_eq!(d.finite_points(), &want[..], "points in order");
			let want: Vec<T> = want.into_iter().map(T::from).collect();
			ck_eq!(i.finite_points(), &want[..], "isomorphic points in order");
		}
		Ok(())
	}
	let fs: &[fn(&mut Src) -> Res] = &[
		go::<BinaryField1b, BinaryField1b>,
		go::<BinaryField2b, BinaryField2b>,
		go::<BinaryField4b, BinaryField4b>,
		go::<BinaryField8b, AESTowerField8b>,
		go::<AESTowerField8b, BinaryField8b>,
		go::<BinaryField16b, AESTowerField16b>,
		go::<BinaryField128b, BinaryField128bPolyval>,
		go::<AESTowerField128b, BinaryField128b>,
	];
	let i = s.index(fs.len());
	fs[i](s)
}

fn subspaces(s: &mut Src) -> Res {
	fn go<F: Fd, T: Fd + From<F>>(s: &mut Src) -> Res {
		let n = s.range(0, F::BITS.min(10));
		s.desc(format!("{} dim {n}", F::NAME));
		s.nontrivial_if(n > 1);
		let b = BinarySubspace::<F>::with_dim(n).map_err(|e| format!("with_dim({n}): {e}"))?;
		ck!(BinarySubspace::<F>::with_dim(F::BITS + 1).is_err(), "a subspace larger than the field was made");
		ck_eq!(BinarySubspace::<F>::default().dim(), F::BITS, "default dimension");
		ck_eq!(b.basis().to_vec(), BinarySubspace::<F>::default().basis()[..n].to_vec(), "prefix of the default basis");
		let basis: Vec<F> = if s.bool() { b.basis().to_vec() } else { (0..n).map(|_| F::draw(s)).collect() };
		let b = BinarySubspace::new_unchecked(basis.clone());
		ck_eq!(b.dim(), n, "dim");
		let at = |k: usize| -> F { (0..n).filter(|i| k >> i & 1 == 1).map(|i| basis[i]).sum() };
		let all: Vec<F> = b.iter().collect();
		ck_eq!(all.len(), 1usize << n, "number of elements");
		for _ in 0..6 {
			let k = s.index(1 << n);
			ck_eq!(all[k], at(k), "iter element {k}");
			ck_eq!(b.get(k), at(k), "get({k})");
			ck_eq!(b.get_checked(k).ok(), Some(at(k)), "get_checked({k})");
			ck_eq!(b.iter().nth(k), Some(at(k)), "iter().nth({k})");
			ck_eq!(b.iter().skip(k).next(), Some(at(k)), "iter().skip({k})");
		}
		let over = s.range(0, 5);
		ck!(b.get_checked((1 << n) + over).is_err(), "get_checked past the end");
		ck!(b.iter().nth((1 << n) + over).is_none(), "iter past the end");
		let m = s.range(0, n);
		ck_eq!(b.reduce_dim(m).map(|r| r.basis().to_vec()).ok(), Some(basis[..m].to_vec()), "reduce_dim");
		ck!(b.reduce_dim(n + 1).is_err(), "reduce_dim to a larger dimension");
		let iso: BinarySubspace<T> = b.isomorphic();
		ck_eq!(iso.iter().collect::<Vec<_>>(), all.into_iter().map(T::from).collect::<Vec<_>>(), "isomorphic");
		Ok(())
	}
	let fs: &[fn(&mut Src) -> Res] = &[
		go::<BinaryField1b, BinaryField8b>,
		go::<BinaryField4b, BinaryField16b>,
		go::<BinaryField8b, AESTowerField8b>,
		go::<AESTowerField16b, BinaryField16b>,
		go::<BinaryField32b, BinaryField128b>,
		go::<BinaryField128b, BinaryField128bPolyval>,
		go::<BinaryField128bPolyval, AESTowerField128b>,
	];
	let i = s.index(fs.len());
	fs[i](s)
}

fn matrices(s: &mut Src) -> Res {
	fn go<F: Fd, E: Fd + ExtensionField<F>>(s: &mut Src) -> Res {
		let (m, k, n) = (s.range(1, 7), s.range(1, 7), s.range(1, 7));
		s.desc(format!("{} {m}x{k}x{n}", F::NAME));
		s.nontrivial_if(m > 1 && k > 1);
		let (a, b): (Vec<F>, Vec<F>) = (vals(s, m * k), vals(s, k * n));
		let (ma, mb) = (Matrix::new(m, k, &a).unwrap(), Matrix::new(k, n, &b).unwrap());
		ck!(Matrix::new(m, k + 1, &a).is_err(), "a matrix with too few elements was made");
		let mut mc = Matrix::new(m, n, &vals::<F>(s, m * n)).unwrap();
		Matrix::mul_into(&ma, &mb, &mut mc);
		for i in 0..m {
			for j in 0..n {
				let w: F = (0..k).map(|t| a[i * k + t] * b[t * n + j]).sum();
				ck_eq!(mc[(i, j)], w, "product entry ({i},{j})");
			}
		}
		let x: Vec<E> = vals(s, k);
		let mut y: Vec<E> = vals(s, m);
		ma.mul_vec_into(&x, &mut y);
		for i in 0..m {
			let w: E = (0..k).map(|t| x[t] * a[i * k + t]).sum();
			ck_eq!(y[i], w, "matrix times vector, entry {i}");
		}
		// inverse: build a matrix of known rank
		let d = s.range(1, 6);
		let mut sq: Vec<F> = vals(s, d * d);
		if s.chance(1, 3) {
			// a dependent row, possibly after permuting
			let (i, j) = (s.index(d), s.index(d));
			let c = F::draw(s);
			for t in 0..d {
				sq[i * d + t] = if i == j { F::ZERO } else { sq[j * d + t] * c };
			}
		}
		if s.chance(1, 3) {
			// zero leading entries force pivoting
			let r = s.range(0, d - 1);
			for i in 0..r {
				sq[i * d] = F::ZERO;
			}
		}
		let rank = rank(&sq, d);
		let ms = Matrix::new(d, d, &sq).unwrap();
		let mut inv = Matrix::new(d, d, &vals::<F>(s, d * d)).unwrap();
		let r = ms.inverse_into(&mut inv);
		ck_eq!(r.is_ok(), rank == d, "inverse of a {d}x{d} matrix of rank {rank}");
		s.label(if rank == d { "regular" } else { "singular" });
		if rank == d {
			for i in 0..d {
				for j in 0..d {
					let w: F = (0..d).map(|t| sq[i * d + t] * inv[(t, j)]).sum();
					ck_eq!(w, if i == j { F::ONE } else { F::ZERO }, "A * A^-1 at ({i},{j})");
				}
			}
		}
		Ok(())
	}
	let fs: &[fn(&mut Src) -> Res] =
		&[go::<BinaryField1b, BinaryField128b>, go::<BinaryField8b, BinaryField32b>, go::<AESTowerField8b, AESTowerField128b>, go::<BinaryField128b, BinaryField128b>];
	let i = s.index(fs.len());
	fs[i](s)
}
fn rank<F: Field>(a: &[F], d: usize) -> usize {
	let mut rows: Vec<Vec<F>> = a.chunks(d).map(|r| r.to_vec()).collect();
	let mut rank = 0;
	for c in 0..d {
		let Some(p) = (rank..d).find(|r| rows[*r][c] != F::ZERO) else { continue };
		rows.swap(rank, p);
		let inv = rows[rank][c].invert().unwrap();
		for r in rank + 1..d {
			let f = rows[r][c] * inv;
			for t in 0..d {
				let v = rows[rank][t] * f;
				rows[r][t] += v;
			}
		}
		rank += 1;
	}
	rank
}

fn domains_all(s: &mut Src) -> Res {
	let fs: &[fn(&mut Src) -> Res] = &[
		domains::<BinaryField1b, BinaryField128b>,
		domains::<BinaryField1b, PackedBinaryField2x128b>,
		domains::<BinaryField8b, PackedBinaryField4x32b>,
		domains::<BinaryField8b, PackedBinaryField1x128b>,
		domains::<BinaryField8b, BinaryField8b>,
		domains::<BinaryField16b, PackedBinaryField2x16b>,
		domains::<BinaryField32b, PackedBinaryField1x64b>,
		domains::<AESTowerField8b, PackedAESBinaryField4x32b>,
		domains::<BinaryField128b, PackedBinaryField2x128b>,
	];
	let i = s.index(fs.len());
	fs[i](s)
}

fn main() {
	run(Prop {
		id: "C12",
		rule: "domains of at least two points, subspaces of dimension at least two, matrices with at least two rows and columns",
		assumptions: &["scalar field arithmetic (C06)", "domains up to 10 points, matrices up to 7 by 7"],
		subs: vec![
			Sub { name: "domains", quick: 150000, thorough: 2000000, threads: 0, f: domains_all },
			Sub { name: "factories", quick: 4000, thorough: 300000, threads: 0, f: factories },
			Sub { name: "subspaces", quick: 100000, thorough: 300000, threads: 0, f: subspaces },
			Sub { name: "matrices", quick: 300000, thorough: 2000000, threads: 0, f: matrices },
		],
	})
}
