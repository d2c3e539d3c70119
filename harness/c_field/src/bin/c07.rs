//! C07: packed field arithmetic is lane-wise scalar arithmetic.
use binius_field::{
	arithmetic_traits::{InvertOrZero, MulAlpha, Square},
	packed::{PackedBinaryField, mul_by_subfield_scalar},
	underlier::WithUnderlier,
};
use c_field::*;

fn same<P: PackedField>(p: P, want: impl IntoIterator<Item = P::Scalar>, what: &str) -> Res {
	for (i, w) in want.into_iter().enumerate() {
		let g = p.get(i);
		ck!(g == w, "{what}: lane {i} is {g:?}, scalar arithmetic gives {w:?}");
	}
	Ok(())
}

fn arith_one<P: PackedField<Scalar: Fd>>(s: &mut Src) -> Res {
	let (p, a) = draw_packed::<P>(s);
	let (q, b) = draw_packed::<P>(s);
	let c = P::Scalar::draw(s);
	s.label(std::any::type_name::<P>().rsplit("::").next().unwrap_or("").trim_end_matches('>').to_string());
	s.desc(format!(
		"{} width {} of {}: a={:x?} b={:x?} c={:x}",
		std::any::type_name::<P>(),
		P::WIDTH,
		P::Scalar::NAME,
		a.iter().map(|x| x.raw()).collect::<Vec<_>>(),
		b.iter().map(|x| x.raw()).collect::<Vec<_>>(),
		c.raw()
	));
	s.nontrivial_if(a.iter().zip(&b).any(|(x, y)| x.raw() != 0 && y.raw() != 0));
	let z = |f: &dyn Fn(P::Scalar, P::Scalar) -> P::Scalar| -> Vec<P::Scalar> { a.iter().zip(&b).map(|(x, y)| f(*x, *y)).collect() };
	let m = |f: &dyn Fn(P::Scalar) -> P::Scalar| -> Vec<P::Scalar> { a.iter().map(|x| f(*x)).collect() };
	let rm = |x: P::Scalar, y: P::Scalar| P::Scalar::of(P::Scalar::ref_mul(x.raw(), y.raw()));
	same(p + q, z(&|x, y| x + y), "a + b")?;
	same(p - q, z(&|x, y| x + y), "a - b")?;
	same(p * q, z(&rm), "a * b")?;
	let mut t = p;
	t += q;
	same(t, z(&|x, y| x + y), "a += b")?;
	t = p;
	t -= q;
	same(t, z(&|x, y| x + y), "a -= b")?;
	t = p;
	t *= q;
	same(t, z(&rm), "a *= b")?;
	same(p + c, m(&|x| x + c), "a + scalar")?;
	same(p - c, m(&|x| x + c), "a - scalar")?;
	same(p * c, m(&|x| rm(x, c)), "a * scalar")?;
	t = p;
	t += c;
	same(t, m(&|x| x + c), "a += scalar")?;
	t = p;
	t -= c;
	same(t, m(&|x| x + c), "a -= scalar")?;
	t = p;
	t *= c;
	same(t, m(&|x| rm(x, c)), "a *= scalar")?;
	same(PackedField::square(p), m(&|x| rm(x, x)), "square")?;
	let inv = PackedField::invert_or_zero(p);
	for i in 0..P::WIDTH {
		let (x, y) = (a[i], inv.get(i));
		if x.raw() == 0 {
			ck!(y.raw() == 0, "invert_or_zero: lane {i} holds zero but gives {y:?}");
		} else {
			ck!(P::Scalar::ref_mul(x.raw(), y.raw()) == P::Scalar::ref_one(), "invert_or_zero: lane {i} of {x:?} gives {y:?}");
		}
	}
	same(P::broadcast(c), m(&|_| c), "broadcast")?;
	same(P::zero(), m(&|_| P::Scalar::ZERO), "zero")?;
	same(P::one(), m(&|_| P::Scalar::ONE), "one")?;
	same(P::default(), m(&|_| P::Scalar::ZERO), "default")?;
	same([p, q, p].into_iter().sum::<P>(), b.clone(), "sum")?;
	same([p, q].into_iter().product::<P>(), z(&rm), "product")?;
	let e = if s.bool() { s.range(0, 9) as u64 } else { s.special_u64() };
	same(PackedField::pow(p, e), m(&|x| Field::pow(&x, [e])), "pow")?;
	ck_eq!(p == q, a == b, "equality");
	Ok(())
}

fn arith(s: &mut Src) -> Res {
	macro_rules! fns { ($($t:ident)*) => { [$(arith_one::<$t> as CaseFn),*] } }
	let fs = packed_list!(fns);
	s.pick(&fs)(s)
}

/// multiplication by the tower's alpha on packed values
fn alpha_one<P: PackedField<Scalar: Fd> + MulAlpha>(s: &mut Src) -> Res {
	let (p, a) = draw_packed::<P>(s);
	s.desc(format!("{} a={:x?}", std::any::type_name::<P>(), a.iter().map(|x| x.raw()).collect::<Vec<_>>()));
	s.nontrivial_if(a.iter().any(|x| x.raw() > 1));
	let r = MulAlpha::mul_alpha(p);
	for i in 0..P::WIDTH {
		let w = if P::Scalar::TOWER_LEVEL == 0 { a[i] } else { a[i].mul_primitive(P::Scalar::TOWER_LEVEL - 1).map_err(|e| e.to_string())? };
		ck!(r.get(i) == w, "mul_alpha lane {i}: {:?} expected {w:?}", r.get(i));
	}
	Ok(())
}
fn alpha(s: &mut Src) -> Res {
	macro_rules! fns { ($($t:ident)*) => { [$(alpha_one::<$t> as CaseFn),*] } }
	let fs = fns! {
		PackedBinaryField8x1b PackedBinaryField4x2b PackedBinaryField2x4b PackedBinaryField1x8b
		PackedBinaryField4x4b PackedBinaryField2x8b PackedBinaryField1x16b
		PackedBinaryField8x4b PackedBinaryField4x8b PackedBinaryField2x16b PackedBinaryField1x32b
		PackedBinaryField16x4b PackedBinaryField8x8b PackedBinaryField4x16b PackedBinaryField2x32b PackedBinaryField1x64b
		PackedBinaryField64x2b PackedBinaryField32x4b PackedBinaryField16x8b
		PackedBinaryField8x16b PackedBinaryField4x32b PackedBinaryField2x64b PackedBinaryField1x128b
		PackedBinaryField128x2b PackedBinaryField64x4b PackedBinaryField32x8b PackedBinaryField16x16b
		PackedBinaryField8x32b PackedBinaryField4x64b PackedBinaryField2x128b
		PackedBinaryField256x2b PackedBinaryField128x4b PackedBinaryField64x8b PackedBinaryField32x16b
		PackedBinaryField16x32b PackedBinaryField8x64b PackedBinaryField4x128b
		PackedAESBinaryField16x8b PackedAESBinaryField8x16b PackedAESBinaryField4x32b PackedAESBinaryField2x64b
		PackedAESBinaryField1x128b PackedAESBinaryField32x8b PackedAESBinaryField16x16b PackedAESBinaryField8x32b
		PackedAESBinaryField4x64b PackedAESBinaryField2x128b PackedAESBinaryField64x8b PackedAESBinaryField4x128b
		PackedAESBinaryField8x8b PackedAESBinaryField4x16b PackedAESBinaryField2x32b PackedAESBinaryField1x64b
	};
	s.pick(&fs)(s)
}

/// operations mixing a packed extension with its subfield packing
fn subfield_one<PE, F: Fd>(s: &mut Src) -> Res
where
	PE: PackedExtension<F> + PackedField<Scalar: Fd + ExtensionField<F>> + WithUnderlier,
{
	let log_n = s.range(0, 2);
	let deg = <PE::Scalar as ExtensionField<F>>::DEGREE;
	let nsub = 1usize << log_n;
	let n = nsub * deg;
	let mut lhs = Vec::with_capacity(n);
	let mut ls = Vec::new();
	for _ in 0..n {
		let (p, v) = draw_packed::<PE>(s);
		lhs.push(p);
		ls.extend(v);
	}
	let mut rhs = Vec::new();
	let mut rs: Vec<F> = Vec::new();
	for _ in 0..nsub {
		let (p, v) = draw_packed::<PE::PackedSubfield>(s);
		rhs.push(p);
		rs.extend(v);
	}
	let c = F::draw(s);
	s.desc(format!("{} over {}: {} elements, first scalars {:x?} {:x?}", std::any::type_name::<PE>(), F::NAME, n, ls[0].raw(), rs[0].raw()));
	s.label(format!("{}/{}", PE::Scalar::NAME, F::NAME));
	s.nontrivial_if(ls.iter().zip(&rs).any(|(x, y)| x.raw() > 1 && y.raw() != 0));
	let rm = |x: PE::Scalar, y: F| PE::Scalar::of(PE::Scalar::ref_mul(x.raw(), PE::Scalar::from(y).raw()));
	for par in [false, true] {
		let mut out = lhs.clone();
		let r = if par { ext_base_mul_par::<PE, F>(&mut out, &rhs) } else { ext_base_mul::<PE, F>(&mut out, &rhs) };
		ck!(r.is_ok(), "ext_base_mul refused matching lengths: {r:?}");
		for i in 0..n * PE::WIDTH {
			let g = out[i / PE::WIDTH].get(i % PE::WIDTH);
			ck!(g == rm(ls[i], rs[i]), "ext_base_mul(par={par}) scalar {i}: {g:?}, expected {:?}", rm(ls[i], rs[i]));
		}
	}
	let mut short = lhs.clone();
	short.pop();
	ck!(ext_base_mul::<PE, F>(&mut short, &rhs).is_err(), "ext_base_mul accepted mismatched lengths");
	let r = mul_by_subfield_scalar::<PE, F>(lhs[0], c);
	same(r, ls[..PE::WIDTH].iter().map(|x| rm(*x, c)), "mul_by_subfield_scalar")?;
	// the subfield view lists the coordinates in order
	let flat: Vec<F> = ls.iter().flat_map(|x| ExtensionField::<F>::into_iter_bases(*x)).collect();
	let cast = PE::cast_bases(&lhs);
	let got: Vec<F> = PackedField::iter_slice(cast).collect();
	ck!(got == flat, "cast_bases does not list the coordinates in order");
	ck!(PE::cast_exts(cast) == &lhs[..], "cast_exts inverts cast_bases");
	ck!(PE::cast_ext(PE::cast_base(lhs[0])) == lhs[0], "cast_ext inverts cast_base");
	Ok(())
}
fn subfield(s: &mut Src) -> Res {
	macro_rules! fns { ($($p:ident / $f:ident),* $(,)?) => { [$(subfield_one::<$p, $f> as CaseFn),*] } }
	let fs = fns!(
		PackedBinaryField1x128b / BinaryField1b, PackedBinaryField1x128b / BinaryField8b, PackedBinaryField1x128b / BinaryField16b,
		PackedBinaryField1x128b / BinaryField32b, PackedBinaryField1x128b / BinaryField64b, PackedBinaryField1x128b / BinaryField128b,
		PackedBinaryField2x128b / BinaryField1b, PackedBinaryField2x128b / BinaryField8b, PackedBinaryField2x128b / BinaryField16b,
		PackedBinaryField2x128b / BinaryField32b, PackedBinaryField2x128b / BinaryField64b,
		PackedBinaryField4x128b / BinaryField1b, PackedBinaryField4x128b / BinaryField8b, PackedBinaryField4x128b / BinaryField32b,
		PackedBinaryField4x32b / BinaryField1b, PackedBinaryField4x32b / BinaryField8b, PackedBinaryField8x32b / BinaryField16b,
		PackedBinaryField8x16b / BinaryField2b, PackedBinaryField8x16b / BinaryField4b, PackedBinaryField8x16b / BinaryField8b,
		PackedBinaryField16x16b / BinaryField8b, PackedBinaryField4x64b / BinaryField32b, PackedBinaryField16x8b / BinaryField1b,
		PackedAESBinaryField1x128b / AESTowerField8b, PackedAESBinaryField2x128b / AESTowerField16b,
		PackedAESBinaryField8x32b / AESTowerField8b, PackedAESBinaryField4x128b / AESTowerField64b,
		PackedAESBinaryField16x8b / BinaryField1b, PackedAESBinaryField2x64b / BinaryField1b,
		ByteSlicedAES16x128b / AESTowerField8b, ByteSlicedAES32x128b / AESTowerField16b, ByteSlicedAES64x128b / AESTowerField64b, ByteSlicedAES16x128b / BinaryField1b,
	);
	s.pick(&fs)(s)
}

/// inner products over packed slices
fn inner_one<PX: PackedField<Scalar: Fd + ExtensionField<PY::Scalar>>, PY: PackedField<Scalar: Fd>>(s: &mut Src) -> Res {
	use binius_field::util::inner_product_par;
	// scalars: mostly small, sometimes large enough for the chunked path
	let big = s.chance(1, 12);
	let log = if big { 10 + PY::LOG_WIDTH + s.range(0, 1) } else { s.range(PX::LOG_WIDTH.max(PY::LOG_WIDTH), 9.max(PX::LOG_WIDTH.max(PY::LOG_WIDTH))) };
	let n = 1usize << log;
	let mut b = s.bulk();
	let xs_s: Vec<PX::Scalar> = (0..n).map(|_| PX::Scalar::next(&mut b)).collect();
	let ys_s: Vec<PY::Scalar> = (0..n).map(|_| PY::Scalar::next(&mut b)).collect();
	let xs: Vec<PX> = xs_s.chunks(PX::WIDTH).map(|c| PX::from_scalars(c.iter().copied())).collect();
	let ys: Vec<PY> = ys_s.chunks(PY::WIDTH).map(|c| PY::from_scalars(c.iter().copied())).collect();
	// an xs shorter than ys is allowed
	let keep = if s.chance(1, 4) { s.range(0, xs.len()) } else { xs.len() };
	s.desc(format!("{} . {}: {} scalars, {} packed x kept", std::any::type_name::<PX>(), std::any::type_name::<PY>(), n, keep));
	s.label_if(big, "chunked");
	s.nontrivial_if(b.is_dense() && keep > 0);
	let want: PX::Scalar = xs_s[..keep * PX::WIDTH].iter().zip(&ys_s).map(|(x, y)| *x * *y).sum();
	let got: PX::Scalar = inner_product_par(&xs[..keep], &ys);
	ck_eq!(got, want, "inner_product_par");
	Ok(())
}
fn inner(s: &mut Src) -> Res {
	macro_rules! fns { ($($p:ident . $f:ident),* $(,)?) => { [$(inner_one::<$p, $f> as CaseFn),*] } }
	let fs = fns!(
		PackedBinaryField1x128b . PackedBinaryField1x128b, PackedBinaryField2x128b . PackedBinaryField2x128b,
		BinaryField128b . PackedBinaryField4x32b, PackedBinaryField1x128b . PackedBinaryField16x8b,
		PackedBinaryField2x128b . PackedBinaryField4x64b, BinaryField128b . PackedBinaryField128x1b,
		PackedBinaryField8x16b . PackedBinaryField8x16b, PackedBinaryField4x32b . PackedBinaryField16x8b,
	);
	s.pick(&fs)(s)
}

/// all packings of a tower agree on the same scalars: splitting a wide vector into narrow ones
fn width_agreement(s: &mut Src) -> Res {
	fn go<W: PackedField<Scalar: Fd>, N: PackedField<Scalar = W::Scalar>>(s: &mut Src) -> Res
	where
		W: PackedDivisible<N>,
		W: PackedBinaryField,
	{
		let (p, a) = draw_packed::<W>(s);
		let (q, _) = draw_packed::<W>(s);
		s.desc(format!("{} as {}", std::any::type_name::<W>(), std::any::type_name::<N>()));
		s.nontrivial_if(a.iter().any(|x| x.raw() > 1));
		let (pa, qa) = ([p], [q]);
		let (ps, qs) = (W::divide(&pa), W::divide(&qa));
		ck_eq!(PackedField::iter_slice(ps).collect::<Vec<_>>(), a.clone(), "division keeps scalar order");
		let prod = [p * q];
		let inv = [PackedField::invert_or_zero(p)];
		let sq = [PackedField::square(p)];
		for i in 0..ps.len() {
			ck!(W::divide(&prod)[i] == ps[i] * qs[i], "product differs between widths in part {i}");
			ck!(W::divide(&inv)[i] == PackedField::invert_or_zero(ps[i]), "inverse differs between widths in part {i}");
			ck!(W::divide(&sq)[i] == PackedField::square(ps[i]), "square differs between widths in part {i}");
		}
		let mut w = [p];
		let k = s.index(ps.len());
		W::divide_mut(&mut w)[k] = N::zero();
		for (i, v) in lanes(&w[0]).into_iter().enumerate() {
			let e = if i / N::WIDTH == k { W::Scalar::ZERO } else { a[i] };
			ck!(v == e, "divide_mut write lands in lane {i}");
		}
		Ok(())
	}
	macro_rules! fns { ($($p:ident / $f:ident),* $(,)?) => { [$(go::<$p, $f> as CaseFn),*] } }
	let fs = fns!(
		PackedBinaryField2x128b / PackedBinaryField1x128b, PackedBinaryField4x128b / PackedBinaryField1x128b,
		PackedBinaryField4x128b / PackedBinaryField2x128b, PackedBinaryField64x8b / PackedBinaryField16x8b,
		PackedBinaryField16x32b / PackedBinaryField4x32b, PackedBinaryField512x1b / PackedBinaryField128x1b,
		PackedBinaryField256x1b / PackedBinaryField64x1b, PackedBinaryField16x16b / PackedBinaryField8x16b,
		PackedBinaryField8x64b / PackedBinaryField4x64b, PackedBinaryField16x8b / PackedBinaryField4x8b,
		PackedBinaryField2x64b / PackedBinaryField1x64b, PackedAESBinaryField64x8b / PackedAESBinaryField16x8b,
		PackedAESBinaryField2x128b / PackedAESBinaryField1x128b, PackedBinaryPolyval4x128b / PackedBinaryPolyval1x128b,
		PackedBinaryPolyval2x128b / PackedBinaryPolyval1x128b, PackedBinaryField128x4b / PackedBinaryField32x4b,
		PackedBinaryField256x2b / PackedBinaryField64x2b,
	);
	s.pick(&fs)(s)
}

fn main() {
	let _ = (Square::square as fn(BinaryField8b) -> BinaryField8b, InvertOrZero::invert_or_zero as fn(BinaryField8b) -> BinaryField8b);
	run(Prop {
		id: "C07",
		rule: "a packed type with generated lanes in which at least one lane pair is non-zero on both sides (arith), or one lane is outside GF(2) (the other sub-checks)",
		assumptions: &["lane reads through get() are right (decided by C08)", "the reference multiplication is the mathematical definition (as in C06)"],
		subs: vec![
			Sub { name: "arith", quick: 90000, thorough: 2000000, threads: 0, f: arith },
			Sub { name: "alpha", quick: 200000, thorough: 4000000, threads: 0, f: alpha },
			Sub { name: "subfield", quick: 18000, thorough: 360000, threads: 0, f: subfield },
			Sub { name: "inner", quick: 10000, thorough: 200000, threads: 0, f: inner },
			Sub { name: "width_agreement", quick: 200000, thorough: 4000000, threads: 0, f: width_agreement },
		],
	})
}
