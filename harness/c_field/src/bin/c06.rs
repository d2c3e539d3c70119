//! C06: scalar field arithmetic against the mathematical definition.
use binius_field::{
	arithmetic_traits::{InvertOrZero, Square},
	linear_transformation::{PackedTransformationFactory, Transformation},
};
use c_field::{refm::*, *};

fn pick<T: Copy>(s: &mut Src, xs: &[T]) -> T {
	*s.pick(xs)
}

fn laws_one<F: Fd>(s: &mut Src) -> Res {
	let (a, b) = (F::draw(s), F::draw(s));
	s.desc(format!("{} a={:#x} b={:#x}", F::NAME, a.raw(), b.raw()));
	s.label(F::NAME);
	s.nontrivial_if(a.raw() > 1 && b.raw() > 1 || F::BITS == 1);
	let (x, y) = (a.raw(), b.raw());
	ck_eq!(F::of(x).raw(), x, "underlier round trip");
	ck_eq!((a + b).raw(), x ^ y, "a + b");
	ck_eq!((a - b).raw(), x ^ y, "a - b");
	ck_eq!((-a).raw(), x, "-a");
	ck_eq!(Field::double(&a).raw(), 0, "double");
	ck_eq!((a * b).raw(), F::ref_mul(x, y), "a * b");
	ck_eq!((b * a).raw(), F::ref_mul(x, y), "b * a");
	ck_eq!((a * &b).raw(), F::ref_mul(x, y), "a * &b");
	let mut c = a;
	c *= b;
	ck_eq!(c.raw(), F::ref_mul(x, y), "a *= b");
	c = a;
	c += b;
	ck_eq!(c.raw(), x ^ y, "a += b");
	c = a;
	c -= b;
	ck_eq!(c.raw(), x ^ y, "a -= b");
	ck_eq!(Square::square(a).raw(), F::ref_mul(x, x), "square");
	ck_eq!(F::ONE.raw(), F::ref_one(), "ONE");
	ck_eq!(F::ZERO.raw(), 0, "ZERO");
	let inv = InvertOrZero::invert_or_zero(a);
	if x == 0 {
		ck_eq!(inv.raw(), 0, "invert_or_zero(0)");
		ck!(a.invert().is_none(), "invert(0) must be None");
		ck!(a.is_zero(), "is_zero(0)");
	} else {
		ck_eq!(F::ref_mul(x, inv.raw()), F::ref_one(), "a * a^-1 for a = {x:#x}");
		ck_eq!(a.invert(), Some(inv), "invert");
		ck!(!a.is_zero(), "is_zero(a)");
	}
	ck_eq!([a, b, a].into_iter().sum::<F>().raw(), y, "sum");
	ck_eq!([a, b].into_iter().product::<F>().raw(), F::ref_mul(x, y), "product");
	// powers
	let e = match s.weighted(&[3, 2, 1]) {
		0 => s.range(0, 20) as u64,
		1 => s.special_u64(),
		_ => (1u64 << s.range(0, 63)).wrapping_sub(1),
	};
	let mut r = F::ref_one();
	for i in (0..64).rev() {
		r = F::ref_mul(r, r);
		if e >> i & 1 == 1 {
			r = F::ref_mul(r, x);
		}
	}
	ck_eq!(Field::pow(&a, [e]).raw(), r, "pow({e})");
	ck_eq!(Field::pow_vartime(&a, [e]).raw(), r, "pow_vartime({e})");
	ck_eq!(PackedField::pow(a, e).raw(), r, "packed pow({e})");
	if s.chance(1, 8) {
		let hi = s.range(0, 3) as u64;
		// x^(e + hi*2^64)
		let mut h = x;
		for _ in 0..64 {
			h = F::ref_mul(h, h);
		}
		let mut w = r;
		for _ in 0..hi {
			w = F::ref_mul(w, h);
		}
		ck_eq!(Field::pow(&a, [e, hi]).raw(), w, "pow([{e},{hi}])");
		ck_eq!(Field::pow_vartime(&a, [e, hi]).raw(), w, "pow_vartime([{e},{hi}])");
	}
	Ok(())
}

fn laws(s: &mut Src) -> Res {
	macro_rules! fns { ($($t:ident)*) => { [$(laws_one::<$t> as CaseFn),*] } }
	let fs = scalar_list!(fns);
	pick(s, &fs)(s)
}

/// exhaustive over pairs of the fields of at most 8 bits: the case index is the left operand
fn small_exhaustive(s: &mut Src) -> Res {
	fn go<F: Fd>(a: u128) -> Res {
		for b in 0..1u128 << F::BITS {
			ck_eq!((F::of(a) * F::of(b)).raw(), F::ref_mul(a, b), "{} {a:#x} * {b:#x}", F::NAME);
		}
		let i = InvertOrZero::invert_or_zero(F::of(a)).raw();
		if a != 0 {
			ck_eq!(F::ref_mul(a, i), 1, "{} inverse of {a:#x}", F::NAME);
		} else {
			ck_eq!(i, 0, "inverse of 0");
		}
		ck_eq!(Square::square(F::of(a)).raw(), F::ref_mul(a, a), "{} square {a:#x}", F::NAME);
		Ok(())
	}
	let a = s.draw(255) as u128;
	s.desc(format!("left operand {a:#x}, all right operands, 1b 2b 4b 8b and AES 8b"));
	s.nontrivial_if(a > 1);
	go::<BinaryField1b>(a & 1)?;
	go::<BinaryField2b>(a & 3)?;
	go::<BinaryField4b>(a & 15)?;
	go::<BinaryField8b>(a)?;
	go::<AESTowerField8b>(a)
}

// Extension structure -----------------------------------------------------------------------------

fn ext_one<F: Fd + ExtensionField<S> + From<S> + TryInto<S>, S: Fd>(s: &mut Src) -> Res
where
	S: TryFrom<F>,
{
	let (a, b) = (F::draw(s), S::draw(s));
	let (x, y) = (a.raw(), b.raw());
	s.desc(format!("{} over {}: a={x:#x} b={y:#x}", F::NAME, S::NAME));
	s.label(format!("{}/{}", F::NAME, S::NAME));
	s.nontrivial_if(x > 1 && y != 0);
	let deg = F::BITS / S::BITS;
	ck_eq!(<F as ExtensionField<S>>::DEGREE, deg, "degree");
	ck_eq!(1usize << <F as ExtensionField<S>>::LOG_DEGREE, deg, "log degree");
	// embedding
	let ey = F::from(b);
	let want_ey = if S::BITS == 1 && F::NAME == "BinaryField128bPolyval" {
		if y == 1 { F::ref_one() } else { 0 }
	} else {
		y
	};
	ck_eq!(ey.raw(), want_ey, "embedding");
	ck_eq!((a * b).raw(), F::ref_mul(x, want_ey), "a * subfield");
	ck_eq!((a + b).raw(), x ^ want_ey, "a + subfield");
	ck_eq!((a - b).raw(), x ^ want_ey, "a - subfield");
	let mut c = a;
	c *= b;
	ck_eq!(c.raw(), F::ref_mul(x, want_ey), "a *= subfield");
	c = a;
	c += b;
	ck_eq!(c.raw(), x ^ want_ey, "a += subfield");
	c = a;
	c -= b;
	ck_eq!(c.raw(), x ^ want_ey, "a -= subfield");
	// restriction
	let down: Option<S> = S::try_from(ey).ok();
	ck_eq!(down, Some(b), "restriction of an embedded element");
	let down = S::try_from(a).ok();
	let fits = if F::NAME == "BinaryField128bPolyval" { x == 0 || x == F::ref_one() } else { x >> (S::BITS - 1) >> 1 == 0 };
	ck_eq!(down.is_some(), fits, "a restricts to the subfield iff it lies in it");
	if let Some(d) = down {
		ck_eq!(F::from(d), a, "restriction embeds back");
	}
	// coordinates
	let coords: Vec<S> = <F as ExtensionField<S>>::iter_bases(&a).collect();
	ck_eq!(coords.len(), deg, "number of coordinates");
	ck_eq!(<F as ExtensionField<S>>::into_iter_bases(a).collect::<Vec<_>>(), coords.clone(), "into_iter_bases");
	let mut acc = F::ZERO;
	for (i, c) in coords.iter().enumerate() {
		let e: F = <F as ExtensionField<S>>::basis(i);
		acc += e * *c;
		ck_eq!(<F as ExtensionField<S>>::get_base(&a, i), *c, "get_base({i})");
		ck_eq!(<F as ExtensionField<S>>::basis_checked(i).ok(), Some(e), "basis_checked({i})");
	}
	ck_eq!(acc.raw(), x, "sum of coordinates times basis");
	ck!(<F as ExtensionField<S>>::basis_checked(deg).is_err(), "basis_checked out of range");
	ck_eq!(F::from_bases(coords.clone()).ok(), Some(a), "from_bases");
	let n = s.range(0, deg);
	let pre = F::from_bases(coords[..n].to_vec());
	let want: F = coords[..n].iter().enumerate().map(|(i, c)| <F as ExtensionField<S>>::basis(i) * *c).sum();
	ck_eq!(pre.ok(), Some(want), "from_bases of a prefix of {n}");
	// sparse with a stride
	let ls = s.range(0, <F as ExtensionField<S>>::LOG_DEGREE);
	if deg >> ls >= 2 {
		let m = deg >> ls;
		let want: F = coords[..m].iter().enumerate().map(|(i, c)| <F as ExtensionField<S>>::basis(i << ls) * *c).sum();
		ck_eq!(F::from_bases_sparse(coords[..m].to_vec(), ls).ok(), Some(want), "from_bases_sparse stride {ls}");
		let mut more = coords.clone();
		more.push(S::ONE);
		more.truncate(m + 1);
		ck!(F::from_bases_sparse(more, ls).is_err(), "from_bases_sparse with too many elements");
	}
	Ok(())
}

macro_rules! exts { ($($f:ident > $s:ident),* $(,)?) => { [$(ext_one::<$f, $s> as CaseFn),*] } }

fn extensions(s: &mut Src) -> Res {
	let fs = exts!(
		BinaryField2b > BinaryField1b,
		BinaryField4b > BinaryField1b, BinaryField4b > BinaryField2b,
		BinaryField8b > BinaryField1b, BinaryField8b > BinaryField2b, BinaryField8b > BinaryField4b,
		BinaryField16b > BinaryField1b, BinaryField16b > BinaryField2b, BinaryField16b > BinaryField4b,
		BinaryField16b > BinaryField8b,
		BinaryField32b > BinaryField1b, BinaryField32b > BinaryField2b, BinaryField32b > BinaryField4b,
		BinaryField32b > BinaryField8b, BinaryField32b > BinaryField16b,
		BinaryField64b > BinaryField1b, BinaryField64b > BinaryField2b, BinaryField64b > BinaryField4b,
		BinaryField64b > BinaryField8b, BinaryField64b > BinaryField16b, BinaryField64b > BinaryField32b,
		BinaryField128b > BinaryField1b, BinaryField128b > BinaryField2b, BinaryField128b > BinaryField4b,
		BinaryField128b > BinaryField8b, BinaryField128b > BinaryField16b, BinaryField128b > BinaryField32b,
		BinaryField128b > BinaryField64b,
		AESTowerField16b > AESTowerField8b,
		AESTowerField32b > AESTowerField8b, AESTowerField32b > AESTowerField16b,
		AESTowerField64b > AESTowerField8b, AESTowerField64b > AESTowerField16b, AESTowerField64b > AESTowerField32b,
		AESTowerField128b > AESTowerField8b, AESTowerField128b > AESTowerField16b,
		AESTowerField128b > AESTowerField32b, AESTowerField128b > AESTowerField64b,
		AESTowerField8b > BinaryField1b, AESTowerField16b > BinaryField1b, AESTowerField32b > BinaryField1b,
		AESTowerField64b > BinaryField1b, AESTowerField128b > BinaryField1b,
	);
	pick(s, &fs)(s)
}

// Tower structure ---------------------------------------------------------------------------------

fn tower_one<F: Fd>(s: &mut Src) -> Res {
	let a = F::draw(s);
	let x = a.raw();
	s.desc(format!("{} a={x:#x}", F::NAME));
	s.label(F::NAME);
	s.nontrivial_if(x > 1);
	let lvl = F::TOWER_LEVEL;
	ck_eq!(1usize << lvl, F::BITS, "TOWER_LEVEL");
	ck_eq!(F::N_BITS, F::BITS, "N_BITS");
	let canon = F::NAME.starts_with("BinaryField") && !F::NAME.ends_with("Polyval");
	for iota in 0..=lvl {
		if F::NAME.ends_with("Polyval") {
			// has no tower of subfields of its own; its GF(2) basis is covered by `extensions`
			break;
		}
		let n = 1usize << (lvl - iota);
		let i = s.index(n);
		let b = <F as TowerField>::basis(iota, i);
		ck_eq!(b.ok().map(|e| e.raw()), Some(1u128 << (i << iota)), "basis({iota},{i})");
		ck!(<F as TowerField>::basis(iota, n).is_err(), "basis({iota},{n}) out of range");
	}
	ck!(<F as TowerField>::basis(lvl + 1, 0).is_err(), "basis above the level");
	// multiplication by the primitive element of T_{iota+1}/T_iota
	for iota in 0..lvl {
		if F::NAME.ends_with("Polyval") {
			break;
		}
		let prim = if canon {
			1u128 << (1 << iota)
		} else {
			let iso = aes_iso().ok_or("AES iso")?;
			bytewise(1u128 << (1 << iota), F::BITS / 8, |v| iso.from[v as usize])
		};
		ck_eq!(a.mul_primitive(iota).ok().map(|v| v.raw()), Some(F::ref_mul(x, prim)), "mul_primitive({iota})");
	}
	if !F::NAME.ends_with("Polyval") {
		ck!(a.mul_primitive(lvl).is_err(), "mul_primitive(level) must fail");
	}
	// min_tower_level
	if canon {
		let want = (0..=lvl).find(|l| x >> ((1u32 << l) - 1) >> 1 == 0).unwrap();
		ck_eq!(a.min_tower_level(), want, "min_tower_level");
	} else if F::NAME.starts_with("AES") {
		let want = if x < 2 { 0 } else { (3..=lvl).find(|l| x >> ((1u32 << l) - 1) >> 1 == 0).unwrap() };
		ck_eq!(a.min_tower_level(), want, "min_tower_level");
	}
	// isomorphism with the canonical tower
	let c = F::Canonical::from(a);
	ck_eq!(F::from(c), a, "canonical round trip");
	let b = F::draw(s);
	let d = F::Canonical::from(b);
	ck_eq!(F::Canonical::from(a * b), c * d, "conversion is multiplicative");
	ck_eq!(F::Canonical::from(a + b), c + d, "conversion is additive");
	ck_eq!(F::Canonical::from(F::ONE), F::Canonical::ONE, "conversion of one");
	// generator
	ck!(order_ok::<F>(F::MULTIPLICATIVE_GENERATOR), "multiplicative generator has full order");
	Ok(())
}
fn order_ok<F: Fd>(g: F) -> bool {
	// prime factors of 2^(2^k) - 1 = product of Fermat numbers
	let primes: [u128; 9] = [3, 5, 17, 257, 65537, 641, 6700417, 274177, 67280421310721];
	let n = mask(F::BITS);
	let powr = |e: u128| {
		let mut r = F::ref_one();
		for i in (0..128).rev() {
			r = F::ref_mul(r, r);
			if e >> i & 1 == 1 {
				r = F::ref_mul(r, g.raw());
			}
		}
		r
	};
	powr(n) == F::ref_one() && primes.iter().all(|p| n % p != 0 || powr(n / p) != F::ref_one() || n == 1)
}
fn towers(s: &mut Src) -> Res {
	macro_rules! fns { ($($t:ident)*) => { [$(tower_one::<$t> as CaseFn),*] } }
	let fs = scalar_list!(fns);
	pick(s, &fs)(s)
}

// Conversions -------------------------------------------------------------------------------------

fn hom<A: Fd, B: Fd + From<A>>(s: &mut Src, back: fn(B) -> A) -> Res {
	let (a, b) = (A::draw(s), A::draw(s));
	s.desc(format!("{} -> {} a={:#x} b={:#x}", A::NAME, B::NAME, a.raw(), b.raw()));
	s.label(format!("{}->{}", A::NAME, B::NAME));
	s.nontrivial_if(a.raw() > 1 && b.raw() > 1);
	ck_eq!(B::from(a + b), B::from(a) + B::from(b), "additive");
	ck_eq!(B::from(a * b), B::from(a) * B::from(b), "multiplicative");
	ck_eq!(B::from(A::ONE), B::ONE, "one");
	ck_eq!(back(B::from(a)), a, "round trip");
	let y = B::draw(s);
	ck_eq!(B::from(back(y)), y, "round trip from the other side");
	Ok(())
}
fn conversions(s: &mut Src) -> Res {
	match s.range(0, 9) {
		0 => hom::<AESTowerField8b, BinaryField8b>(s, |x| x.into()),
		1 => hom::<AESTowerField16b, BinaryField16b>(s, |x| x.into()),
		2 => hom::<AESTowerField32b, BinaryField32b>(s, |x| x.into()),
		3 => hom::<AESTowerField64b, BinaryField64b>(s, |x| x.into()),
		4 => hom::<AESTowerField128b, BinaryField128b>(s, |x| x.into()),
		5 => hom::<BinaryField128bPolyval, BinaryField128b>(s, |x| x.into()),
		6 => hom::<BinaryField128bPolyval, AESTowerField128b>(s, |x| x.into()),
		7 => packed_conv(s),
		8 => tower_embeds_agree(s),
		_ => exhaustive_iso(s),
	}
}
fn exhaustive_iso(s: &mut Src) -> Res {
	let iso = aes_iso().ok_or("image of AES generator is not a root of the AES polynomial")?;
	let v = s.draw(255) as u8;
	s.desc(format!("AES byte {v:#x}"));
	s.nontrivial_if(v > 1);
	ck_eq!(BinaryField8b::from(AESTowerField8b::new(v)).val(), iso.to[v as usize], "AES to canonical");
	ck_eq!(AESTowerField8b::from(BinaryField8b::new(v)).val(), iso.from[v as usize], "canonical to AES");
	ck_eq!(AES_TO_BINARY_LINEAR_TRANSFORMATION.transform(&AESTowerField8b::new(v)).val(), iso.to[v as usize], "table");
	ck_eq!(BINARY_TO_AES_LINEAR_TRANSFORMATION.transform(&BinaryField8b::new(v)).val(), iso.from[v as usize], "table");
	Ok(())
}
/// AES tower embedding commutes with the isomorphisms.
fn tower_embeds_agree(s: &mut Src) -> Res {
	let a = AESTowerField32b::draw(s);
	s.desc(format!("a={:#x}", a.raw()));
	s.nontrivial_if(a.raw() > 1);
	ck_eq!(BinaryField128b::from(AESTowerField128b::from(a)), BinaryField128b::from(BinaryField32b::from(a)), "embedding then isomorphism");
	let p = BinaryField128bPolyval::from(BinaryField128b::from(BinaryField32b::from(a)));
	let q = BinaryField128bPolyval::from(AESTowerField128b::from(a));
	ck_eq!(p, q, "AES->POLYVAL agrees with AES->canonical->POLYVAL");
	Ok(())
}
fn packed_conv(s: &mut Src) -> Res {
	fn go<A, B>(s: &mut Src) -> Res
	where
		A: PackedField<Scalar: Fd> + PackedTransformationFactory<B>,
		B: PackedField<Scalar: Fd + From<A::Scalar>>,
		B: binius_field::packed::PackedBinaryField,
		A: Conv<B>,
	{
		let (p, v) = draw_packed::<A>(s);
		s.desc(format!("{}x{} -> {}: {:x?}", A::WIDTH, A::Scalar::NAME, B::Scalar::NAME, v.iter().map(|x| x.raw()).collect::<Vec<_>>()));
		s.nontrivial_if(v.iter().any(|x| x.raw() > 1));
		let q = A::conv(p);
		ck_eq!(lanes(&q), v.iter().map(|x| B::Scalar::from(*x)).collect::<Vec<_>>(), "packed conversion");
		Ok(())
	}
	trait Conv<B> {
		fn conv(self) -> B;
	}
	macro_rules! cv { ($fs:ident; $($a:ty => $b:ty : $f:expr;)*) => {
		$(impl Conv<$b> for $a { fn conv(self) -> $b { Transformation::<$a, $b>::transform(&$f, &self) } })*
		let $fs = [$(go::<$a, $b> as CaseFn),*];
	} }
	use binius_field::tower::{AESTowerFamily, CanonicalTowerFamily, ProverTowerFamily};
	cv! { fs;
		PackedAESBinaryField16x8b => PackedBinaryField16x8b: make_aes_to_binary_packed_transformer::<PackedAESBinaryField16x8b, PackedBinaryField16x8b>();
		PackedAESBinaryField8x32b => PackedBinaryField8x32b: make_aes_to_binary_packed_transformer::<PackedAESBinaryField8x32b, PackedBinaryField8x32b>();
		PackedAESBinaryField4x128b => PackedBinaryField4x128b: make_aes_to_binary_packed_transformer::<PackedAESBinaryField4x128b, PackedBinaryField4x128b>();
		PackedBinaryField1x128b => PackedAESBinaryField1x128b: make_binary_to_aes_packed_transformer::<PackedBinaryField1x128b, PackedAESBinaryField1x128b>();
		PackedBinaryField16x16b => PackedAESBinaryField16x16b: make_binary_to_aes_packed_transformer::<PackedBinaryField16x16b, PackedAESBinaryField16x16b>();
		PackedBinaryField64x8b => PackedAESBinaryField64x8b: make_binary_to_aes_packed_transformer::<PackedBinaryField64x8b, PackedAESBinaryField64x8b>();
		PackedBinaryField1x128b => PackedBinaryPolyval1x128b: CanonicalTowerFamily::packed_transformation_to_fast::<PackedBinaryField1x128b, PackedBinaryPolyval1x128b>();
		PackedBinaryField2x128b => PackedBinaryPolyval2x128b: CanonicalTowerFamily::packed_transformation_to_fast::<PackedBinaryField2x128b, PackedBinaryPolyval2x128b>();
		PackedBinaryField4x128b => PackedBinaryPolyval4x128b: CanonicalTowerFamily::packed_transformation_to_fast::<PackedBinaryField4x128b, PackedBinaryPolyval4x128b>();
		PackedBinaryPolyval1x128b => PackedBinaryField1x128b: CanonicalTowerFamily::packed_transformation_from_fast::<PackedBinaryPolyval1x128b, PackedBinaryField1x128b>();
		PackedBinaryPolyval2x128b => PackedBinaryField2x128b: CanonicalTowerFamily::packed_transformation_from_fast::<PackedBinaryPolyval2x128b, PackedBinaryField2x128b>();
		PackedBinaryPolyval4x128b => PackedBinaryField4x128b: CanonicalTowerFamily::packed_transformation_from_fast::<PackedBinaryPolyval4x128b, PackedBinaryField4x128b>();
		PackedAESBinaryField1x128b => PackedBinaryPolyval1x128b: AESTowerFamily::packed_transformation_to_fast::<PackedAESBinaryField1x128b, PackedBinaryPolyval1x128b>();
		PackedAESBinaryField2x128b => PackedBinaryPolyval2x128b: AESTowerFamily::packed_transformation_to_fast::<PackedAESBinaryField2x128b, PackedBinaryPolyval2x128b>();
		PackedBinaryPolyval4x128b => PackedAESBinaryField4x128b: AESTowerFamily::packed_transformation_from_fast::<PackedBinaryPolyval4x128b, PackedAESBinaryField4x128b>();
	}
	pick(s, &fs)(s)
}

/// Arithmetic helpers defined over fields.
fn helpers(s: &mut Src) -> Res {
	use binius_field::util::{eq, inner_product_unchecked, powers};
	fn go<F: Fd>(s: &mut Src) -> Res {
		let n = s.range(0, 12);
		let mut b = s.bulk();
		let (xs, ys): (Vec<F>, Vec<F>) = (0..n).map(|_| (F::next(&mut b), F::next(&mut b))).unzip();
		s.desc(format!("{} n={n}", F::NAME));
		s.nontrivial_if(n > 1);
		let want = xs.iter().zip(&ys).fold(0u128, |acc, (x, y)| acc ^ F::ref_mul(x.raw(), y.raw()));
		ck_eq!(inner_product_unchecked::<F, F>(xs.clone(), ys.clone()).raw(), want, "inner product");
		let x = F::draw(s);
		let y = F::draw(s);
		// eq(x,y) = xy + (1-x)(1-y)
		let o = F::ref_one();
		ck_eq!(eq(x, y).raw(), F::ref_mul(x.raw(), y.raw()) ^ F::ref_mul(o ^ x.raw(), o ^ y.raw()), "eq indicator");
		let mut p = o;
		for (i, v) in powers(x).take(10).enumerate() {
			ck_eq!(v.raw(), p, "power {i}");
			p = F::ref_mul(p, x.raw());
		}
		Ok(())
	}
	macro_rules! fns { ($($t:ident)*) => { [$(go::<$t> as CaseFn),*] } }
	let fs = scalar_list!(fns);
	pick(s, &fs)(s)
}

/// The defects that were not repaired.
fn findings(s: &mut Src) -> Res {
	type P = BinaryField128bPolyval;
	let x = P::draw(s);
	s.nontrivial_if(x.raw() > 1);
	let bits: Vec<BinaryField1b> = ExtensionField::<BinaryField1b>::iter_bases(&x).collect();
	ck_eq!(bits.len(), 128, "number of coordinates");
	match <P as ExtensionField<BinaryField1b>>::from_bases(bits.iter().copied()) {
		Err(_) => {
			return finding("C06", "polyval-from-bases", "BinaryField128bPolyval::from_bases refuses any coordinates over BinaryField1b, even those of iter_bases");
		}
		Ok(y) => ck_eq!(y, x, "coordinates over the base field do not give the element back"),
	}
	Ok(())
}

fn main() {
	run(Prop {
		id: "C06",
		rule: "an operand tuple whose operands are neither 0 nor 1 (for a 1-bit field: any); sub-check small_exhaustive enumerates all right operands per case",
		assumptions: &["the reference multiplication (schoolbook Fan-Paar recursion, shift-and-add AES and POLYVAL) is the mathematical definition"],
		subs: vec![
			Sub { name: "laws", quick: 300000, thorough: 6000000, threads: 0, f: laws },
			Sub { name: "small_exhaustive", quick: 4_000, thorough: 20_000, threads: 0, f: small_exhaustive },
			Sub { name: "extensions", quick: 1000000, thorough: 20000000, threads: 0, f: extensions },
			Sub { name: "towers", quick: 7500, thorough: 300000, threads: 0, f: towers },
			Sub { name: "conversions", quick: 300000, thorough: 6000000, threads: 0, f: conversions },
			Sub { name: "findings", quick: 20, thorough: 20, threads: 1, f: findings },
			Sub { name: "helpers", quick: 120000, thorough: 2400000, threads: 0, f: helpers },
		],
	})
}
