//! C08: packed containers behave as plain vectors of scalars.
use binius_field::{
	byte_iteration::{ByteIteratorCallback, can_iterate_bytes, create_partial_sums_lookup_tables, is_sequential_bytes, iterate_bytes},
	linear_transformation::{FieldLinearTransformation, PackedTransformationFactory, Transformation},
	packed::*,
};
use binius_utils::random_access_sequence::{RandomAccessSequence, RandomAccessSequenceMut, SequenceSubrangeMut};
use c_field::*;

fn raws<F: Fd>(v: &[F]) -> Vec<u128> {
	v.iter().map(|x| x.raw()).collect()
}
fn name<P>() -> String {
	std::any::type_name::<P>().to_string()
}

/// A history of lane writes and whole-element operations against a Vec model.
fn history_one<P: PackedField<Scalar: Fd>>(s: &mut Src) -> Res {
	s.label(format!("width 2^{} {}", P::LOG_WIDTH, P::Scalar::NAME));
	let mut m = vec![P::Scalar::ZERO; P::WIDTH];
	let mut p = P::default();
	ck_eq!(P::WIDTH, 1 << P::LOG_WIDTH, "WIDTH");
	let n = s.range(1, 12);
	let mut log = Vec::new();
	for _ in 0..n {
		let mut b = s.bulk();
		match s.weighted(&[6, 1, 2, 2, 2, 2, 2, 1, 1]) {
			0 => {
				let i = s.index(P::WIDTH);
				let x = P::Scalar::draw(s);
				p.set(i, x);
				m[i] = x;
				log.push(format!("set({i},{:x})", x.raw()));
			}
			1 => {
				let x = P::Scalar::draw(s);
				p = P::set_single(x);
				m.fill(P::Scalar::ZERO);
				m[0] = x;
				log.push(format!("set_single({:x})", x.raw()));
			}
			2 => {
				for x in m.iter_mut() {
					*x = P::Scalar::next(&mut b);
				}
				p = P::from_fn(|i| m[i]);
				log.push("from_fn".into());
			}
			3 => {
				let k = s.range(0, P::WIDTH + 2);
				let v: Vec<P::Scalar> = (0..k).map(|_| P::Scalar::next(&mut b)).collect();
				p = P::from_scalars(v.iter().copied());
				for (i, x) in m.iter_mut().enumerate() {
					*x = v.get(i).copied().unwrap_or(P::Scalar::ZERO);
				}
				log.push(format!("from_scalars({k})"));
			}
			4 if P::LOG_WIDTH > 0 => {
				let l = s.index(P::LOG_WIDTH);
				let (q, v) = draw_packed::<P>(s);
				let hi = s.bool();
				let (x, y) = p.interleave(q, l);
				// the 2x2 block transpose, on the vector model
				let w = 1usize << l;
				let (mut mx, mut my) = (m.clone(), m.clone());
				for i in 0..P::WIDTH {
					let blk = i / w;
					let even = i - (blk % 2) * w;
					mx[i] = if blk % 2 == 0 { m[i] } else { v[even] };
					my[i] = if blk % 2 == 0 { m[i + w] } else { v[i] };
				}
				ck!(lanes(&x) == mx && lanes(&y) == my, "{}: interleave({l}) of {:x?} and {:x?}: got {:x?} / {:x?}", name::<P>(), raws(&m), raws(&v), raws(&lanes(&x)), raws(&lanes(&y)));
				(p, m) = if hi { (y, my) } else { (x, mx) };
				log.push(format!("interleave({l})"));
			}
			5 if P::LOG_WIDTH > 0 => {
				let l = s.index(P::LOG_WIDTH);
				let (q, v) = draw_packed::<P>(s);
				let hi = s.bool();
				let (x, y) = p.unzip(q, l);
				let w = 1usize << l;
				let all: Vec<P::Scalar> = m.iter().chain(&v).copied().collect();
				let pickb = |odd: usize| -> Vec<P::Scalar> { (0..P::WIDTH).map(|i| all[(2 * (i / w) + odd) * w + i % w]).collect() };
				let (mx, my) = (pickb(0), pickb(1));
				ck!(lanes(&x) == mx && lanes(&y) == my, "{}: unzip({l}) of {:x?} and {:x?}: got {:x?} / {:x?}", name::<P>(), raws(&m), raws(&v), raws(&lanes(&x)), raws(&lanes(&y)));
				(p, m) = if hi { (y, my) } else { (x, mx) };
				log.push(format!("unzip({l})"));
			}
			6 => {
				let l = s.range(0, P::LOG_WIDTH);
				let i = s.index(1 << (P::LOG_WIDTH - l));
				let rep = P::LOG_WIDTH - l;
				p = p.spread(l, i);
				m = (0..P::WIDTH).map(|j| m[(i << l) + (j >> rep)]).collect();
				log.push(format!("spread({l},{i})"));
			}
			7 => {
				let stop = s.range(0, 2 * P::WIDTH);
				let v: Vec<P::Scalar> = (0..P::WIDTH).map(|_| P::Scalar::next(&mut b)).collect();
				let r: Result<P, usize> = P::try_from_fn(|i| if i == stop { Err(i) } else { Ok(v[i]) });
				match r {
					Ok(q) => {
						ck!(stop >= P::WIDTH, "try_from_fn swallowed an error");
						p = q;
						m = v;
					}
					Err(e) => ck_eq!(e, stop, "try_from_fn error"),
				}
				log.push(format!("try_from_fn(stop {stop})"));
			}
			_ => {
				let off = s.range(0, 3);
				let v: Vec<P::Scalar> = (0..P::WIDTH * 4).map(|_| P::Scalar::next(&mut b)).collect();
				p = packed_from_fn_with_offset::<P>(off, |i| v[i]);
				m = v[off * P::WIDTH..][..P::WIDTH].to_vec();
				log.push(format!("from_fn_with_offset({off})"));
			}
		}
		ck!(lanes(&p) == m, "{}: after {}: lanes {:x?}, expected {:x?}", name::<P>(), log.join(","), raws(&lanes(&p)), raws(&m));
	}
	s.desc(format!("{}: {}", name::<P>(), log.join(",")));
	s.nontrivial_if(m.iter().any(|x| x.raw() != 0) && n > 1);
	ck!(p.iter().collect::<Vec<_>>() == m, "{}: iter", name::<P>());
	ck!(PackedField::into_iter(p).collect::<Vec<_>>() == m, "{}: into_iter", name::<P>());
	let k = s.index(P::WIDTH);
	ck!(p.iter().skip(k).collect::<Vec<_>>() == m[k..], "{}: iter().skip({k})", name::<P>());
	ck!(p.iter().nth(k) == Some(m[k]), "{}: iter().nth({k})", name::<P>());
	ck!(p.get_checked(P::WIDTH).is_err(), "get_checked out of range");
	ck!(p.get_checked(k).ok() == Some(m[k]), "get_checked");
	let mut q = p;
	ck!(q.set_checked(P::WIDTH, P::Scalar::ONE).is_err() && q == p, "set_checked out of range");
	Ok(())
}

fn history(s: &mut Src) -> Res {
	macro_rules! fns { ($($t:ident)*) => { [$(history_one::<$t> as CaseFn),*] } }
	let fs = packed_list!(fns);
	s.pick(&fs)(s)
}

/// Slices of packed elements as sequences of scalars.
fn slices_one<P: PackedField<Scalar: Fd>>(s: &mut Src) -> Res {
	let len = s.range(0, 5);
	let n = len * P::WIDTH;
	let mut b = s.bulk();
	let mut m: Vec<P::Scalar> = (0..n).map(|_| P::Scalar::next(&mut b)).collect();
	let mut v: Vec<P> = m.chunks(P::WIDTH).map(|c| P::from_fn(|i| c[i])).collect();
	s.desc(format!("{} x {len}: {:x?}", name::<P>(), raws(&m[..n.min(8)])));
	s.label(format!("width 2^{} {}", P::LOG_WIDTH, P::Scalar::NAME));
	s.nontrivial_if(len > 1 && m.iter().any(|x| x.raw() != 0));
	ck_eq!(len_packed_slice(&v), n, "len_packed_slice");
	ck!(P::iter_slice(&v).collect::<Vec<_>>() == m, "{}: iter_slice", name::<P>());
	let off = s.range(0, n + 2);
	ck!(iter_packed_slice_with_offset(&v, off).collect::<Vec<_>>() == m[off.min(n)..], "{}: iter_packed_slice_with_offset({off})", name::<P>());
	ck!(get_packed_slice_checked(&v, n).is_err(), "get_packed_slice_checked out of range");
	for _ in 0..s.range(0, 6) {
		if n == 0 {
			break;
		}
		let i = s.index(n);
		let x = P::Scalar::draw(s);
		match s.range(0, 3) {
			0 => set_packed_slice(&mut v, i, x),
			1 => set_packed_slice_checked(&mut v, i, x).map_err(|e| e.to_string())?,
			2 => PackedSliceMut::new(&mut v).set(i, x),
			_ => unpack_if_possible_mut(&mut v, |sc| sc[i] = x, |p| p[i >> P::LOG_WIDTH].set(i % P::WIDTH, x)),
		}
		m[i] = x;
		ck!(get_packed_slice(&v, i) == x, "{}: get_packed_slice({i})", name::<P>());
	}
	ck!(set_packed_slice_checked(&mut v, n, P::Scalar::ONE).is_err(), "set_packed_slice_checked out of range");
	for i in 0..n {
		ck!(get_packed_slice(&v, i) == m[i], "{}: get_packed_slice({i}) is {:?}, expected {:?}", name::<P>(), get_packed_slice(&v, i), m[i]);
		ck!(v[i / P::WIDTH].get(i % P::WIDTH) == m[i], "{}: lane {i}", name::<P>());
	}
	ck!(unpack_if_possible(&v, |sc| sc.to_vec(), |p| P::iter_slice(p).collect()) == m, "{}: unpack_if_possible", name::<P>());
	// partial views
	let k = s.range(0, n);
	let view = PackedSlice::new_with_len(&v, k);
	ck!(view.len() == k && (0..k).all(|i| view.get(i) == m[i]), "{}: PackedSlice of {k}", name::<P>());
	if n > 0 {
		let (a, l) = (s.range(0, n - 1), s.range(0, n));
		let l = l.min(n - a);
		let mut w = v.clone();
		let mut base = PackedSliceMut::new(&mut w);
		let mut sub = SequenceSubrangeMut::new(&mut base, a, l);
		for i in 0..l {
			ck!(sub.get(i) == m[a + i], "{}: subrange get", name::<P>());
			sub.set(i, P::Scalar::ONE);
		}
		for i in 0..n {
			let e = if (a..a + l).contains(&i) { P::Scalar::ONE } else { m[i] };
			ck!(get_packed_slice(&w, i) == e, "{}: subrange [{a};{l}] write reached scalar {i}", name::<P>());
		}
	}
	// packing a slice of scalars
	let packed: Vec<P> = pack_slice(&m[..k]);
	ck_eq!(packed.len(), k.div_ceil(P::WIDTH), "pack_slice length");
	for (i, x) in P::iter_slice(&packed).enumerate() {
		let e = if i < k { m[i] } else { P::Scalar::ZERO };
		ck!(x == e, "{}: pack_slice of {k} scalars, scalar {i}", name::<P>());
	}
	// copying scalars over the front of an existing packed buffer
	let fresh: Vec<P::Scalar> = (0..k).map(|_| P::Scalar::next(&mut b)).collect();
	let mut dst = v.clone();
	copy_packed_from_scalars_slice(&fresh, &mut dst);
	for i in 0..n {
		let e = if i < k { fresh[i] } else { m[i] };
		ck!(get_packed_slice(&dst, i) == e, "{}: copy_packed_from_scalars_slice of {k} scalars into {n}, scalar {i} is {:?}, expected {e:?}", name::<P>(), get_packed_slice(&dst, i));
	}
	Ok(())
}
fn slices(s: &mut Src) -> Res {
	macro_rules! fns { ($($t:ident)*) => { [$(slices_one::<$t> as CaseFn),*] } }
	let fs = packed_list!(fns);
	let gs = scalar_list!(fns);
	if s.chance(1, 10) { s.pick(&gs)(s) } else { s.pick(&fs)(s) }
}

fn transpose_one<P: PackedField<Scalar: Fd>>(s: &mut Src) -> Res {
	let log_n = s.range(0, P::LOG_WIDTH + 1);
	let log_size = if s.chance(1, 8) { s.range(0, 4) } else { log_n + s.range(0, 2) };
	if log_size > 9 {
		s.discard();
		return Ok(());
	}
	let size = if s.chance(1, 20) { s.range(0, 20) } else { 1usize << log_size };
	let mut b = s.bulk();
	let m: Vec<P::Scalar> = (0..size * P::WIDTH).map(|_| P::Scalar::next(&mut b)).collect();
	let v: Vec<P> = m.chunks(P::WIDTH).map(|c| P::from_fn(|i| c[i])).collect();
	let mut w = v.clone();
	let r = square_transpose(log_n, &mut w);
	s.desc(format!("{}: square_transpose(log_n={log_n}) of {size}", name::<P>()));
	let valid = log_n <= P::LOG_WIDTH && size.is_power_of_two() && size >= 1 << log_n;
	ck_eq!(r.is_ok(), valid, "{}: square_transpose({log_n}) on {size} elements accepted", name::<P>());
	if !valid {
		return Ok(());
	}
	s.nontrivial_if(log_n > 0);
	// rows of the matrix are `size / n` packed elements each
	let (n, row) = (1usize << log_n, (size >> log_n) * P::WIDTH);
	for i in 0..n {
		for j in 0..row {
			let (blk, c) = (j >> log_n, j & (n - 1));
			let want = m[c * row + (blk << log_n) + i];
			ck!(get_packed_slice(&w, i * row + j) == want, "{}: square_transpose({log_n}) of {size}: entry ({i},{j})", name::<P>());
		}
	}
	Ok(())
}
fn transpose(s: &mut Src) -> Res {
	macro_rules! fns { ($($t:ident)*) => { [$(transpose_one::<$t> as CaseFn),*] } }
	let fs = packed_list!(fns);
	s.pick(&fs)(s)
}

struct Collect(Vec<u8>);
impl ByteIteratorCallback for Collect {
	fn call(&mut self, iter: impl Iterator<Item = u8>) {
		self.0.extend(iter);
	}
}
fn bytes_one<P: PackedField<Scalar: Fd>>(s: &mut Src) -> Res {
	let len = s.range(0, 3);
	let (mut v, mut m) = (Vec::new(), Vec::new());
	for _ in 0..len {
		let (p, x) = draw_packed::<P>(s);
		v.push(p);
		m.extend(x);
	}
	s.desc(format!("{} x {len}: {:x?}", name::<P>(), raws(&m[..m.len().min(8)])));
	if !can_iterate_bytes::<P>() {
		ck!(!is_sequential_bytes::<P>(), "sequential but not iterable");
		return Ok(());
	}
	s.label(name::<P>().rsplit("::").next().unwrap_or("").to_string());
	s.nontrivial_if(m.iter().any(|x| x.raw() != 0));
	let mut c = Collect(Vec::new());
	iterate_bytes(&v, &mut c);
	// the bits of the scalars in order, eight to a byte
	let mut bits = Vec::new();
	for x in &m {
		for i in 0..P::Scalar::BITS {
			bits.push((x.raw() >> i & 1) as u8);
		}
	}
	let want: Vec<u8> = bits.chunks(8).map(|c| c.iter().enumerate().fold(0, |a, (i, b)| a | b << i)).collect();
	ck!(c.0 == want, "{}: iterate_bytes gives {:x?}, the scalars' bits are {:x?}", name::<P>(), c.0, want);
	Ok(())
}
fn byte_order(s: &mut Src) -> Res {
	macro_rules! fns { ($($t:ident)*) => { [$(bytes_one::<$t> as CaseFn),*] } }
	let fs = packed_list!(fns);
	let gs = scalar_list!(fns);
	if s.chance(1, 10) { s.pick(&gs)(s) } else { s.pick(&fs)(s) }
}

fn lookup_tables(s: &mut Src) -> Res {
	fn go<P: PackedField<Scalar: Fd>>(s: &mut Src) -> Res {
		let n = 8 * s.range(0, 3);
		let vals: Vec<P> = (0..n).map(|_| draw_packed::<P>(s).0).collect();
		s.desc(format!("{} x {n}", name::<P>()));
		s.nontrivial_if(n > 0);
		let t = create_partial_sums_lookup_tables(vals.as_slice());
		ck_eq!(t.len(), n * 32, "table length");
		for c in 0..n / 8 {
			for byte in 0..256usize {
				let mut w = P::zero();
				for j in 0..8 {
					if byte >> j & 1 == 1 {
						w += vals[c * 8 + j];
					}
				}
				ck!(t[c * 256 + byte] == w, "partial sum chunk {c} byte {byte}");
			}
		}
		Ok(())
	}
	macro_rules! fns { ($($t:ident)*) => { [$(go::<$t> as CaseFn),*] } }
	let fs = fns! { BinaryField128b PackedBinaryField2x128b PackedBinaryField4x32b PackedBinaryField64x1b BinaryField8b PackedAESBinaryField16x8b };
	s.pick(&fs)(s)
}

fn linear_one<IP, OP>(s: &mut Src) -> Res
where
	IP: PackedField<Scalar: Fd> + PackedTransformationFactory<OP>,
	OP: PackedField<Scalar: Fd> + PackedBinaryField,
{
	let mut b = s.bulk();
	let bases: Vec<OP::Scalar> = (0..OP::Scalar::BITS).map(|_| OP::Scalar::next(&mut b)).collect();
	let (p, v) = draw_packed::<IP>(s);
	s.desc(format!("{} -> {}: {:x?}", name::<IP>(), name::<OP>(), raws(&v)));
	s.label(format!("{}->{}", name::<IP>().rsplit("::").next().unwrap_or(""), name::<OP>().rsplit("::").next().unwrap_or("")));
	s.nontrivial_if(b.is_dense() && v.iter().any(|x| x.raw() > 1));
	let t = IP::make_packed_transformation(FieldLinearTransformation::<OP::Scalar, Vec<OP::Scalar>>::new(bases.clone()));
	let out = t.transform(&p);
	let st = FieldLinearTransformation::<OP::Scalar, Vec<OP::Scalar>>::new(bases.clone());
	for i in 0..IP::WIDTH {
		let mut w = 0u128;
		for (k, e) in bases.iter().enumerate() {
			if v[i].raw() >> k & 1 == 1 {
				w ^= e.raw();
			}
		}
		ck_eq!(out.get(i).raw(), w, "{} -> {}: packed linear transformation lane {i}", name::<IP>(), name::<OP>());
		let sc: OP::Scalar = Transformation::<IP::Scalar, OP::Scalar>::transform(&st, &v[i]);
		ck_eq!(sc.raw(), w, "scalar linear transformation of {:x}", v[i].raw());
	}
	Ok(())
}
fn linear(s: &mut Src) -> Res {
	macro_rules! fns { ($($p:ident > $f:ident),* $(,)?) => { [$(linear_one::<$p, $f> as CaseFn),*] } }
	let fs = fns!(
		PackedBinaryField16x8b > PackedBinaryField16x8b, PackedBinaryField8x16b > PackedBinaryField8x16b,
		PackedBinaryField4x32b > PackedBinaryField4x32b, PackedBinaryField2x64b > PackedBinaryField2x64b,
		PackedBinaryField1x128b > PackedBinaryField1x128b, PackedBinaryField32x8b > PackedBinaryField32x8b,
		PackedBinaryField16x16b > PackedBinaryField16x16b, PackedBinaryField8x32b > PackedBinaryField8x32b,
		PackedBinaryField4x64b > PackedBinaryField4x64b, PackedBinaryField2x128b > PackedBinaryField2x128b,
		PackedBinaryField64x8b > PackedBinaryField64x8b, PackedBinaryField4x128b > PackedBinaryField4x128b,
		PackedBinaryField8x64b > PackedBinaryField8x64b, PackedBinaryField16x32b > PackedBinaryField16x32b,
		PackedBinaryField16x8b > PackedAESBinaryField16x8b, PackedAESBinaryField16x8b > PackedBinaryField16x8b,
		PackedAESBinaryField32x8b > PackedAESBinaryField32x8b, PackedAESBinaryField2x128b > PackedAESBinaryField2x128b,
		PackedBinaryField1x128b > PackedBinaryPolyval1x128b, PackedBinaryPolyval1x128b > PackedBinaryField1x128b,
		PackedBinaryField2x128b > PackedBinaryPolyval2x128b, PackedBinaryPolyval2x128b > PackedBinaryField2x128b,
		PackedBinaryField4x128b > PackedBinaryPolyval4x128b, PackedBinaryPolyval4x128b > PackedBinaryField4x128b,
		PackedBinaryField8x8b > PackedBinaryField8x8b, PackedBinaryField4x8b > PackedBinaryField4x8b,
		PackedBinaryField1x64b > PackedBinaryField1x64b, PackedBinaryField2x32b > PackedBinaryField2x32b,
		PackedBinaryField1x32b > PackedBinaryField1x32b, PackedBinaryField2x16b > PackedBinaryField2x16b,
		PackedBinaryField1x16b > PackedBinaryField1x16b, PackedBinaryField1x8b > PackedBinaryField1x8b,
		PackedBinaryField64x2b > PackedBinaryField64x2b, PackedBinaryField32x4b > PackedBinaryField32x4b,
		PackedBinaryField128x1b > PackedBinaryField128x1b, PackedBinaryField256x1b > PackedBinaryField256x1b,
		ByteSlicedAES16x8b > ByteSlicedAES16x8b, ByteSlicedAES16x128b > ByteSlicedAES16x128b,
		ByteSlicedAES32x128b > ByteSlicedAES32x128b, ByteSlicedAES32x32b > ByteSlicedAES32x32b,
		ByteSlicedAES16x16x8b > ByteSlicedAES16x16x8b,
	);
	s.pick(&fs)(s)
}

/// Byte-sliced packings convert to and from ordinary packings scalar by scalar.
fn byte_sliced(s: &mut Src) -> Res {
	macro_rules! conv { ($s:ident; $($bs:ident, $ord:ident, $n:literal;)*) => {{
		let fs: &[CaseFn] = &[$(|s| {
			let (p, v) = draw_packed::<$bs>(s);
			s.desc(format!("{}: {:x?}", stringify!($bs), raws(&v)));
			s.nontrivial_if(v.iter().any(|x| x.raw() != 0));
			let mut out = [<$ord>::default(); $n];
			p.transpose_to(&mut out);
			let got: Vec<_> = PackedField::iter_slice(&out).collect();
			ck!(got == v, "{}: transpose_to gives {:x?}, expected {:x?}", stringify!($bs), raws(&got), raws(&v));
			let back = <$bs>::transpose_from(&out);
			ck!(back == p, "{}: transpose_from", stringify!($bs));
			Ok(())
		}),*];
		$s.pick(fs)($s)
	}} }
	conv!(s;
		ByteSlicedAES16x128b, PackedAESBinaryField1x128b, 16;
		ByteSlicedAES16x64b, PackedAESBinaryField2x64b, 8;
		ByteSlicedAES16x32b, PackedAESBinaryField4x32b, 4;
		ByteSlicedAES16x16b, PackedAESBinaryField8x16b, 2;
		ByteSlicedAES16x8b, PackedAESBinaryField16x8b, 1;
		ByteSlicedAES32x128b, PackedAESBinaryField2x128b, 16;
		ByteSlicedAES32x64b, PackedAESBinaryField4x64b, 8;
		ByteSlicedAES32x32b, PackedAESBinaryField8x32b, 4;
		ByteSlicedAES32x16b, PackedAESBinaryField16x16b, 2;
		ByteSlicedAES64x128b, PackedAESBinaryField4x128b, 16;
		ByteSlicedAES64x64b, PackedAESBinaryField8x64b, 8;
		ByteSlicedAES64x32b, PackedAESBinaryField16x32b, 4;
	)
}

fn main() {
	run(Prop {
		id: "C08",
		rule: "histories of at least two operations ending with a non-zero element; slices of at least two packed elements with a non-zero scalar; transposes with n > 1; other sub-checks: at least one scalar outside {0} (linear: outside GF(2) with dense bases)",
		assumptions: &["lane order is defined by get(i)/set(i) and, for byte iteration, by the little-endian bits of the scalars"],
		subs: vec![
			Sub { name: "history", quick: 1200000, thorough: 24000000, threads: 0, f: history },
			Sub { name: "slices", quick: 600000, thorough: 12000000, threads: 0, f: slices },
			Sub { name: "transpose", quick: 80000, thorough: 1600000, threads: 0, f: transpose },
			Sub { name: "byte_order", quick: 300000, thorough: 6000000, threads: 0, f: byte_order },
			Sub { name: "lookup_tables", quick: 40000, thorough: 800000, threads: 0, f: lookup_tables },
			Sub { name: "linear", quick: 400000, thorough: 8000000, threads: 0, f: linear },
			Sub { name: "byte_sliced", quick: 200000, thorough: 4000000, threads: 0, f: byte_sliced },
		],
	})
}
