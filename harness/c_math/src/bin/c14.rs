//! Hash functions, batch digests and compressions against independent implementations.
use binius_field::{
	AESTowerField8b, AESTowerField32b, ByteSlicedAES32x32b, Field, PackedAESBinaryField8x32b,
	PackedField, TowerField, underlier::WithUnderlier, *,
};
use binius_hash::{
	AFFINE_FWD_AES, AFFINE_FWD_CONST_AES, AFFINE_INV_AES, AFFINE_INV_CONST_AES, HashBuffer, NUM_ROUNDS,
	PseudoCompressionFunction, ROUND_KEYS, Vision32Compression, Vision32MDSTransform, Vision32ParallelDigest,
	Vision32bPermutation, VisionHasherDigest, VisionHasherDigestByteSliced,
	groestl::{Groestl256, Groestl256ByteCompression, Groestl256Parallel},
	hash_serialize,
	multi_digest::{MultiDigest, ParallelDigest},
	permutation::Permutation,
	sha2::Sha256Compression,
};
use binius_maybe_rayon::iter::{IntoParallelIterator, ParallelIterator};
use binius_utils::SerializationMode;
use bytes::BufMut;
use c_math::*;
use digest::{Digest, FixedOutputReset, Output, core_api::BlockSizeUser};
use std::mem::MaybeUninit;

// ---------------------------------------------------------------- Grøstl-256 reference
fn xt(a: u8) -> u8 {
	(a << 1) ^ if a & 0x80 != 0 { 0x1b } else { 0 }
}
fn gmul(mut a: u8, mut b: u8) -> u8 {
	let mut r = 0;
	while b != 0 {
		if b & 1 == 1 {
			r ^= a
		}
		a = xt(a);
		b >>= 1;
	}
	r
}
fn sbox(x: u8) -> u8 {
	let inv = if x == 0 { 0 } else { (0..=255u8).find(|y| gmul(x, *y) == 1).unwrap() };
	let mut r = 0x63;
	for k in 0..5 {
		r ^= inv.rotate_left(k);
	}
	r
}
fn sboxes() -> &'static [u8; 256] {
	static S: std::sync::OnceLock<[u8; 256]> = std::sync::OnceLock::new();
	S.get_or_init(|| std::array::from_fn(|i| sbox(i as u8)))
}
/// 8x8 state, byte i at row i % 8, column i / 8.
fn perm(input: &[u8; 64], q: bool) -> [u8; 64] {
	let sb = sboxes();
	let mut a = *input;
	for r in 0..10u8 {
		for c in 0..8 {
			if q {
				for row in 0..8 {
					a[c * 8 + row] ^= if row == 7 { 0xff ^ ((c as u8) << 4) ^ r } else { 0xff };
				}
			} else {
				a[c * 8] ^= ((c as u8) << 4) ^ r;
			}
		}
		for v in a.iter_mut() {
			*v = sb[*v as usize];
		}
		let sh: [usize; 8] = if q { [1, 3, 5, 7, 0, 2, 4, 6] } else { [0, 1, 2, 3, 4, 5, 6, 7] };
		let mut b = [0u8; 64];
		for row in 0..8 {
			for c in 0..8 {
				b[c * 8 + row] = a[(c + sh[row]) % 8 * 8 + row];
			}
		}
		let m = [2u8, 2, 3, 4, 5, 3, 5, 7];
		for c in 0..8 {
			for row in 0..8 {
				a[c * 8 + row] = (0..8).fold(0, |acc, k| acc ^ gmul(m[(k + 8 - row) % 8], b[c * 8 + k]));
			}
		}
	}
	a
}
fn groestl_ref(data: &[u8]) -> [u8; 32] {
	let mut msg = data.to_vec();
	msg.push(0x80);
	while msg.len() % 64 != 56 {
		msg.push(0);
	}
	let blocks = (msg.len() + 8) as u64 / 64;
	msg.extend_from_slice(&blocks.to_be_bytes());
	let mut h = [0u8; 64];
	h[62] = 1; // 256 bits
	for blk in msg.chunks(64) {
		let blk: [u8; 64] = blk.try_into().unwrap();
		let x: [u8; 64] = std::array::from_fn(|i| h[i] ^ blk[i]);
		let (p, q) = (perm(&x, false), perm(&blk, true));
		h = std::array::from_fn(|i| h[i] ^ p[i] ^ q[i]);
	}
	let p = perm(&h, false);
	std::array::from_fn(|i| p[32 + i] ^ h[32 + i])
}

// ---------------------------------------------------------------- Vision reference
fn aes32(x: BinaryField32b) -> AESTowerField32b {
	x.into()
}
fn affine(x: AESTowerField32b, m: &[AESTowerField32b; 32], c: AESTowerField32b) -> AESTowerField32b {
	let bits = x.to_underlier();
	let mut r = c;
	for (i, col) in m.iter().enumerate() {
		if bits >> i & 1 == 1 {
			r += *col;
		}
	}
	r
}
/// Extrapolation matrix from the points 0..24 to the points 24..48 of the canonical 8-bit field.
fn mds() -> &'static [[AESTowerField8b; 24]; 24] {
	static M: std::sync::OnceLock<[[AESTowerField8b; 24]; 24]> = std::sync::OnceLock::new();
	M.get_or_init(|| {
		let pt = |i: usize| BinaryField8b::from_underlier(i as u8);
		std::array::from_fn(|o| {
			std::array::from_fn(|i| {
				let mut n = BinaryField8b::ONE;
				let mut d = BinaryField8b::ONE;
				for k in 0..24 {
					if k != i {
						n *= pt(24 + o) - pt(k);
						d *= pt(i) - pt(k);
					}
				}
				AESTowerField8b::from(n * d.invert_or_zero())
			})
		})
	})
}
fn mds_ref(st: &[AESTowerField32b; 24]) -> [AESTowerField32b; 24] {
	let m = mds();
	std::array::from_fn(|o| (0..24).map(|i| st[i] * m[o][i]).sum())
}
fn vision_perm_ref(st: &[AESTowerField32b; 24]) -> [AESTowerField32b; 24] {
	let key = |st: [AESTowerField32b; 24], k: usize| -> [AESTowerField32b; 24] { std::array::from_fn(|i| st[i] + aes32(ROUND_KEYS[k][i])) };
	let mut st = key(*st, 0);
	for r in 0..NUM_ROUNDS {
		st = st.map(|x| affine(x.invert_or_zero(), &AFFINE_INV_AES, AFFINE_INV_CONST_AES));
		st = key(mds_ref(&st), 1 + 2 * r);
		st = st.map(|x| affine(x.invert_or_zero(), &AFFINE_FWD_AES, AFFINE_FWD_CONST_AES));
		st = key(mds_ref(&st), 2 + 2 * r);
	}
	st
}
fn vision_ref(data: &[u8]) -> [u8; 32] {
	let mut msg = data.to_vec();
	let pad = 64 - msg.len() % 64;
	let at = msg.len();
	msg.resize(at + pad, 0);
	msg[at] |= 0x80;
	*msg.last_mut().unwrap() |= 1;
	let mut st = [AESTowerField32b::ZERO; 24];
	for blk in msg.chunks(64) {
		for i in 0..16 {
			st[i] = aes32(BinaryField32b::from_underlier(u32::from_le_bytes(blk[4 * i..4 * i + 4].try_into().unwrap())));
		}
		st = vision_perm_ref(&st);
	}
	let mut out = [0u8; 32];
	for i in 0..8 {
		out[4 * i..4 * i + 4].copy_from_slice(&BinaryField32b::from(st[i]).to_underlier().to_le_bytes());
	}
	out
}

// ---------------------------------------------------------------- checks
fn dg<D: Digest>(d: &[u8]) -> Output<D> {
	<D as Digest>::digest(d)
}
fn len(s: &mut Src) -> usize {
	match s.index(4) {
		0 => *s.pick(&[0, 1, 31, 32, 54, 55, 56, 57, 63, 64, 65, 96, 119, 120, 127, 128, 129, 192, 255, 256, 257]),
		1 => s.range(0, 70),
		2 => s.range(0, 300),
		_ => s.range(0, 1200),
	}
}
fn cuts(s: &mut Src, n: usize) -> Vec<usize> {
	let k = s.range(0, 5);
	let mut c: Vec<usize> = (0..k).map(|_| if s.bool() { s.range(0, n) } else { (s.range(0, n) / 64 * 64).min(n) }).collect();
	c.extend([0, n]);
	c.sort();
	c
}
fn bytes_of(s: &mut Src, n: usize) -> Vec<u8> {
	match s.index(4) {
		0 => vec![0; n],
		1 => vec![0xff; n],
		_ => s.bytes(n),
	}
}

fn one_hash<D: Digest + BlockSizeUser + Clone + Default + FixedOutputReset>(s: &mut Src, name: &str, reference: fn(&[u8]) -> [u8; 32]) -> Res
where
	Output<D>: AsRef<[u8]>,
{
	let mut h = D::new();
	let rounds = s.range(1, 3);
	for round in 0..rounds {
		let n = len(s);
		let data = bytes_of(s, n);
		let c = cuts(s, n);
		s.desc(format!("{name} {n} bytes cut {c:?}"));
		s.nontrivial_if(n > 0);
		s.label_if(n >= 64, "multi-block");
		s.label_if(round > 0, "reused");
		let exp = reference(&data);
		ck_eq!(dg::<D>(&data).to_vec(), exp.to_vec(), "{name} one-shot of {n} bytes");
		match s.index(3) {
			0 => {
				for w in c.windows(2) {
					Digest::update(&mut h, &data[w[0]..w[1]]);
				}
			}
			1 => {
				let mut b = HashBuffer::new(&mut h);
				for w in c.windows(2) {
					b.put_slice(&data[w[0]..w[1]]);
				}
			}
			_ => {
				// written in pieces straight through the BufMut interface
				for w in c.windows(2) {
					let mut b = HashBuffer::new(&mut h);
					for x in &data[w[0]..w[1]] {
						b.put_u8(*x);
					}
				}
			}
		}
		let fork = h.clone();
		ck_eq!(fork.finalize().to_vec(), exp.to_vec(), "{name} incremental {c:?}");
		let mut out = Output::<D>::default();
		match s.index(3) {
			0 => {
				FixedOutputReset::finalize_into_reset(&mut h, &mut out);
				ck_eq!(out.as_slice(), &exp[..], "{name} finalize_into_reset");
			}
			1 => digest::Reset::reset(&mut h),
			_ => {
				let pre = bytes_of(s, 7);
				h = D::new_with_prefix(&pre);
				let mut cat = pre.clone();
				cat.extend_from_slice(&data);
				Digest::update(&mut h, &data);
				ck_eq!(Digest::finalize(h).to_vec(), reference(&cat).to_vec(), "{name} with prefix");
				h = D::new();
			}
		}
	}
	Ok(())
}
fn hashes(s: &mut Src) -> Res {
	match s.index(2) {
		0 => one_hash::<Groestl256>(s, "groestl", |d| {
			let own = groestl_ref(d);
			assert_eq!(&own[..], dg::<groestl_crypto::Groestl256>(d).as_slice(), "references disagree");
			own
		}),
		_ => one_hash::<VisionHasherDigest>(s, "vision", vision_ref),
	}
}

fn ser<F: TowerField>(items: &[F]) -> Vec<u8> {
	let mut b = vec![];
	for x in items {
		x.serialize(&mut b, SerializationMode::CanonicalTower).unwrap();
	}
	b
}

fn batch_one<H: ParallelDigest + Sync, F: Fd + TowerField>(s: &mut Src, name: &str, reference: fn(&[u8]) -> [u8; 32]) -> Res {
	let count = match s.index(3) {
		0 => s.range(0, 5),
		1 => *s.pick(&[4, 8, 31, 32, 33, 63, 64, 65]),
		_ => s.range(0, 100),
	};
	let per = s.range(0, 40).min(700 / F::BITS.max(8));
	let prefix_len = if s.bool() { 0 } else { s.range(1, 130) };
	let prefix = bytes_of(s, prefix_len);
	let threads = s.range(1, 3);
	s.desc(format!("{name} {count} messages of {per} {} prefix {}", F::NAME, prefix.len()));
	s.nontrivial_if(count > 1 && per > 0);
	s.label_if(count % 32 != 0, "partial batch");
	let msgs: Vec<Vec<F>> = (0..count).map(|_| vals(s, per)).collect();
	let h = if prefix.is_empty() { H::new() } else { H::new_with_prefix(&prefix) };
	let mut out: Vec<MaybeUninit<Output<H::Digest>>> = (0..count).map(|_| MaybeUninit::zeroed()).collect();
	let pool = rayon::ThreadPoolBuilder::new().num_threads(threads).build().unwrap();
	let res = {
		let (m, o, hh) = (&msgs, &mut out, &h);
		// Safety-free: moved into the pool and back
		let mut tmp = std::mem::take(o);
		let run = no_panic(std::panic::AssertUnwindSafe(|| {
			pool.install(|| hh.digest((0..m.len()).into_par_iter().map(|i| m[i].iter().copied()), &mut tmp))
		}));
		*o = tmp;
		run
	};
	res.map_err(|e| format!("{name}: digest of {count} messages of {per} panicked: {e}"))?;
	for (i, m) in msgs.iter().enumerate() {
		let mut cat = prefix.clone();
		cat.extend(ser(m));
		let got = unsafe { out[i].assume_init_ref() };
		ck_eq!(got.as_slice(), &reference(&cat)[..], "{name} message {i} of {count}");
	}
	Ok(())
}
fn batches(s: &mut Src) -> Res {
	fn g(d: &[u8]) -> [u8; 32] {
		dg::<groestl_crypto::Groestl256>(d).into()
	}
	fn v(d: &[u8]) -> [u8; 32] {
		dg::<VisionHasherDigest>(d).into()
	}
	fn sha(d: &[u8]) -> [u8; 32] {
		dg::<sha2::Sha256>(d).into()
	}
	match s.index(7) {
		0 => batch_one::<Groestl256Parallel, BinaryField128b>(s, "groestl-parallel", g),
		1 => batch_one::<Groestl256Parallel, AESTowerField8b>(s, "groestl-parallel", g),
		2 => batch_one::<Vision32ParallelDigest, BinaryField32b>(s, "vision-parallel", v),
		3 => batch_one::<Vision32ParallelDigest, AESTowerField128b>(s, "vision-parallel", v),
		4 => batch_one::<VisionHasherDigest, BinaryField8b>(s, "vision-serial", v),
		5 => batch_one::<Vision32ParallelDigest, BinaryField8b>(s, "vision-parallel", v),
		_ => batch_one::<sha2::Sha256, BinaryField64b>(s, "sha-serial", sha),
	}
}

fn multi(s: &mut Src) -> Res {
	let mut h = VisionHasherDigestByteSliced::new();
	let rounds = s.range(1, 2);
	for round in 0..rounds {
		let n = len(s).min(300);
		let rows: Vec<Vec<u8>> = (0..32).map(|_| bytes_of(s, n)).collect();
		let c = cuts(s, n);
		s.desc(format!("32 x {n} bytes cut {c:?}"));
		s.nontrivial_if(n > 0);
		s.label_if(round > 0, "reused");
		for w in c.windows(2) {
			h.update(std::array::from_fn(|i| &rows[i][w[0]..w[1]]));
		}
		let exp: Vec<Vec<u8>> = rows.iter().map(|r| dg::<VisionHasherDigest>(r).to_vec()).collect();
		let mut out: [MaybeUninit<Output<VisionHasherDigest>>; 32] = std::array::from_fn(|_| MaybeUninit::zeroed());
		if s.bool() {
			h.clone().finalize_into(&mut out);
			h.reset();
		} else {
			h.finalize_into_reset(&mut out);
		}
		let got: Vec<Vec<u8>> = out.iter().map(|o| unsafe { o.assume_init_ref() }.to_vec()).collect();
		ck_eq!(got, exp.clone(), "byte-sliced vision, round {round}");
		let mut out: [MaybeUninit<Output<VisionHasherDigest>>; 32] = std::array::from_fn(|_| MaybeUninit::zeroed());
		VisionHasherDigestByteSliced::digest(std::array::from_fn(|i| &rows[i][..]), &mut out);
		let got: Vec<Vec<u8>> = out.iter().map(|o| unsafe { o.assume_init_ref() }.to_vec()).collect();
		ck_eq!(got, exp, "one-shot byte-sliced vision");
	}
	Ok(())
}

fn permutation(s: &mut Src) -> Res {
	let sparse = s.chance(1, 3);
	let states: Vec<[AESTowerField32b; 24]> = (0..32)
		.map(|_| {
			let mut v: Vec<AESTowerField32b> = vals(s, 24);
			if sparse {
				let keep = s.index(24);
				for (i, x) in v.iter_mut().enumerate() {
					if i != keep {
						*x = Field::ZERO
					}
				}
			}
			v.try_into().unwrap()
		})
		.collect();
	s.desc(format!("sparse {sparse}"));
	s.nontrivial();
	let pk = |st: &[AESTowerField32b; 24]| -> [PackedAESBinaryField8x32b; 3] {
		std::array::from_fn(|i| PackedAESBinaryField8x32b::from_fn(|j| st[8 * i + j]))
	};
	let un = |p: &[PackedAESBinaryField8x32b; 3]| -> Vec<AESTowerField32b> { p.iter().flat_map(|p| p.iter()).collect() };
	let perm = Vision32bPermutation::default();
	let exp: Vec<_> = states.iter().map(vision_perm_ref).collect();
	let which = s.index(32);
	let mut p = pk(&states[which]);
	perm.permute_mut(&mut p);
	ck_eq!(un(&p), exp[which].to_vec(), "permutation of one state");
	ck_eq!(un(&perm.permute(pk(&states[0]))), exp[0].to_vec(), "permute by value");
	// linear layer alone
	let mut d = pk(&states[which]);
	Vision32MDSTransform::default().transform(PackedAESBinaryField8x32b::cast_bases_mut(&mut d).try_into().unwrap());
	ck_eq!(un(&d), mds_ref(&states[which]).to_vec(), "linear layer");
	// 32 states at once
	let mut bs: [ByteSlicedAES32x32b; 24] = std::array::from_fn(|i| ByteSlicedAES32x32b::from_fn(|j| states[j][i]));
	perm.permute_mut(&mut bs);
	for j in 0..32 {
		let got: Vec<_> = (0..24).map(|i| bs[i].get(j)).collect();
		ck_eq!(got, exp[j].to_vec(), "byte-sliced permutation, lane {j}");
	}
	Ok(())
}

fn sha_compress_ref(st: [u32; 8], blk: &[u8; 64]) -> [u32; 8] {
	// FIPS 180-4, constants from the fractional parts of the cube roots of the first 64 primes
	let primes: Vec<u64> = (2..400u64).filter(|n| (2..*n).all(|d| n % d != 0)).take(64).collect();
	let k: Vec<u32> = primes
		.iter()
		.map(|p| {
			// floor(cbrt(p) * 2^32) mod 2^32 = floor(cbrt(p << 96))
			let t = (*p as u128) << 96;
			let (mut lo, mut hi) = (0u128, 1u128 << 36);
			while hi - lo > 1 {
				let m = (lo + hi) / 2;
				if m.checked_mul(m).and_then(|x| x.checked_mul(m)).is_some_and(|x| x <= t) { lo = m } else { hi = m }
			}
			lo as u32
		})
		.collect();
	let mut w: Vec<u32> = blk.chunks(4).map(|c| u32::from_be_bytes(c.try_into().unwrap())).collect();
	for i in 16..64 {
		let s0 = w[i - 15].rotate_right(7) ^ w[i - 15].rotate_right(18) ^ (w[i - 15] >> 3);
		let s1 = w[i - 2].rotate_right(17) ^ w[i - 2].rotate_right(19) ^ (w[i - 2] >> 10);
		w.push(w[i - 16].wrapping_add(s0).wrapping_add(w[i - 7]).wrapping_add(s1));
	}
	let [mut a, mut b, mut c, mut d, mut e, mut f, mut g, mut h] = st;
	for i in 0..64 {
		let s1 = e.rotate_right(6) ^ e.rotate_right(11) ^ e.rotate_right(25);
		let ch = (e & f) ^ (!e & g);
		let t1 = h.wrapping_add(s1).wrapping_add(ch).wrapping_add(k[i]).wrapping_add(w[i]);
		let s0 = a.rotate_right(2) ^ a.rotate_right(13) ^ a.rotate_right(22);
		let t2 = s0.wrapping_add((a & b) ^ (a & c) ^ (b & c));
		(h, g, f, e, d, c, b, a) = (g, f, e, d.wrapping_add(t1), c, b, a, t1.wrapping_add(t2));
	}
	let n = [a, b, c, d, e, f, g, h];
	std::array::from_fn(|i| st[i].wrapping_add(n[i]))
}
fn compressions(s: &mut Src) -> Res {
	let l: [u8; 32] = bytes_of(s, 32).try_into().unwrap();
	let r: [u8; 32] = bytes_of(s, 32).try_into().unwrap();
	let mut cat = [0u8; 64];
	cat[..32].copy_from_slice(&l);
	cat[32..].copy_from_slice(&r);
	s.desc(format!("{l:02x?} {r:02x?}"));
	s.nontrivial_if(l != r);
	let p = perm(&cat, false);
	let exp: Vec<u8> = (32..64).map(|i| p[i] ^ cat[i]).collect();
	ck_eq!(Groestl256ByteCompression.compress([l.into(), r.into()]).to_vec(), exp, "groestl compression");
	ck_eq!(Vision32Compression.compress([l.into(), r.into()]).to_vec(), vision_ref(&cat).to_vec(), "vision compression");
	let iv = dg::<sha2::Sha256>(b"BINIUS SHA-256 COMPRESS");
	let iv: [u32; 8] = std::array::from_fn(|i| u32::from_ne_bytes(iv[4 * i..4 * i + 4].try_into().unwrap()));
	let exp: Vec<u8> = sha_compress_ref(iv, &cat).iter().flat_map(|w| w.to_ne_bytes()).collect();
	ck_eq!(Sha256Compression::default().compress([l.into(), r.into()]).to_vec(), exp, "sha compression");
	Ok(())
}

fn serialized(s: &mut Src) -> Res {
	fn go<F: Fd + TowerField>(s: &mut Src) -> Res {
		let n = s.range(0, 80);
		let v: Vec<F> = vals(s, n);
		s.desc(format!("{n} x {}", F::NAME));
		s.nontrivial_if(n > 1);
		let b = ser(&v);
		let g: Output<Groestl256> = hash_serialize::<F, Groestl256>(v.iter()).map_err(|e| e.to_string())?;
		ck_eq!(g.to_vec(), dg::<groestl_crypto::Groestl256>(&b).to_vec(), "hash_serialize groestl");
		let g: Output<sha2::Sha256> = hash_serialize::<F, sha2::Sha256>(v.iter()).map_err(|e| e.to_string())?;
		ck_eq!(g.to_vec(), dg::<sha2::Sha256>(&b).to_vec(), "hash_serialize sha");
		let g: Output<VisionHasherDigest> = hash_serialize::<F, VisionHasherDigest>(v.iter()).map_err(|e| e.to_string())?;
		ck_eq!(g.to_vec(), dg::<VisionHasherDigest>(&b).to_vec(), "hash_serialize vision");
		Ok(())
	}
	match s.index(6) {
		0 => go::<BinaryField8b>(s),
		1 => go::<BinaryField16b>(s),
		2 => go::<BinaryField64b>(s),
		3 => go::<BinaryField128b>(s),
		4 => go::<AESTowerField32b>(s),
		_ => go::<AESTowerField128b>(s),
	}
}

fn main() {
	run(Prop {
		id: "C14",
		rule: "non-empty input (for batches: at least two messages)",
		assumptions: &["the groestl and sha2 crates and the textbook references agree on every case", "messages up to 1200 bytes"],
		subs: vec![
			Sub { name: "hashes", quick: 8000, thorough: 60000, threads: 0, f: hashes },
			Sub { name: "batches", quick: 4000, thorough: 24000, threads: 0, f: batches },
			Sub { name: "multi", quick: 700, thorough: 5000, threads: 0, f: multi },
			Sub { name: "permutation", quick: 1500, thorough: 10000, threads: 0, f: permutation },
			Sub { name: "compressions", quick: 8000, thorough: 40000, threads: 0, f: compressions },
			Sub { name: "serialized", quick: 5000, thorough: 40000, threads: 0, f: serialized },
		],
	});
}
