//! Transcripts: the verifier replays the prover's messages and challenges exactly; every observed
//! byte influences every later challenge; nothing else does.
use binius_core::{
	fiat_shamir::{CanSample, CanSampleBits, HasherChallenger},
	transcript::{ProverTranscript, VerifierTranscript, read_u64, write_u64},
};
use binius_field::{PackedField, TowerField, *};
use binius_hash::{VisionHasherDigest, groestl::Groestl256};
use c_field::Fd;
use c_math::vals;
use digest::{Digest, FixedOutputReset, core_api::BlockSizeUser};
use vp::*;

#[derive(Clone, Debug, PartialEq)]
enum Data {
	Bytes(Vec<u8>),
	U64(u64),
	B1(Vec<BinaryField1b>),
	B8(Vec<BinaryField8b>),
	B32(Vec<BinaryField32b>),
	B128(Vec<BinaryField128b>),
	Aes(Vec<AESTowerField64b>),
	Poly(Vec<BinaryField128bPolyval>),
	Packed(Vec<PackedBinaryField4x32b>),
	PackedAes(Vec<PackedAESBinaryField4x64b>),
	VecU32(Vec<u32>),
}
#[derive(Clone, Debug, PartialEq)]
enum Op {
	Observe(Data),
	Message(Data, u8),
	Advice(Data, u8),
	Sample(u8, usize),
	Bits(usize),
}
fn data(s: &mut Src) -> Data {
	let n = if s.chance(1, 6) { s.range(0, 300) } else { s.range(0, 6) };
	match s.index(11) {
		0 => Data::Bytes(s.bytes(n)),
		1 => Data::U64(s.special_u64()),
		2 => Data::B1(vals(s, n)),
		3 => Data::B8(vals(s, n)),
		4 => Data::B32(vals(s, n)),
		5 => Data::B128(vals(s, n)),
		6 => Data::Aes(vals(s, n)),
		7 => Data::Poly(vals(s, n)),
		8 => {
			let v = vals(s, n * 4);
			Data::Packed(c_math::packed(&v))
		}
		9 => {
			let v = vals(s, n * 4);
			Data::PackedAes(c_math::packed(&v))
		}
		_ => Data::VecU32((0..n).map(|_| s.special_u64() as u32).collect()),
	}
}
/// The bytes a value must occupy on the tape.
fn bytes(d: &Data) -> Vec<u8> {
	fn f<F: TowerField>(v: impl IntoIterator<Item = F>, le: impl Fn(F) -> Vec<u8>) -> Vec<u8> {
		v.into_iter().flat_map(le).collect()
	}
	match d {
		Data::Bytes(b) => b.clone(),
		Data::U64(n) => n.to_le_bytes().to_vec(),
		Data::B1(v) => f(v.iter().copied(), |x| vec![x.raw() as u8]),
		Data::B8(v) => f(v.iter().copied(), |x| vec![x.raw() as u8]),
		Data::B32(v) => f(v.iter().copied(), |x| (x.raw() as u32).to_le_bytes().to_vec()),
		Data::B128(v) => f(v.iter().copied(), |x| x.raw().to_le_bytes().to_vec()),
		Data::Aes(v) => f(v.iter().copied(), |x| (BinaryField64b::from(x).raw() as u64).to_le_bytes().to_vec()),
		Data::Poly(v) => f(v.iter().copied(), |x| BinaryField128b::from(x).raw().to_le_bytes().to_vec()),
		Data::Packed(v) => f(v.iter().flat_map(|p| p.iter()), |x| (x.raw() as u32).to_le_bytes().to_vec()),
		Data::PackedAes(v) => f(v.iter().flat_map(|p| p.iter()), |x| (BinaryField64b::from(x).raw() as u64).to_le_bytes().to_vec()),
		Data::VecU32(v) => {
			let mut o = (v.len() as u32).to_le_bytes().to_vec();
			o.extend(v.iter().flat_map(|x| x.to_le_bytes()));
			o
		}
	}
}
macro_rules! put {
	($w:expr, $d:expr, $how:expr) => {{
		let mut w = $w;
		macro_rules! sc {
			($v:expr) => {
				match $how % 3 {
					0 => w.write_scalar_slice($v),
					1 => w.write_scalar_iter($v.iter().copied()),
					_ => {
						if $how % 2 == 0 {
							for x in $v {
								w.write_scalar(*x)
							}
						} else {
							w.write_slice($v)
						}
					}
				}
			};
		}
		match $d {
			Data::Bytes(b) => w.write_bytes(b),
			Data::U64(n) => write_u64(&mut w, *n),
			Data::B1(v) => sc!(v),
			Data::B8(v) => sc!(v),
			Data::B32(v) => sc!(v),
			Data::B128(v) => sc!(v),
			Data::Aes(v) => sc!(v),
			Data::Poly(v) => sc!(v),
			Data::Packed(v) => match $how % 3 {
				0 => w.write_packed_slice(v),
				1 => w.write_packed_iter(v.iter().copied()),
				_ => {
					for p in v {
						w.write_packed(*p)
					}
				}
			},
			Data::PackedAes(v) => match $how % 3 {
				0 => w.write_packed_slice(v),
				1 => w.write_packed_iter(v.iter().copied()),
				_ => {
					for p in v {
						w.write_packed(*p)
					}
				}
			},
			Data::VecU32(v) => w.write(v),
		}
	}};
}
macro_rules! get {
	($r:expr, $d:expr, $how:expr) => {{
		let mut r = $r;
		macro_rules! sc {
			($v:expr, $k:ident) => {
				match $how % 4 {
					0 => r.read_scalar_slice($v.len()).map(Data::$k),
					1 => {
						let mut o = vec![Default::default(); $v.len()];
						r.read_scalar_slice_into(&mut o).map(|_| Data::$k(o))
					}
					2 => r.read_vec($v.len()).map(Data::$k),
					_ => (0..$v.len()).map(|_| r.read_scalar()).collect::<Result<Vec<_>, _>>().map(Data::$k),
				}
			};
		}
		match $d {
			Data::Bytes(b) => {
				let mut o = vec![0; b.len()];
				r.read_bytes(&mut o).map(|_| Data::Bytes(o))
			}
			Data::U64(_) => read_u64(&mut r).map(Data::U64),
			Data::B1(v) => sc!(v, B1),
			Data::B8(v) => sc!(v, B8),
			Data::B32(v) => sc!(v, B32),
			Data::B128(v) => sc!(v, B128),
			Data::Aes(v) => sc!(v, Aes),
			Data::Poly(v) => sc!(v, Poly),
			Data::Packed(v) => r.read_packed_slice(v.len()).map(Data::Packed),
			Data::PackedAes(v) => r.read_packed_slice(v.len()).map(Data::PackedAes),
			Data::VecU32(_) => r.read().map(Data::VecU32),
		}
		.map_err(|e| e.to_string())
	}};
}
macro_rules! sample {
	($t:expr, $k:expr, $n:expr) => {
		match $k {
			0 => CanSample::<BinaryField128b>::sample_vec($t, $n).iter().map(|x| x.raw()).collect::<Vec<u128>>(),
			1 => CanSample::<BinaryField8b>::sample_vec($t, $n).iter().map(|x| x.raw()).collect(),
			2 => CanSample::<AESTowerField128b>::sample_vec($t, $n).iter().map(|x| x.raw()).collect(),
			3 => CanSample::<BinaryField1b>::sample_vec($t, $n).iter().map(|x| x.raw()).collect(),
			_ => CanSample::<BinaryField64b>::sample_vec($t, $n).iter().map(|x| x.raw()).collect(),
		}
	};
}
fn op(s: &mut Src) -> Op {
	match s.weighted(&[2, 4, 2, 3, 1]) {
		0 => Op::Observe(data(s)),
		1 => Op::Message(data(s), s.index(12) as u8),
		2 => Op::Advice(data(s), s.index(12) as u8),
		3 => Op::Sample(s.index(5) as u8, if s.chance(1, 8) { s.range(0, 30) } else { s.range(0, 3) }),
		_ => Op::Bits(s.range(0, 34)),
	}
}
type Ch<H> = HasherChallenger<H>;

/// Runs the prover's side: proof bytes and one entry per sampling operation.
fn prover<H: Digest + BlockSizeUser + FixedOutputReset + Default>(ops: &[Op], dbg: bool) -> (Vec<u8>, Vec<Vec<u128>>) {
	let mut t = ProverTranscript::<Ch<H>>::new();
	t.set_debug(dbg);
	let mut ch = vec![];
	for o in ops {
		match o {
			Op::Observe(d) => put!(t.observe(), d, 0),
			Op::Message(d, h) => put!(t.message(), d, *h),
			Op::Advice(d, h) => put!(t.decommitment(), d, *h),
			Op::Sample(k, n) => ch.push(sample!(&mut t, *k, *n)),
			Op::Bits(b) => ch.push(vec![t.sample_bits(*b) as u128]),
		}
	}
	(t.finalize(), ch)
}
/// Runs the verifier's side; the challenges seen, and what stopped it, if anything did.
fn verifier<H: Digest + BlockSizeUser + FixedOutputReset + Default>(ops: &[Op], proof: Vec<u8>, how: u8) -> (Vec<Vec<u128>>, Result<(), String>) {
	let mut t = VerifierTranscript::<Ch<H>>::new(proof);
	let mut ch = vec![];
	for (i, o) in ops.iter().enumerate() {
		match o {
			Op::Observe(d) => put!(t.observe(), d, how),
			Op::Message(d, h) => match get!(t.message(), d, h.wrapping_add(how)) {
				Ok(v) if v == *d => {}
				Ok(v) => return (ch, Err(format!("op {i}: read {v:?} instead of {d:?}"))),
				Err(e) => return (ch, Err(format!("op {i}: {e}"))),
			},
			Op::Advice(d, h) => match get!(t.decommitment(), d, h.wrapping_add(how)) {
				Ok(v) if v == *d => {}
				Ok(v) => return (ch, Err(format!("op {i}: read {v:?} instead of {d:?}"))),
				Err(e) => return (ch, Err(format!("op {i}: {e}"))),
			},
			Op::Sample(k, n) => ch.push(sample!(&mut t, *k, *n)),
			Op::Bits(b) => ch.push(vec![t.sample_bits(*b) as u128]),
		}
	}
	let end = t.finalize().map_err(|e| format!("finalize: {e}"));
	(ch, end)
}

fn check<H: Digest + BlockSizeUser + FixedOutputReset + Default>(s: &mut Src, name: &str) -> Res {
	let n = s.range(1, 14);
	let ops: Vec<Op> = (0..n).map(|_| op(s)).collect();
	s.desc(format!("{name} {ops:?}").chars().take(600).collect::<String>());
	s.nontrivial_if(ops.iter().any(|o| matches!(o, Op::Message(..))) && ops.iter().any(|o| matches!(o, Op::Sample(_, 1..))));
	let (proof, ch) = prover::<H>(&ops, s.bool());
	let tape: Vec<u8> = ops
		.iter()
		.flat_map(|o| match o {
			Op::Message(d, _) | Op::Advice(d, _) => bytes(d),
			_ => vec![],
		})
		.collect();
	ck_eq!(proof.clone(), tape, "proof bytes");
	for (o, c) in ops.iter().filter(|o| matches!(o, Op::Sample(..) | Op::Bits(_))).zip(&ch) {
		match o {
			Op::Bits(b) => ck!(*b >= 32 || c[0] >> *b == 0, "{b} sampled bits gave {:x}", c[0]),
			Op::Sample(k, n) => {
				ck_eq!(c.len(), *n, "number of samples");
				let w = [128, 8, 128, 1, 64][*k as usize];
				ck!(w == 128 || c.iter().all(|x| x >> w == 0), "sample out of the field");
			}
			_ => {}
		}
	}
	let (vch, end) = verifier::<H>(&ops, proof.clone(), s.index(4) as u8);
	end.map_err(|e| format!("verifier could not replay: {e}"))?;
	ck_eq!(vch, ch.clone(), "challenges of prover and verifier");
	// determinism
	ck_eq!(prover::<H>(&ops, false), (proof.clone(), ch.clone()), "second run");
	// trailing and missing bytes are noticed
	let mut longer = proof.clone();
	longer.push(s.index(256) as u8);
	ck!(verifier::<H>(&ops, longer, 0).1.is_err(), "trailing byte unnoticed");
	if !proof.is_empty() {
		let cut = s.index(proof.len());
		let (_, end) = no_panic(|| verifier::<H>(&ops, proof[..cut].to_vec(), s.index(4) as u8)).map_err(|e| format!("short proof: {e}"))?;
		ck!(end.is_err(), "proof cut to {cut} of {} bytes read in full", proof.len());
	}
	// change one byte of one observed value: all later challenges change, earlier ones stay
	let mut alt = ops.clone();
	let k = s.index(n);
	let wide = |c: &Vec<Vec<u128>>, from: usize| -> Vec<u128> { c[from..].iter().flatten().copied().collect() };
	let n_before = ops[..k].iter().filter(|o| matches!(o, Op::Sample(..) | Op::Bits(_))).count();
	let bits_after: usize = ops[k..]
		.iter()
		.map(|o| match o {
			Op::Sample(k, n) => [128, 8, 128, 1, 64][*k as usize] * n,
			Op::Bits(b) => *b.min(&32),
			_ => 0,
		})
		.sum();
	let mutate = |d: &mut Data, s: &mut Src| -> bool {
		macro_rules! mm {
			($v:expr, $t:ty) => {{
				if $v.is_empty() {
					return false;
				}
				let i = s.index($v.len());
				$v[i] += <$t as Field>::ONE;
				true
			}};
		}
		match d {
			Data::Bytes(b) => {
				if b.is_empty() {
					return false;
				}
				let i = s.index(b.len());
				b[i] ^= 1 << s.index(8);
				true
			}
			Data::U64(v) => {
				*v ^= 1 << s.index(64);
				true
			}
			Data::B1(v) => mm!(v, BinaryField1b),
			Data::B8(v) => mm!(v, BinaryField8b),
			Data::B32(v) => mm!(v, BinaryField32b),
			Data::B128(v) => mm!(v, BinaryField128b),
			Data::Aes(v) => mm!(v, AESTowerField64b),
			Data::Poly(v) => mm!(v, BinaryField128bPolyval),
			Data::Packed(v) => {
				if v.is_empty() {
					return false;
				}
				let i = s.index(v.len());
				let l = s.index(4);
				let x = v[i].get(l) + BinaryField32b::ONE;
				v[i].set(l, x);
				true
			}
			Data::PackedAes(v) => {
				if v.is_empty() {
					return false;
				}
				let i = s.index(v.len());
				let l = s.index(4);
				let x = v[i].get(l) + AESTowerField64b::ONE;
				v[i].set(l, x);
				true
			}
			Data::VecU32(v) => {
				v.push(7);
				true
			}
		}
	};
	match &mut alt[k] {
		Op::Observe(d) | Op::Message(d, _) => {
			if mutate(d, s) {
				let (_, c2) = prover::<H>(&alt, false);
				ck_eq!(c2[..n_before].to_vec(), ch[..n_before].to_vec(), "challenges before the change at op {k}");
				if bits_after >= 64 {
					s.label("sensitive");
					ck!(wide(&c2, n_before) != wide(&ch, n_before), "challenges ignore the observed value of op {k}");
					// each later full-size challenge separately
					for (a, b) in c2[n_before..].iter().zip(&ch[n_before..]) {
						for (x, y) in a.iter().zip(b) {
							ck!(x != y || x >> 64 == 0, "a challenge after op {k} did not change");
						}
					}
				}
			}
		}
		Op::Advice(d, _) => {
			if mutate(d, s) {
				ck_eq!(prover::<H>(&alt, false).1, ch.clone(), "challenges after changing advice of op {k}");
			}
		}
		// drawing more changes nothing drawn before, and repeats nothing
		Op::Sample(_, n) => {
			*n += 1;
			let (_, c2) = prover::<H>(&alt, false);
			ck_eq!(c2[..n_before].to_vec(), ch[..n_before].to_vec(), "challenges before op {k}");
			ck_eq!(c2[n_before][..ch[n_before].len()].to_vec(), ch[n_before].clone(), "prefix of the samples of op {k}");
			for (a, b) in c2[n_before + 1..].iter().zip(&ch[n_before + 1..]) {
				for (x, y) in a.iter().zip(b) {
					ck!(x != y || x >> 64 == 0, "a challenge does not depend on how much was sampled by op {k}");
				}
			}
		}
		Op::Bits(_) => {}
	}
	let big: Vec<u128> = ch.iter().flatten().copied().filter(|x| x >> 64 != 0).collect();
	let distinct: std::collections::BTreeSet<u128> = big.iter().copied().collect();
	ck_eq!(distinct.len(), big.len(), "repeated challenges");
	Ok(())
}
fn all(s: &mut Src) -> Res {
	if s.chance(5, 6) { check::<Groestl256>(s, "groestl") } else { check::<VisionHasherDigest>(s, "vision") }
}

fn main() {
	run(Prop {
		id: "C16",
		rule: "histories with at least one message and one sampled challenge",
		assumptions: &["hash functions (C14); no collision of 64 sampled bits occurs", "histories of up to 14 operations"],
		subs: vec![Sub { name: "histories", quick: 30000, thorough: 600000, threads: 0, f: all }],
	});
}
