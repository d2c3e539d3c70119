//! Reed-Solomon encoding and the FRI proximity test against an independent reference verifier.
use binius_compute::{ComputeData, ComputeHolder, ComputeLayer, alloc::ComputeAllocator, cpu::layer::CpuLayerHolder};
use binius_core::{
	fiat_shamir::{CanSampleBits, HasherChallenger},
	merkle_tree::{BinaryMerkleTreeProver, MerkleTreeProver},
	protocols::fri::{
		self, CommitOutput, FRIFolder, FRIParams, FRIVerifier, FoldRoundOutput, calculate_n_test_queries,
		estimate_optimal_arity,
	},
	reed_solomon::reed_solomon::ReedSolomonCode,
	transcript::{ProverTranscript, VerifierTranscript},
};
use binius_fast_compute::layer::FastCpuLayerHolder;
use binius_field::{tower::CanonicalTowerFamily, arch::packed_128::*, arch::packed_256::*, arch::packed_512::*, arch::packed_64::*, *};
use binius_hash::groestl::{Groestl256, Groestl256ByteCompression, Groestl256Parallel};
use binius_math::BinarySubspace;
use binius_ntt::{AdditiveNTT, DynamicDispatchNTT, NTTOptions, ThreadingSettings};
use c_field::Fd;
use c_math::{novel::*, packed, scalars, vals};
use vp::*;

type B128 = BinaryField128b;
type Ch = HasherChallenger<Groestl256>;

fn make<F: BinaryField>(s: &mut Src, log_domain: usize) -> DynamicDispatchNTT<F> {
	let k = s.weighted(&[4, 1, 1]);
	let precompute = s.bool();
	DynamicDispatchNTT::new(log_domain, &NTTOptions {
		precompute_twiddles: precompute,
		thread_settings: if k == 0 {
			ThreadingSettings::SingleThreaded
		} else {
			ThreadingSettings::ExplicitThreadsCount { log_threads: k }
		},
	})
	.unwrap()
}

/// The codewords of an interleaved batch of messages: evaluations over the whole domain.
fn encode_ref<FA: BinaryField, FE: ExtensionField<FA>>(r: &Ref<FA>, msg: &[FE], log_dim: usize, log_len: usize, log_batch: usize) -> Vec<FE> {
	let mut out = Vec::with_capacity(1 << (log_len + log_batch));
	for y in 0..1usize << log_len {
		let nv = r.nov(log_len).at(log_dim, point(r.dom(log_len), y));
		for x in 0..1usize << log_batch {
			out.push(nv.iter().enumerate().map(|(j, a)| msg[j << log_batch | x] * *a).sum());
		}
	}
	out
}

// ------------------------------------------------------------------------------------------------

fn enc<FA, PE>(s: &mut Src) -> Res
where
	FA: Fd,
	PE: PackedExtension<FA, Scalar: Fd + ExtensionField<FA>>,
{
	type S<P> = <P as PackedField>::Scalar;
	let maxlog = if s.thorough { 9 } else { 7 };
	let log_dim = s.weighted(&[3, 4, 4, 3, 2, 1, 1]).min(FA::BITS - 1);
	let log_inv = s.range(0, 3.min(FA::BITS - log_dim).min(maxlog - log_dim));
	let log_batch = s.weighted(&[5, 3, 2, 1, 1]);
	let log_len = log_dim + log_inv;
	let log_domain = (log_len + s.weighted(&[4, 1, 1])).clamp(1, FA::BITS);
	// a code of one symbol has no evaluation domain
	if log_len == 0 || log_len > log_domain {
		s.discard();
		return Ok(());
	}
	let ntt = make::<FA>(s, log_domain);
	let own = s.bool();
	s.desc(format!(
		"width {} of {} over {}: log_dim {log_dim} inv_rate {log_inv} batch {log_batch} domain {log_domain} own {own}",
		PE::WIDTH,
		S::<PE>::NAME,
		FA::NAME
	));
	let code = if own {
		ReedSolomonCode::<FA>::new(log_dim, log_inv)
	} else {
		ReedSolomonCode::<FA>::with_ntt_subspace(&ntt, log_dim, log_inv)
	}
	.map_err(|e| format!("code refused: {e}"))?;
	ck_eq!((code.dim(), code.log_dim(), code.len(), code.log_len(), code.inv_rate(), code.log_inv_rate()), (1 << log_dim, log_dim, 1 << log_len, log_len, 1 << log_inv, log_inv), "code dimensions");
	let basis: Vec<FA> = BinarySubspace::<FA>::with_dim(log_domain).unwrap().basis().to_vec();
	let r = Ref::new(&basis);
	let want_basis: Vec<FA> =
		if own { BinarySubspace::<FA>::with_dim(log_len).unwrap().basis().to_vec() } else { r.dom(log_len).to_vec() };
	ck_eq!(code.subspace().basis().to_vec(), want_basis.clone(), "evaluation domain of the code");
	let n = log_len + log_batch;
	let len = 1usize << n.saturating_sub(PE::LOG_WIDTH);
	let msg: Vec<S<PE>> = vals(s, 1 << (log_dim + log_batch));
	// the message sits at the start; what lies behind it is overwritten
	let mut all: Vec<S<PE>> = vals(s, len << PE::LOG_WIDTH);
	all[..msg.len()].copy_from_slice(&msg);
	let mut buf: Vec<PE> = packed(&all);
	s.nontrivial_if(log_dim > 0 && log_inv > 0);
	s.label_if(log_dim + log_batch < PE::LOG_WIDTH, "message narrower than a packed element");
	s.label_if(log_len + log_batch < PE::LOG_WIDTH, "codeword narrower than a packed element");
	if s.chance(1, 8) {
		let wrong = [len + 1, len * 2, len - 1, 0][s.index(4)];
		let mut b2 = buf.clone();
		b2.resize(wrong, PE::zero());
		let got = no_panic(|| code.encode_ext_batch_inplace(&ntt, &mut b2, log_batch).is_ok());
		ck_eq!(got, Ok(false), "encoding into a buffer of {wrong} instead of {len} elements accepted");
		s.label("wrong buffer");
	}
	let same = want_basis == r.dom(log_len);
	let got = no_panic(|| code.encode_ext_batch_inplace(&ntt, &mut buf, log_batch).is_ok());
	ck_eq!(got, Ok(same), "encoding accepted");
	if !same {
		s.label("mismatched transform");
		return Ok(());
	}
	let want = encode_ref(&r, &msg, log_dim, log_len, log_batch);
	let out = scalars(&buf);
	for i in 0..want.len() {
		ck_eq!(out[i], want[i], "codeword {} at {}", i & ((1 << log_batch) - 1), i >> log_batch);
	}
	Ok(())
}

fn encode(s: &mut Src) -> Res {
	macro_rules! go {
		($($fa:ty, $pe:ty);* $(;)?) => {{
			let fs: &[fn(&mut Src) -> Res] = &[$(enc::<$fa, $pe>),*];
			let i = s.index(fs.len());
			fs[i](s)
		}};
	}
	go!(
		BinaryField8b, BinaryField128b;
		BinaryField8b, BinaryField8b;
		BinaryField8b, PackedBinaryField16x8b;
		BinaryField8b, PackedBinaryField2x32b;
		BinaryField8b, PackedBinaryField4x128b;
		BinaryField16b, BinaryField16b;
		BinaryField16b, BinaryField128b;
		BinaryField16b, PackedBinaryField8x16b;
		BinaryField16b, PackedBinaryField32x16b;
		BinaryField16b, PackedBinaryField8x32b;
		BinaryField16b, PackedBinaryField2x128b;
		BinaryField16b, PackedBinaryField4x128b;
		BinaryField32b, BinaryField128b;
		BinaryField32b, PackedBinaryField2x64b;
		BinaryField32b, PackedBinaryField2x128b;
		BinaryField32b, PackedBinaryField4x128b;
		BinaryField32b, PackedBinaryField4x32b;
		AESTowerField8b, AESTowerField128b;
		AESTowerField16b, PackedAESBinaryField2x128b;
		AESTowerField32b, PackedAESBinaryField4x64b;
	)
}

// ------------------------------------------------------------------------------------------------

/// Folds a word over the domain of dimension `log_len` with the challenges, batch variables first.
fn fold_word<FA: BinaryField>(r: &Ref<FA>, word: &[B128], mut log_len: usize, log_batch: usize, ch: &[B128]) -> Vec<B128>
where
	B128: ExtensionField<FA>,
{
	let mut w = word.to_vec();
	for (k, c) in ch.iter().enumerate() {
		if k < log_batch {
			w = w.chunks(2).map(|p| p[0] + (p[1] - p[0]) * *c).collect();
			continue;
		}
		w = w
			.chunks(2)
			.enumerate()
			.map(|(i, p)| {
				// the values at x and x + b_0 of u + v X_0
				let t = r.nov(log_len).at(1, point(r.dom(log_len), i << 1))[1];
				let v = p[0] + p[1];
				let u = p[0] + v * t;
				u + (v - u) * *c
			})
			.collect();
		log_len -= 1;
	}
	w
}

struct Case {
	log_dim: usize,
	log_inv: usize,
	log_batch: usize,
	arities: Vec<usize>,
	queries: usize,
}
impl Case {
	fn log_len(&self) -> usize {
		self.log_dim + self.log_inv
	}
	fn rounds(&self) -> usize {
		self.log_dim + self.log_batch
	}
	fn n_final(&self) -> usize {
		self.rounds() - self.arities.iter().sum::<usize>()
	}
	/// (log length of the word, its batch variables, number of challenges folded before the next).
	fn shape(&self, i: usize) -> (usize, usize, usize) {
		let done: usize = self.arities[..i].iter().sum();
		let n = self.arities.get(i).copied().unwrap_or(self.n_final());
		if i == 0 { (self.log_len(), self.log_batch, n) } else { (self.log_len() - (done - self.log_batch), 0, n) }
	}
}

fn case(s: &mut Src) -> Case {
	let log_dim = s.weighted(&[1, 2, 3, 4, 4, 3, 1]);
	let log_inv = s.range(0, 3);
	let log_batch = s.weighted(&[4, 3, 3, 2]).max(if log_dim == 0 { 1 } else { 0 });
	let mut arities = vec![];
	let total = log_dim + log_batch;
	let mut left = total - 1;
	loop {
		let lo = if arities.is_empty() { log_batch.max(1) } else { 1 };
		if left < lo || s.chance(1, 5) {
			break;
		}
		let a = if s.bool() { lo.min(left) } else { s.range(lo, left.min(lo + 3)) };
		arities.push(a);
		left -= a;
	}
	let queries = s.weighted(&[0, 4, 3, 3, 2, 1, 1, 1, 1]);
	Case { log_dim, log_inv, log_batch, arities, queries }
}

type Mp = BinaryMerkleTreeProver<B128, Groestl256Parallel, Groestl256ByteCompression>;

/// Commitments and proof tape of a prover sending the given oracles, honest or not.
fn prove_with(c: &Case, mp: &Mp, words: &[Vec<B128>], terminal: &[B128], pre: &[u8]) -> (Vec<digest::Output<Groestl256>>, Vec<u8>, Vec<usize>, usize) {
	let mut t = ProverTranscript::<Ch>::new();
	t.message().write_bytes(pre);
	let mut com = vec![];
	let mut trees = vec![];
	for (i, w) in words.iter().enumerate() {
		let (_, _, n) = c.shape(i);
		let (cm, tree) = mp.commit(w, 1 << n).unwrap();
		com.push(cm.root);
		trees.push(tree);
		t.message().write(&com[i]);
	}
	// everything from here on is decommitment
	let start = pre.len() + 32 * words.len();
	t.decommitment().write_scalar_slice(terminal);
	let depth = |i: usize| {
		let (ll, b, n) = c.shape(i);
		(ll + b - n).min((usize::BITS - (c.queries - 1).leading_zeros()) as usize)
	};
	for i in 0..c.arities.len() {
		let layer = mp.layer(&trees[i], depth(i)).unwrap().to_vec();
		t.decommitment().write_slice(&layer);
	}
	let bits = c.arities.first().map(|a| c.log_len() + c.log_batch - a).unwrap_or(0);
	let mut idx = vec![];
	for _ in 0..c.queries {
		let mut index = t.sample_bits(bits) as usize;
		idx.push(index);
		for (i, a) in c.arities.iter().enumerate() {
			if i > 0 {
				index >>= a;
			}
			t.decommitment().write_scalar_slice(&words[i][index << a..(index + 1) << a]);
			mp.prove_opening(&trees[i], depth(i), index, &mut t.decommitment()).unwrap();
		}
	}
	(com, t.finalize(), idx, start)
}

/// What a verifier doing every check must conclude, given the oracles in full.
fn judge<FA: BinaryField>(r: &Ref<FA>, c: &Case, words: &[Vec<B128>], terminal: &[B128], idx: &[usize], ch: &[B128]) -> Result<B128, &'static str>
where
	B128: ExtensionField<FA>,
{
	if terminal != words.last().unwrap().as_slice() {
		return Err("terminal word is not the committed one");
	}
	let mut at = 0;
	let mut folded = vec![];
	for (i, w) in words.iter().enumerate() {
		let (ll, b, n) = c.shape(i);
		folded.push(fold_word(r, w, ll, b, &ch[at..at + n]));
		at += n;
	}
	let last = folded.pop().unwrap();
	if last.iter().any(|v| *v != last[0]) {
		return Err("terminal word is not a codeword");
	}
	for &k in idx {
		let mut k = k;
		for (i, f) in folded.iter().enumerate() {
			if i > 0 {
				k >>= c.arities[i];
			}
			if f[k] != words[i + 1][k] {
				return Err("inconsistent fold");
			}
		}
	}
	Ok(last[0])
}

fn verify<FA: TowerField>(c: &Case, params: &FRIParams<B128, FA>, mp: &Mp, ch: &[B128], tape: &[u8], pre: usize) -> Result<Result<B128, String>, String>
where
	B128: ExtensionField<FA>,
{
	no_panic(|| {
		let mut t = VerifierTranscript::<Ch>::new(tape.to_vec());
		let mut b = vec![0; pre];
		t.message().read_bytes(&mut b).map_err(|e| e.to_string())?;
		let com: digest::Output<Groestl256> = t.message().read().map_err(|e| e.to_string())?;
		let rest: Vec<digest::Output<Groestl256>> = t.message().read_vec(c.arities.len()).map_err(|e| e.to_string())?;
		let v = FRIVerifier::new(params, mp.scheme(), &com, &rest, ch).map_err(|e| e.to_string())?;
		let r = v.verify(&mut t).map_err(|e| e.to_string())?;
		t.finalize().map_err(|e| e.to_string())?;
		Ok(r)
	})
}

fn folder<FA, P, Hal: ComputeLayer<B128>>(hal: &Hal, alloc: &impl ComputeAllocator<B128, Hal::DevMem>, params: &FRIParams<B128, FA>, ntt: &(impl AdditiveNTT<FA> + Sync), mp: &Mp, out: &CommitOutput<P, digest::Output<Groestl256>, <Mp as MerkleTreeProver<B128>>::Committed>, pre: &[u8], ch: &[B128]) -> Result<(Vec<digest::Output<Groestl256>>, Vec<u8>), String>
where
	FA: TowerField,
	P: PackedField<Scalar = B128>,
	B128: ExtensionField<FA>,
{
	let mut t = ProverTranscript::<Ch>::new();
	t.message().write_bytes(pre);
	t.message().write(&out.commitment);
	let mut f = FRIFolder::new(hal, params, ntt, mp, &out.codeword, &out.committed).map_err(|e| format!("folder: {e}"))?;
	let mut com = vec![out.commitment];
	for c in ch {
		match f.execute_fold_round(alloc, *c).map_err(|e| format!("fold round: {e}"))? {
			FoldRoundOutput::NoCommitment => {}
			FoldRoundOutput::Commitment(d) => {
				t.message().write(&d);
				com.push(d);
			}
		}
	}
	f.finish_proof(&mut t).map_err(|e| format!("finish: {e}"))?;
	Ok((com, t.finalize()))
}

fn fri_case<FA, P>(s: &mut Src) -> Res
where
	FA: Fd,
	P: PackedExtension<FA, Scalar = B128>,
	B128: ExtensionField<FA>,
{
	let c = case(s);
	if c.rounds() < P::LOG_WIDTH || c.log_len() > FA::BITS || c.log_len() == 0 {
		s.discard();
		return Ok(());
	}
	let log_domain = (c.log_len() + s.weighted(&[4, 1, 1])).clamp(1, FA::BITS);
	let ntt = make::<FA>(s, log_domain);
	let code = ReedSolomonCode::with_ntt_subspace(&ntt, c.log_dim, c.log_inv).unwrap();
	// the verifier builds its own transform from the subspace of the code
	let r = Ref::new(code.subspace().basis());
	let params = FRIParams::<B128, FA>::new(code, c.log_batch, c.arities.clone(), c.queries).map_err(|e| format!("parameters refused: {e}"))?;
	ck_eq!(
		(params.n_fold_rounds(), params.n_oracles(), params.n_final_challenges(), params.log_len(), params.n_test_queries()),
		(c.rounds(), c.arities.len(), c.n_final(), c.log_len() + c.log_batch, c.queries),
		"parameters"
	);
	let pre = s.u64().to_le_bytes();
	let ch: Vec<B128> = (0..c.rounds()).map(|_| Fd::draw(s)).collect();
	let msg: Vec<B128> = vals(s, 1 << c.rounds());
	s.desc(format!("width {} over {}: log_dim {} inv_rate {} batch {} arities {:?} queries {} ", P::WIDTH, FA::NAME, c.log_dim, c.log_inv, c.log_batch, c.arities, c.queries));
	s.nontrivial_if(!c.arities.is_empty());
	s.label(format!("{} oracles", c.arities.len()));

	// honest: the oracles are the codewords of the folded messages
	let fold_msg = |m: &[B128], k: usize| {
		let mut f = m.to_vec();
		for c in &ch[..k] {
			f = f.chunks(2).map(|p| p[0] + (p[1] - p[0]) * *c).collect();
		}
		f
	};
	let oracle = |m: &[B128], i: usize| {
		let (ll, b, _) = c.shape(i);
		let done: usize = c.arities[..i].iter().sum();
		encode_ref(&r, &fold_msg(m, done), ll - c.log_inv, ll, b)
	};
	let words: Vec<Vec<B128>> = (0..=c.arities.len()).map(|i| oracle(&msg, i)).collect();
	let mp = Mp::new(Groestl256ByteCompression);
	let value = fold_msg(&msg, c.rounds())[0];
	// the repository's prover
	let pm: Vec<P> = packed(&msg);
	let out = fri::commit_interleaved(params.rs_code(), &params, &ntt, &mp, &pm).map_err(|e| format!("commit refused: {e}"))?;
	ck!(scalars(&out.codeword) == words[0], "committed word is not the encoding of the message");
	let (com, tape) = if s.bool() {
		let mut h = CpuLayerHolder::<B128>::new(1 << 10, 1 << 15);
		let ComputeData { hal, dev_alloc, .. } = h.to_data();
		folder(hal, &dev_alloc, &params, &ntt, &mp, &out, &pre, &ch)?
	} else if s.bool() {
		let mut h = FastCpuLayerHolder::<CanonicalTowerFamily, PackedBinaryField1x128b>::new(1 << 10, 1 << 15);
		let ComputeData { hal, dev_alloc, .. } = h.to_data();
		folder(hal, &dev_alloc, &params, &ntt, &mp, &out, &pre, &ch)?
	} else {
		let mut h = FastCpuLayerHolder::<CanonicalTowerFamily, PackedBinaryField2x128b>::new(1 << 10, 1 << 15);
		let ComputeData { hal, dev_alloc, .. } = h.to_data();
		folder(hal, &dev_alloc, &params, &ntt, &mp, &out, &pre, &ch)?
	};
	let (rcom, rtape, idx, start) = prove_with(&c, &mp, &words, words.last().unwrap(), &pre);
	ck!(com == rcom, "round oracles are not the encodings of the folded messages");
	let got = verify(&c, &params, &mp, &ch, &tape, pre.len());
	ck_eq!(got, Ok(Ok(value)), "honest proof");
	ck_eq!(judge(&r, &c, &words, words.last().unwrap(), &idx, &ch), Ok(value), "harness: reference verifier on an honest proof");
	ck_eq!(verify(&c, &params, &mp, &ch, &rtape, pre.len()), Ok(Ok(value)), "honest proof by the reference prover");

	// cheating provers
	for _ in 0..4 {
		let mut w = words.clone();
		let mut vch = ch.clone();
		let mut term = None;
		let kind = s.index(6);
		let what = match kind {
			0 => {
				// from oracle i on, another message
				let i = s.index(w.len());
				let m2: Vec<B128> = vals(s, 1 << c.rounds());
				for j in i..w.len() {
					w[j] = oracle(&m2, j);
				}
				format!("another message from oracle {i}")
			}
			1 => {
				// a few wrong symbols, the later oracles folded from them or not
				let i = s.index(w.len());
				for _ in 0..s.range(1, 4) {
					let k = s.index(w[i].len());
					w[i][k] += B128::of(s.special_u128() | 1);
				}
				let follow = s.bool();
				if follow {
					for j in i..c.arities.len() {
						let (ll, b, n) = c.shape(j);
						let at: usize = c.arities[..j].iter().sum();
						w[j + 1] = fold_word(&r, &w[j], ll, b, &ch[at..at + n]);
					}
				}
				format!("wrong symbols in oracle {i}, followed {follow}")
			}
			2 => {
				let i = s.index(w.len());
				w[i] = vals(s, w[i].len());
				for j in i..c.arities.len() {
					let (ll, b, n) = c.shape(j);
					let at: usize = c.arities[..j].iter().sum();
					w[j + 1] = fold_word(&r, &w[j], ll, b, &ch[at..at + n]);
				}
				format!("random word as oracle {i}")
			}
			3 => {
				let k = s.index(vch.len());
				vch[k] += B128::of(s.special_u128() | 1);
				format!("other challenge {k}")
			}
			4 => {
				let mut t = w.last().unwrap().clone();
				let k = s.index(t.len());
				t[k] += B128::of(s.special_u128() | 1);
				term = Some(t);
				"terminal word differs from the committed".into()
			}
			_ => {
				let m2: Vec<B128> = vals(s, 1 << c.rounds());
				term = Some(oracle(&m2, c.arities.len()));
				"terminal word of another message".into()
			}
		};
		let t = term.unwrap_or_else(|| w.last().unwrap().clone());
		let (_, tape, idx, _) = prove_with(&c, &mp, &w, &t, &pre);
		let want = judge(&r, &c, &w, &t, &idx, &vch);
		let got = verify(&c, &params, &mp, &vch, &tape, pre.len());
		match (&got, &want) {
			(Err(p), _) => return Err(format!("{what}: verifier panicked: {p}")),
			(Ok(Ok(v)), Err(e)) => return Err(format!("{what}: accepted with value {v:?} although {e}")),
			(Ok(Err(e)), Ok(_)) => return Err(format!("{what}: rejected ({e}) although every checked position is consistent")),
			(Ok(Ok(a)), Ok(b)) => ck_eq!(a, b, "{what}: value"),
			_ => {}
		}
		s.label(if want.is_ok() { "cheat undetectable by the queries" } else { want.unwrap_err() });
	}
	// altered proof bytes
	for _ in 0..6 {
		let mut t = tape.clone();
		if s.chance(1, 5) {
			let n = s.range(start, t.len() - 1);
			t.truncate(n);
			let got = verify(&c, &params, &mp, &ch, &t, pre.len());
			ck!(matches!(got, Ok(Err(_))), "proof cut to {n} bytes: {got:?}");
		} else {
			let k = s.range(start, t.len() - 1);
			t[k] ^= 1 << s.index(8);
			let got = verify(&c, &params, &mp, &ch, &t, pre.len());
			ck!(matches!(got, Ok(Err(_))), "byte {k} altered (decommitment from {start} of {}): {got:?}", t.len());
		}
	}
	// wrong number of challenges or commitments
	let mut bad = ch.clone();
	if s.bool() {
		bad.push(B128::ONE);
	} else {
		bad.pop();
	}
	let got = verify(&c, &params, &mp, &bad, &tape, pre.len());
	ck!(matches!(got, Ok(Err(_))), "{} challenges accepted: {got:?}", bad.len());
	Ok(())
}

fn proximity(s: &mut Src) -> Res {
	let fs: &[fn(&mut Src) -> Res] = &[
		fri_case::<BinaryField8b, BinaryField128b>,
		fri_case::<BinaryField16b, BinaryField128b>,
		fri_case::<BinaryField32b, BinaryField128b>,
		fri_case::<BinaryField16b, PackedBinaryField1x128b>,
		fri_case::<BinaryField32b, PackedBinaryField2x128b>,
		fri_case::<BinaryField8b, PackedBinaryField4x128b>,
		fri_case::<BinaryField32b, PackedBinaryField4x128b>,
	];
	let i = s.index(fs.len());
	fs[i](s)
}

// ------------------------------------------------------------------------------------------------

fn par<FA: Fd>(s: &mut Src) -> Res
where
	B128: ExtensionField<FA>,
{
	let log_inv = s.range(1, 4);
	let log_msg = s.range(0, 34);
	let arity = s.range(1, 8);
	let security = s.weighted(&[6, 1, 1]);
	let security = match security {
		0 => s.range(20, 110),
		1 => s.range(1, 20),
		_ => s.range(90, 140),
	};
	s.desc(format!("{}: message 2^{log_msg}, inv_rate {log_inv}, arity {arity}, {security} bits", FA::NAME));
	let log_dim = log_msg.saturating_sub(arity);
	let fits = log_dim + log_inv <= FA::BITS;
	let ntt = binius_ntt::SingleThreadedNTT::<FA>::new(FA::BITS.min(36)).unwrap();
	let got = no_panic(|| FRIParams::<B128, FA>::choose_with_constant_fold_arity(&ntt, log_msg, security, log_inv, arity).map_err(|e| e.to_string()));
	let got = got.map_err(|p| format!("panicked: {p}"))?;
	// errors that do not depend on the number of queries, in units of 2^-128
	let fixed = (2 * log_dim) as f64 + 2f64.powi((log_dim + log_inv) as i32);
	let allowed = 2f64.powi(128 - security as i32) - fixed;
	if !fits || allowed <= 0.0 {
		ck!(got.is_err(), "unattainable parameters accepted: {:?}", got.map(|p| p.n_test_queries()));
		s.label("unattainable");
		return Ok(());
	}
	let per = (0.5 * (1.0 + 2f64.powi(-(log_inv as i32)))).log2();
	let bound = allowed.log2() - 128.0;
	let enough = |q: usize, slack: f64| q as f64 * per <= bound + slack;
	let check_q = |q: usize| -> Res {
		ck!(enough(q, 1e-9), "{q} queries leave more than 2^-{security} error");
		ck!(q == 0 || !enough(q - 1, -1e-9), "{q} queries where {} suffice", q - 1);
		Ok(())
	};
	let code = ReedSolomonCode::<FA>::with_ntt_subspace(&ntt, log_dim, log_inv).map_err(|e| e.to_string())?;
	let q = calculate_n_test_queries::<B128, FA>(security, &code).map_err(|e| format!("attainable security refused: {e}"))?;
	check_q(q)?;
	let cap = if q <= 1 { 0 } else { (usize::BITS - (q - 1).leading_zeros()) as usize };
	match got {
		Err(e) => {
			// only when the codeword is so short that nothing would be left to fold
			let n = log_msg.saturating_sub(cap.saturating_sub(log_inv)) / arity;
			ck!(n * arity >= log_msg, "valid parameters refused: {e}");
			s.label("too short");
		}
		Ok(p) => {
			s.nontrivial_if(!p.fold_arities().is_empty());
			ck_eq!(p.n_test_queries(), q, "queries");
			ck_eq!(p.n_fold_rounds(), log_msg, "fold rounds");
			ck_eq!(p.rs_code().log_inv_rate(), log_inv, "rate");
			ck_eq!(p.log_len(), log_msg + log_inv, "length");
			ck!(p.fold_arities().iter().all(|a| *a == arity), "arities {:?}", p.fold_arities());
			let sum = arity * p.fold_arities().len();
			ck!(sum < log_msg || p.fold_arities().is_empty(), "folds away the whole message");
			ck_eq!(p.n_final_challenges(), log_msg - sum, "final challenges");
			// no Merkle cap is cut short, and folding goes on as long as that stays so
			let end = log_msg + log_inv - sum;
			ck!(p.fold_arities().is_empty() || end >= cap, "terminal word of 2^{end} symbols for caps of 2^{cap}");
			ck!(end < cap + arity || log_msg < sum + arity, "stops folding at 2^{end} symbols although caps are 2^{cap}");
			ck_eq!(p.index_bits(), p.fold_arities().first().map_or(0, |a| p.log_len() - a), "index bits");
		}
	}
	// the estimate is one of the candidates and a local minimum of the cost it states
	let (digest, field) = (1usize << s.range(4, 11), 1usize << s.range(3, 8));
	let n = s.range(1, 40);
	let a = no_panic(|| estimate_optimal_arity(n, digest, field)).map_err(|p| format!("estimate panicked: {p}"))?;
	let cost = |k: usize| ((n / 2 * digest + (1 << k) * field) * (n - k)) / k;
	ck!((1..=n).contains(&a), "arity {a} for block length 2^{n}");
	ck!((1..a).all(|k| cost(k) >= cost(a)), "a smaller arity than {a} has a smaller proof");
	ck!(a == n || cost(a + 1) > cost(a), "arity {} has no larger proof than {a}", a + 1);
	Ok(())
}
fn parameters(s: &mut Src) -> Res {
	match s.index(3) {
		0 => par::<BinaryField16b>(s),
		1 => par::<BinaryField32b>(s),
		_ => par::<BinaryField8b>(s),
	}
}

fn main() {
	run(Prop {
		id: "C10",
		rule: "codes with log_dim and inverse rate above zero; proximity tests with at least one fold oracle; parameters with at least one fold",
		assumptions: &["scalar field arithmetic (C06), Merkle trees (C15), transcripts (C16)", "messages up to 2^9 symbols, up to 8 queries"],
		subs: vec![
			Sub { name: "encode", quick: 200000, thorough: 1000000, threads: 0, f: encode },
			Sub { name: "proximity", quick: 20000, thorough: 100000, threads: 0, f: proximity },
			Sub { name: "parameters", quick: 200000, thorough: 1000000, threads: 0, f: parameters },
		],
	});
}
