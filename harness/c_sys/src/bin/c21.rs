//! The commitment of a batch of columns: evaluation claims on committed columns of any tower level reduce to
//! sumchecks on the packed columns, and those open the commitment.
use binius_compute::{ComputeData, ComputeHolder, ComputeLayer, ComputeMemory, SizedSlice, alloc::ComputeAllocator, cpu::{CpuLayer, layer::CpuLayerHolder}};
use binius_core::{
	fiat_shamir::CanSample,
	merkle_tree::BinaryMerkleTreeProver,
	oracle::{MultilinearOracleSet, OracleId},
	piop::{self, CommitMeta, PIOPSumcheckClaim},
	polynomial::MultivariatePoly,
	protocols::{
		evalcheck::{EvalcheckMultilinearClaim, subclaims::MemoizedData},
		fri::{CommitOutput, FRIParams},
	},
	ring_switch::{self, EvalClaimSystem},
	transcript::{ProverTranscript, VerifierTranscript},
	witness::MultilinearExtensionIndex,
};
use binius_fast_compute::layer::{FastCpuLayer, FastCpuLayerHolder};
use binius_field::{arch::packed_256::*, arch::packed_512::*, as_packed_field::PackedType, tower::CanonicalTowerFamily, *};
use binius_hash::groestl::{Groestl256, Groestl256ByteCompression};
use binius_ntt::SingleThreadedNTT;
use binius_utils::sparse_index::SparseIndex;
use c_field::Fd;
use c_math::vals;
use c_sys::{
	audit::{Ch, audit_with, mle_at, offset},
	refm,
};
use vp::*;

type B128 = BinaryField128b;
type B32 = BinaryField32b;

#[derive(Clone)]
struct Col {
	n: usize,
	level: usize,
	vals: Vec<u128>,
}
impl Col {
	fn packed_vars(&self) -> usize {
		(self.n + self.level).saturating_sub(7)
	}
	fn table(&self) -> Vec<B128> {
		self.vals.iter().map(|v| B128::new(*v)).collect()
	}
	/// The column over the large field: consecutive values as the coordinates of one element; a column that
	/// does not fill an element is repeated.
	fn packed(&self) -> Vec<B128> {
		let per = 1usize << (7 - self.level);
		let bits = 1usize << self.level;
		(0..1usize << self.packed_vars())
			.map(|i| B128::new((0..per).map(|j| self.vals[(i * per + j) % self.vals.len()] << (j * bits)).fold(0, |a, b| a | b)))
			.collect()
	}
}

fn column(s: &mut Src) -> Col {
	let level = *s.pick(&[7, 0, 3, 4, 5, 6]);
	let pv = s.weighted(&[2, 3, 3, 2, 1, if s.thorough { 2 } else { 0 }]);
	let mut n = 7 - level + pv;
	if s.chance(1, 5) {
		n = s.range(0, 7 - level);
	}
	let mut bulk = s.bulk();
	let vals = (0..1usize << n).map(|_| bulk.u128() & refm::mask(level)).collect();
	Col { n, level, vals }
}

struct Batch {
	cols: Vec<Col>,
	oracles: MultilinearOracleSet<B128>,
	ids: Vec<OracleId>,
	meta: CommitMeta,
	index: SparseIndex<usize>,
	/// column at every place of the commitment
	order: Vec<usize>,
}

/// A batch of columns and its layout in the commitment, checked against its definition.
fn batch(s: &mut Src) -> Result<Batch, String> {
	let k = s.weighted(&[0, 3, 3, 2, 2, 1, 1]);
	let cols: Vec<Col> = (0..k).map(|_| column(s)).collect();
	let mut oracles = MultilinearOracleSet::new();
	let mut ids = vec![];
	for c in &cols {
		let id = oracles.add_committed(c.n, c.level);
		if s.chance(1, 5) {
			oracles.add_repeating(id, 1).map_err(|e| e.to_string())?;
		}
		ids.push(id);
	}
	let (meta, index) = piop::make_oracle_commit_meta(&oracles).map_err(|e| e.to_string())?;
	let mut order: Vec<usize> = (0..k).collect();
	order.sort_by_key(|i| cols[*i].packed_vars());
	for (place, i) in order.iter().enumerate() {
		ck_eq!(index.get(ids[*i].index()).copied(), Some(place), "place of column {i} in the commitment");
	}
	ck_eq!(index.len(), k, "columns with a place");
	ck_eq!(meta.total_multilins(), k, "columns in the commitment");
	let total: usize = cols.iter().map(|c| 1usize << c.packed_vars()).sum();
	ck_eq!(meta.total_vars(), total.next_power_of_two().trailing_zeros() as usize, "size of the commitment");
	ck_eq!(meta.max_n_vars(), cols.iter().map(|c| c.packed_vars()).max().unwrap(), "largest column");
	for (v, n) in meta.n_multilins_by_vars().iter().enumerate() {
		let want = cols.iter().filter(|c| c.packed_vars() == v).count();
		ck_eq!(*n, want, "columns of {v} variables");
		let first = cols.iter().filter(|c| c.packed_vars() < v).count();
		ck_eq!(meta.range_by_vars(v), first..first + want, "range of columns of {v} variables");
	}
	Ok(Batch { cols, oracles, ids, meta, index, order })
}

fn witness<U: c_sys::Under>(b: &Batch, cols: &[Col]) -> Result<Vec<binius_core::witness::MultilinearWitness<'static, PackedType<U, B128>>>, String>
where
	PackedType<U, B128>: c_sys::Pk<U>,
{
	let mut ix = MultilinearExtensionIndex::new();
	for (c, id) in cols.iter().zip(&b.ids) {
		ix.update_multilin_poly([(*id, c_sys::mle::<U>(&c.vals, c.n, c.level))]).map_err(|e| e.to_string())?;
	}
	piop::collect_committed_witnesses::<U, _>(&b.meta, &b.index, &b.oracles, &ix).map_err(|e| e.to_string())
}

/// Another column of the same shape.
fn vary(s: &mut Src, c: &Col) -> Col {
	let mut c = c.clone();
	let i = s.index(c.vals.len());
	let x = s.special_u128() & refm::mask(c.level);
	c.vals[i] ^= if x == 0 { 1 } else { x };
	c
}

fn fri_params(s: &mut Src, meta: &CommitMeta) -> Option<FRIParams<B128, B32>> {
	let rate = s.range(1, 2);
	let sec = *s.pick(&[20, 3, 40]);
	if s.bool() {
		let scheme = BinaryMerkleTreeProver::<_, Groestl256, _>::new(Groestl256ByteCompression);
		piop::make_commit_params_with_optimal_arity::<B128, B32, _>(meta, binius_core::merkle_tree::MerkleTreeProver::<B128>::scheme(&scheme), sec, rate).ok()
	} else {
		let ntt = SingleThreadedNTT::<B32>::new(32).unwrap();
		let arity = s.range(1, 4);
		FRIParams::choose_with_constant_fold_arity(&ntt, meta.total_vars(), sec, rate, arity).ok()
	}
}

/// Evaluation claims, at points that share prefixes, suffixes or both; true of `cols`.
fn claims(s: &mut Src, b: &Batch, cols: &[Col]) -> Vec<EvalcheckMultilinearClaim<B128>> {
	let k = s.weighted(&[1, 4, 4, 3, 2, 1, 1, 1]);
	let pool: Vec<B128> = (0..12).map(|_| Fd::draw(s)).collect();
	let mut out: Vec<EvalcheckMultilinearClaim<B128>> = vec![];
	for _ in 0..k {
		let i = s.index(cols.len());
		let n = cols[i].n;
		let point: Vec<B128> = match s.index(4) {
			0 => pool.iter().cycle().take(n).copied().collect(),
			1 => {
				let mut p: Vec<B128> = pool.iter().cycle().take(n).copied().collect();
				p.reverse();
				p
			}
			2 => {
				let j = s.range(0, n);
				(0..n).map(|t| if t < j { pool[t % 12] } else { pool[11 - t % 12] }).collect()
			}
			_ => (0..n).map(|_| Fd::draw(s)).collect(),
		};
		out.push(EvalcheckMultilinearClaim { id: b.ids[i], eval: mle_at(&cols[i].table(), &point), eval_point: point.into() });
	}
	out
}

fn shape(b: &Batch) -> String {
	b.cols.iter().map(|c| format!("{}b^{}", 1 << c.level, c.n)).collect::<Vec<_>>().join(" ")
}

/// A polynomial given by its values on the cube.
#[derive(Debug)]
struct Tab(Vec<B128>);
impl MultivariatePoly<B128> for Tab {
	fn n_vars(&self) -> usize {
		self.0.len().trailing_zeros() as usize
	}
	fn degree(&self) -> usize {
		self.n_vars()
	}
	fn evaluate(&self, q: &[B128]) -> Result<B128, binius_core::polynomial::Error> {
		Ok(mle_at(&self.0, q))
	}
	fn binary_tower_level(&self) -> usize {
		7
	}
}

fn bits(i: usize, n: usize) -> Vec<B128> {
	(0..n).map(|j| B128::new((i >> j & 1) as u128)).collect()
}
fn sum(col: &[B128], t: &dyn MultivariatePoly<B128>) -> B128 {
	let n = col.len().trailing_zeros() as usize;
	col.iter().enumerate().map(|(i, c)| *c * t.evaluate(&bits(i, n)).unwrap()).sum()
}

// ------------------------------------------------------------------------------------------------

macro_rules! switch_on {
	($name:ident, $u:ty, $hal:ty, $holder:expr) => {
		fn $name(s: &mut Src) -> Res {
			type P = PackedType<$u, B128>;
			let b = batch(s)?;
			// what the prover holds; differs from the committed columns in a cheating prover
			let mut held = b.cols.clone();
			let cheat = s.chance(1, 4);
			if cheat {
				let i = s.index(held.len());
				held[i] = vary(s, &held[i]);
			}
			let mut cl = claims(s, &b, &held);
			if !cheat && !cl.is_empty() && s.chance(1, 4) {
				let i = s.index(cl.len());
				cl[i].eval += offset(s);
			}
			let honest_witness = !cheat;
			let truths: Vec<bool> = cl
				.iter()
				.map(|c| {
					let i = b.ids.iter().position(|x| *x == c.id).unwrap();
					mle_at(&b.cols[i].table(), &c.eval_point) == c.eval
				})
				.collect();
			let honest = truths.iter().all(|x| *x);
			s.desc(format!("{} x{}: {} claims {:?}{}", shape(&b), P::WIDTH, cl.len(), truths, if cheat { " other columns" } else { "" }));
			if !honest_witness && honest {
				s.discard();
				return Ok(());
			}
			s.nontrivial_if(!cl.is_empty());
			let wit = witness::<$u>(&b, &held)?;
			let system = EvalClaimSystem::new(&b.oracles, &b.meta, &b.index, &cl).map_err(|e| format!("claims refused: {e}"))?;
			let packed: Vec<Vec<B128>> = b.order.iter().map(|i| b.cols[*i].packed()).collect();
			let pre = s.u64();
			let mut t = ProverTranscript::<Ch>::new();
			t.observe().write_bytes(&pre.to_le_bytes());
			let mut holder = $holder;
			let ComputeData { hal, host_alloc, dev_alloc, .. } = holder.to_data();
			let red = ring_switch::prove::<_, P, _, _, $hal, _, _>(&system, &wit, &mut t, MemoizedData::new(), hal, &dev_alloc, &host_alloc)
				.map_err(|e| format!("prover failed: {e}"))?;
			let mut own: Vec<Vec<B128>> = vec![];
			for x in &red.transparents {
				let mut v = vec![B128::ZERO; x.len()];
				hal.copy_d2h(*x, &mut v).map_err(|e| e.to_string())?;
				own.push(v);
			}
			let next = t.sample();
			let tape = t.finalize();
			type Left = Vec<(PIOPSumcheckClaim<B128>, Option<B128>)>;
			let truth = |l: &Left| l.len() == cl.len() && l.iter().all(|(c, v)| *v == Some(c.sum));
			let verify = |v: &mut VerifierTranscript<Ch>| -> Result<Left, String> {
				v.observe().write_bytes(&pre.to_le_bytes());
				let r = ring_switch::verify(&system, v).map_err(|e| e.to_string())?;
				Ok(r.sumcheck_claims
					.into_iter()
					.map(|c| {
						let t = &r.transparents[c.transparent];
						let p = &packed[c.committed];
						let fits = t.n_vars() == c.n_vars && p.len() == 1 << c.n_vars;
						let v = fits.then(|| sum(p, &**t));
						(c, v)
					})
					.collect())
			};
			if honest {
				// both sides must hold the same reduced claims
				let mut v = VerifierTranscript::<Ch>::new(tape.clone());
				v.observe().write_bytes(&pre.to_le_bytes());
				let r = ring_switch::verify(&system, &mut v).map_err(|e| format!("honest proof rejected: {e}"))?;
				ck_eq!(r.sumcheck_claims.clone(), red.sumcheck_claims, "reduced claims of prover and verifier");
				ck_eq!(r.transparents.len(), own.len(), "transparent polynomials");
				for (i, (a, o)) in r.transparents.iter().zip(&own).enumerate() {
					let n = o.len().trailing_zeros() as usize;
					ck_eq!(a.n_vars(), n, "variables of transparent {i}");
					for (j, x) in o.iter().enumerate() {
						ck_eq!(a.evaluate(&bits(j, n)).unwrap(), *x, "transparent {i} at row {j}");
					}
					let p: Vec<B128> = (0..n).map(|_| Fd::draw(s)).collect();
					ck_eq!(a.evaluate(&p).unwrap(), mle_at(o, &p), "transparent {i} at a point");
				}
				// every claim is reduced to one about its own column
				let mut got: Vec<usize> = r.sumcheck_claims.iter().map(|c| b.order[c.committed]).collect();
				let mut want: Vec<usize> = cl.iter().map(|c| b.ids.iter().position(|x| *x == c.id).unwrap()).collect();
				got.sort();
				want.sort();
				ck_eq!(got, want, "columns of the reduced claims");
			}
			audit_with(s, &tape, honest, true, true, next, &truth, &verify)
		}
	};
}
switch_on!(switch_a, OptimalUnderlier128, CpuLayer<B128>, CpuLayerHolder::<B128>::new(1 << 10, 1 << 13));
switch_on!(switch_b, OptimalUnderlier256, FastCpuLayer<CanonicalTowerFamily, PackedBinaryField2x128b>, FastCpuLayerHolder::<CanonicalTowerFamily, PackedBinaryField2x128b>::new(1 << 10, 1 << 13));
switch_on!(switch_c, OptimalUnderlier512, FastCpuLayer<CanonicalTowerFamily, PackedBinaryField4x128b>, FastCpuLayerHolder::<CanonicalTowerFamily, PackedBinaryField4x128b>::new(1 << 10, 1 << 13));
type OptimalUnderlier128 = binius_field::arch::OptimalUnderlier128b;
type OptimalUnderlier256 = binius_field::arch::OptimalUnderlier256b;
type OptimalUnderlier512 = binius_field::arch::OptimalUnderlier512b;

fn switch(s: &mut Src) -> Res {
	match s.index(3) {
		0 => switch_a(s),
		1 => switch_b(s),
		_ => switch_c(s),
	}
}

// ------------------------------------------------------------------------------------------------

macro_rules! opening_on {
	($name:ident, $u:ty, $hal:ty, $holder:expr) => {
		fn $name(s: &mut Src) -> Res {
			type P = PackedType<$u, B128>;
			let b = batch(s)?;
			let packed: Vec<Vec<B128>> = b.order.iter().map(|i| b.cols[*i].packed()).collect();
			let Some(params) = fri_params(s, &b.meta) else {
				s.discard();
				return Ok(());
			};
			if b.meta.total_vars() < P::LOG_WIDTH.max(1) {
				// commitments of less than one packed element are not supported
				s.discard();
				return Ok(());
			}
			// transparent polynomials in ascending order of size, and products with columns of their size
			let mut tr: Vec<Vec<B128>> = vec![];
			for (v, n) in b.meta.n_multilins_by_vars().iter().enumerate() {
				if *n > 0 {
					for _ in 0..s.weighted(&[1, 3, 2, 1]) {
						tr.push(vals(s, 1 << v));
					}
				}
			}
			let mut all = vec![];
			for (i, t) in tr.iter().enumerate() {
				for (j, p) in packed.iter().enumerate() {
					if p.len() == t.len() {
						all.push((i, j));
					}
				}
			}
			let mut mode = s.weighted(&[6, 2, 2, 2, 1, 1]);
			if all.is_empty() && mode == 1 || tr.is_empty() && mode == 3 {
				mode = 0;
			}
			// the prover's columns and transparent polynomials
			let mut held = b.cols.clone();
			if mode == 2 || mode == 4 {
				let i = s.index(held.len());
				held[i] = vary(s, &held[i]);
			}
			let ht: Vec<Vec<B128>> = if mode == 3 {
				let mut t = tr.clone();
				let i = s.index(t.len());
				let j = s.index(t[i].len());
				t[i][j] += offset(s);
				t
			} else {
				tr.clone()
			};
			let held_packed: Vec<Vec<B128>> = b.order.iter().map(|i| held[*i].packed()).collect();
			let mut cl = vec![];
			for _ in 0..if all.is_empty() { 0 } else { s.weighted(&[1, 3, 3, 2, 1]) } {
				let (i, j) = *s.pick(&all);
				let who = if mode == 4 { &packed } else { &held_packed };
				cl.push(PIOPSumcheckClaim {
					n_vars: tr[i].len().trailing_zeros() as usize,
					committed: j,
					transparent: i,
					sum: who[j].iter().zip(&ht[i]).map(|(a, b)| *a * *b).sum(),
				});
			}
			if mode == 1 {
				if cl.is_empty() {
					mode = 0;
				} else {
					let i = s.index(cl.len());
					cl[i].sum += offset(s);
				}
			}
			s.desc(format!(
				"{} x{}: arities {:?} batch {} queries {}, {} transparents, {} claims, mode {mode}",
				shape(&b),
				P::WIDTH,
				params.fold_arities(),
				params.log_batch_size(),
				params.n_test_queries(),
				tr.len(),
				cl.len()
			));
			s.nontrivial_if(packed.len() > 1);
			s.label(["honest", "false sum", "other columns", "other transparents", "other codeword", "other commitment"][mode]);
			let wit = witness::<$u>(&b, &b.cols)?;
			let hwit = witness::<$u>(&b, &held)?;
			let ntt = SingleThreadedNTT::with_subspace(params.rs_code().subspace()).map_err(|e| e.to_string())?;
			let mp = BinaryMerkleTreeProver::<B128, Groestl256, _>::new(Groestl256ByteCompression);
			let scheme = binius_core::merkle_tree::MerkleTreeProver::<B128>::scheme(&mp);
			let CommitOutput { commitment, committed, codeword } =
				piop::commit::<_, _, P, _, _, _, _>(&params, &ntt, &mp, &wit).map_err(|e| format!("commit failed: {e}"))?;
			let other = piop::commit::<_, _, P, _, _, _, _>(&params, &ntt, &mp, &hwit).map_err(|e| format!("commit failed: {e}"))?;
			let mut holder = $holder;
			let data = holder.to_data();
			let dev_alloc = &data.dev_alloc;
			let upload = |v: &Vec<B128>| -> Result<_, String> {
				let mut m = dev_alloc.alloc(v.len()).map_err(|e| e.to_string())?;
				data.hal.copy_h2d(v, &mut m).map_err(|e| e.to_string())?;
				Ok(<$hal as ComputeLayer<B128>>::DevMem::to_const(m))
			};
			let dt = ht.iter().map(upload).collect::<Result<Vec<_>, _>>()?;
			if mode < 4 {
				let ok = piop::validate_sumcheck_witness::<_, P, _, $hal>(&hwit, &dt, &cl, data.hal).is_ok();
				ck_eq!(ok, mode != 1, "validation of the sumcheck witness");
			}
			let mut t = ProverTranscript::<Ch>::new();
			let mut shown = commitment.clone();
			if mode == 5 {
				let i = s.index(shown.len());
				shown[i] ^= 1 << s.index(8);
			}
			t.message().write(&shown);
			let cw = if mode == 4 { &other.codeword } else { &codeword };
			let r = no_panic(|| piop::prove::<$hal, _, _, P, _, _, _, _, _, _, _>(&data, &params, &ntt, &mp, &b.meta, committed, cw, &hwit, dt, &cl, &mut t).map_err(|e| e.to_string()));
			match r {
				Ok(Ok(())) => {}
				Ok(Err(e)) | Err(e) => {
					ck!(mode != 0, "prover failed: {e}");
					s.label("prover refused");
					return Ok(());
				}
			}
			let next = t.sample();
			let tape = t.finalize();
			let polys: Vec<Tab> = tr.iter().map(|v| Tab(v.clone())).collect();
			let polys: Vec<&dyn MultivariatePoly<B128>> = polys.iter().map(|p| p as &dyn MultivariatePoly<B128>).collect();
			audit_with(s, &tape, mode == 0, true, matches!(mode, 1 | 4), next, &|_: &()| true, &|v: &mut VerifierTranscript<Ch>| {
				let c = v.message().read().map_err(|e| e.to_string())?;
				piop::verify(&b.meta, scheme, &params, &c, &polys, &cl, v).map_err(|e| e.to_string())
			})
		}
	};
}
opening_on!(opening_a, OptimalUnderlier128, CpuLayer<B128>, CpuLayerHolder::<B128>::new(1 << 10, 1 << 13));
opening_on!(opening_b, OptimalUnderlier256, FastCpuLayer<CanonicalTowerFamily, PackedBinaryField2x128b>, FastCpuLayerHolder::<CanonicalTowerFamily, PackedBinaryField2x128b>::new(1 << 10, 1 << 13));
opening_on!(opening_c, OptimalUnderlier512, FastCpuLayer<CanonicalTowerFamily, PackedBinaryField4x128b>, FastCpuLayerHolder::<CanonicalTowerFamily, PackedBinaryField4x128b>::new(1 << 10, 1 << 13));

fn opening(s: &mut Src) -> Res {
	match s.index(3) {
		0 => opening_a(s),
		1 => opening_b(s),
		_ => opening_c(s),
	}
}

fn main() {
	run(Prop {
		id: "C21",
		rule: "there is a claim to reduce, or more than one column is committed",
		assumptions: &[
			"scalar field arithmetic (C06), transcripts (C16), Merkle trees (C15)",
			"a false claim is accepted by chance with probability below 2^-100 per case",
			"commitments of less than two elements or one packed element are not supported",
		],
		subs: vec![
			Sub { name: "switch", quick: 25000, thorough: 600000, threads: 0, f: switch },
			Sub { name: "opening", quick: 50000, thorough: 1500000, threads: 0, f: opening },
		],
	});
}
