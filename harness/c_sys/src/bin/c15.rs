//! Merkle commitments against a tree computed by hand, and rejection of every altered opening.
use binius_core::{
	fiat_shamir::HasherChallenger,
	merkle_tree::{BinaryMerkleTreeProver, MerkleTreeProver, MerkleTreeScheme},
	transcript::{ProverTranscript, VerifierTranscript},
};
use binius_field::{TowerField, *};
use binius_hash::{
	PseudoCompressionFunction, Vision32Compression, Vision32ParallelDigest, VisionHasherDigest,
	groestl::{Groestl256, Groestl256ByteCompression, Groestl256Parallel},
	multi_digest::ParallelDigest,
	sha2::Sha256Compression,
};
use binius_maybe_rayon::iter::{IntoParallelIterator, ParallelIterator};
use binius_utils::SerializationMode;
use c_field::Fd;
use c_math::vals;
use digest::{Digest, FixedOutputReset, Output, core_api::BlockSizeUser};
use vp::*;

type Ch = HasherChallenger<Groestl256>;

fn reference<F: TowerField, D: Digest, C: PseudoCompressionFunction<Output<D>, 2>>(c: &C, data: &[F], batch: usize) -> Vec<Vec<Output<D>>> {
	// layers[d] has 2^d digests
	let mut layers = vec![
		data.chunks(batch)
			.map(|ch| {
				let mut b = vec![];
				for x in ch {
					binius_utils::SerializeBytes::serialize(x, &mut b, SerializationMode::CanonicalTower).unwrap();
				}
				D::digest(&b)
			})
			.collect::<Vec<_>>(),
	];
	while layers[0].len() > 1 {
		let up = layers[0].chunks(2).map(|p| c.compress([p[0].clone(), p[1].clone()])).collect();
		layers.insert(0, up);
	}
	layers
}

fn trees<F, H, C>(s: &mut Src, name: &str, comp: C) -> Res
where
	F: Fd,
	H: ParallelDigest<Digest: BlockSizeUser + FixedOutputReset>,
	C: PseudoCompressionFunction<Output<H::Digest>, 2> + Sync + Clone,
	Output<H::Digest>: Copy + AsRef<[u8]>,
{
	let depth = s.weighted(&[2, 3, 4, 4, 3, 2, 1, 1]);
	let batch = if s.bool() { 1usize << s.range(0, 4) } else { s.range(1, 9) };
	let n = 1usize << depth;
	let data: Vec<F> = vals(s, n * batch);
	s.desc(format!("{name} depth {depth} batch {batch} of {}", F::NAME));
	s.nontrivial_if(depth > 0);
	let layers = reference::<F, H::Digest, C>(&comp, &data, batch);
	let prover = BinaryMerkleTreeProver::<F, H, C>::new(comp);
	let scheme = prover.scheme();
	let (com, tree) = prover.commit(&data, batch).map_err(|e| format!("commit: {e}"))?;
	ck_eq!(com.depth, depth, "depth");
	ck_eq!(com.root.to_vec(), layers[0][0].to_vec(), "root");
	let (com2, tree2) = prover
		.commit_iterated((0..n).into_par_iter().map(|i| data[i * batch..(i + 1) * batch].iter().copied()), depth)
		.map_err(|e| format!("commit_iterated: {e}"))?;
	ck_eq!(com2, com.clone(), "commit_iterated");
	ck_eq!(tree2.inner_nodes, tree.inner_nodes.clone(), "commit_iterated nodes");
	// shapes that are not trees
	if n > 1 {
		let short = s.range(1, n - 1);
		let r = prover.commit_iterated((0..short).into_par_iter().map(|i| data[i * batch..(i + 1) * batch].iter().copied()), depth);
		ck!(r.is_err(), "commit_iterated of {short} chunks as {n} leaves accepted");
		let r = prover.commit_iterated((0..n).into_par_iter().map(|i| data[i * batch..(i + 1) * batch].iter().copied()), depth - 1);
		ck!(r.is_err(), "commit_iterated of {n} chunks as {} leaves accepted", n / 2);
	}
	if data.len() > 1 {
		let cut = s.range(1, data.len() - 1);
		let l = data.len() - cut;
		let ok = l % batch == 0 && (l / batch).is_power_of_two();
		ck_eq!(prover.commit(&data[..l], batch).is_ok(), ok, "commit of {l} values in batches of {batch}");
	}
	// a whole vector
	scheme.verify_vector(&com.root, &data, batch).map_err(|e| format!("verify_vector refused the committed vector: {e}"))?;
	let mut bad = data.clone();
	let at = s.index(bad.len());
	bad[at] += F::of(1 << s.index(F::BITS));
	ck!(scheme.verify_vector(&com.root, &bad, batch).is_err(), "verify_vector accepted a vector changed at {at}");
	if n > 1 {
		ck!(scheme.verify_vector(&com.root, &data[..data.len() / 2], batch).is_err(), "verify_vector accepted half a vector");
		let (i, j) = (s.index(n), s.index(n));
		if data[i * batch..(i + 1) * batch] != data[j * batch..(j + 1) * batch] {
			let mut bad = data.clone();
			for k in 0..batch {
				bad.swap(i * batch + k, j * batch + k);
			}
			ck!(scheme.verify_vector(&com.root, &bad, batch).is_err(), "verify_vector accepted swapped leaves {i} {j}");
		}
	}
	// layers
	let ld = s.range(0, depth);
	let layer = prover.layer(&tree, ld).map_err(|e| format!("layer: {e}"))?;
	ck_eq!(layer.to_vec(), layers[ld].clone(), "layer {ld}");
	ck!(prover.layer(&tree, depth + 1).is_err(), "layer below the leaves");
	scheme.verify_layer(&com.root, ld, layer).map_err(|e| format!("verify_layer: {e}"))?;
	let mut badl = layer.to_vec();
	let (k, bit) = (s.index(badl.len()), s.index(256));
	badl[k][bit / 8] ^= 1 << (bit % 8);
	ck!(scheme.verify_layer(&com.root, ld, &badl).is_err(), "verify_layer accepted a changed digest {k}");
	ck!(scheme.verify_layer(&com.root, ld + 1, layer).is_err(), "verify_layer accepted a wrong depth");
	if layer.len() > 1 {
		ck!(scheme.verify_layer(&com.root, ld, &layer[1..]).is_err(), "verify_layer accepted a short layer");
		ck!(scheme.verify_layer(&com.root, ld - 1, &layer[..layer.len() / 2]).is_err(), "verify_layer accepted half a layer");
	}
	// openings
	let q = s.range(1, 4);
	let idx: Vec<usize> = (0..q).map(|_| s.index(n)).collect();
	let mut tr = ProverTranscript::<Ch>::new();
	for i in &idx {
		let before = tree.branch(*i, ld).map_err(|e| format!("branch: {e}"))?;
		let exp: Vec<_> = (ld + 1..=depth).rev().map(|d| layers[d][(*i >> (depth - d)) ^ 1]).collect();
		ck_eq!(before, exp, "branch {i} to layer {ld}");
		prover.prove_opening(&tree, ld, *i, &mut tr.decommitment()).map_err(|e| format!("prove_opening: {e}"))?;
	}
	ck!(tree.branch(n, ld).is_err() && tree.branch(0, depth + 1).is_err(), "branch out of range");
	let proof = tr.finalize();
	ck_eq!(proof.len(), q * (depth - ld) * 32, "bytes of {q} openings");
	if let Ok(sz) = no_panic(|| scheme.proof_size(n, q, ld)).map_err(|e| format!("proof_size({n}, {q}, {ld}): {e}"))? {
		ck_eq!(sz, proof.len() + layer.len() * 32, "proof_size({n}, {q}, {ld})");
	} else {
		return Err(format!("proof_size({n}, {q}, {ld}) refused"));
	}
	ck!(scheme.proof_size(n, q, depth + 1).is_err() && scheme.proof_size(n * 3, q, 0).is_err(), "proof_size of impossible shapes");
	let mut rd = VerifierTranscript::<Ch>::new(proof.clone());
	for i in &idx {
		scheme
			.verify_opening(*i, &data[i * batch..(i + 1) * batch], ld, depth, layer, &mut rd.decommitment())
			.map_err(|e| format!("opening {i} at layer {ld} rejected: {e}"))?;
	}
	rd.finalize().map_err(|e| format!("openings left bytes: {e}"))?;
	// one opening, altered
	let i = idx[0];
	let one = proof[..(depth - ld) * 32].to_vec();
	let leaf = &data[i * batch..(i + 1) * batch];
	let open = |i: usize, leaf: &[F], ld: usize, depth: usize, layer: &[Output<H::Digest>], p: Vec<u8>| {
		scheme.verify_opening(i, leaf, ld, depth, layer, &mut VerifierTranscript::<Ch>::new(p).decommitment()).is_ok()
	};
	match s.index(6) {
		0 => {
			let mut l = leaf.to_vec();
			let k = s.index(batch);
			l[k] += F::of(1 << s.index(F::BITS));
			ck!(!open(i, &l, ld, depth, layer, one), "altered value {k} of leaf {i} accepted");
		}
		1 if !one.is_empty() => {
			let mut p = one;
			let k = s.index(p.len());
			p[k] ^= 1 << s.index(8);
			ck!(!open(i, leaf, ld, depth, layer, p), "altered branch byte {k} accepted");
		}
		2 if n > 1 => {
			let j = s.index(n);
			// another index is right only if both leaves and both branches coincide
			let same = j == i
				|| (0..=depth - ld).all(|d| layers[depth - d][i >> d] == layers[depth - d][j >> d])
					&& (0..depth - ld).all(|d| layers[depth - d][(i >> d) ^ 1] == layers[depth - d][(j >> d) ^ 1]);
			if !same {
				ck!(!open(j, leaf, ld, depth, layer, one), "leaf {i} accepted at index {j}");
			}
		}
		3 => {
			let mut l = layer.to_vec();
			l[i >> (depth - ld)][s.index(32)] ^= 1 << s.index(8);
			ck!(!open(i, leaf, ld, depth, &l, one), "opening accepted against a changed layer");
		}
		4 if !one.is_empty() => {
			let k = s.index(one.len());
			ck!(!open(i, leaf, ld, depth, layer, one[..k].to_vec()), "branch cut to {k} bytes accepted");
		}
		_ => {
			ck!(!open(n + s.index(n), leaf, ld, depth, layer, one.clone()), "index past the end accepted");
			if leaf.len() > 1 {
				ck!(!open(i, &leaf[..leaf.len() - 1], ld, depth, layer, one.clone()), "shortened leaf accepted");
			}
			// a leaf is not an inner node: the same branch under another depth
			ck!(!open(i / 2, leaf, ld, depth.saturating_sub(1).max(ld), layer, one.clone()) || depth == ld, "wrong depth accepted");
			if layer.len() > 1 {
				ck!(!open(i, leaf, ld, depth, &layer[1..], one), "short layer accepted");
			}
		}
	}
	let opt = scheme.optimal_verify_layer(q, depth);
	ck!(opt <= depth, "optimal layer {opt} below the leaves");
	Ok(())
}

fn all(s: &mut Src) -> Res {
	match s.index(6) {
		0 => trees::<BinaryField128b, Groestl256Parallel, _>(s, "groestl", Groestl256ByteCompression),
		1 => trees::<BinaryField8b, Groestl256, _>(s, "groestl", Groestl256ByteCompression),
		2 => trees::<BinaryField32b, Vision32ParallelDigest, _>(s, "vision", Vision32Compression),
		3 => trees::<BinaryField128bPolyval, VisionHasherDigest, _>(s, "vision", Vision32Compression),
		4 => trees::<AESTowerField128b, Groestl256, _>(s, "groestl", Groestl256ByteCompression),
		_ => trees::<BinaryField64b, sha2::Sha256, _>(s, "sha256", Sha256Compression::default()),
	}
}

fn main() {
	run(Prop {
		id: "C15",
		rule: "trees with at least two leaves",
		assumptions: &["hash and compression functions (C14); no hash collision occurs", "trees of up to 128 leaves of up to 16 values"],
		subs: vec![Sub { name: "trees", quick: 5000, thorough: 200000, threads: 0, f: all }],
	});
}
