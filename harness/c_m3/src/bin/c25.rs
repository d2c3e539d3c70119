//! Hash gadgets: a satisfying row computes the hash, populated rows satisfy.
use std::{array, cmp::Reverse, collections::HashSet};

use binius_field::{AESTowerField8b, PackedSubfield, linear_transformation::PackedTransformationFactory};
use binius_m3::{
	builder::{B8, B128, Col, ConstraintSystem, WitnessIndex, tally},
	gadgets::{
		hash::{
			groestl::{Permutation, PermutationVariant},
			keccak::{StateMatrix, lookedup::KeccakfLookedup, stacked::Keccakf},
			sha256::Sha256,
		},
		indexed_lookup::and::{BitAndIndexedLookup, BitAndLookup},
		merkle_tree::{MerkleTreeCS, trace::{MerklePath, MerklePathEvent, MerkleTree, MerkleTreeTrace, NodeFlushToken}},
	},
};
use c_m3::*;
use vp::*;

fn no_more<P: Pm>(_: &mut WitnessIndex<P>) -> Res {
	Ok(())
}
fn no_hint(_: &mut Src, _: &Row) -> Vec<(usize, usize, B128)> {
	vec![]
}
fn tab_of(cs: &ConstraintSystem<B128>, id: usize) -> Result<Tab, String> {
	let ccs = cs.compile().map_err(|e| format!("{e}"))?;
	Tab::new(cs, &ccs, id)
}
fn n_rows(s: &mut Src) -> usize {
	match s.index(3) {
		0 => 1 << s.range(0, 3),
		_ => s.range(1, 7),
	}
}
fn bytes<const N: usize>(s: &mut Src) -> [u8; N] {
	let k = s.index(4);
	let at = s.index(N);
	let b = s.u64() as u8;
	array::from_fn(|i| match k {
		0 => if i == at { b } else { 0 },
		1 => if i == at { b } else { 0xff },
		_ => s.u64() as u8,
	})
}

// ------------------------------------------------------------------------------------------------
// Groestl

mod groestl {
	fn xt(a: u8) -> u8 {
		(a << 1) ^ if a & 0x80 != 0 { 0x1b } else { 0 }
	}
	fn gmul(mut a: u8, mut b: u8) -> u8 {
		let mut r = 0;
		while b != 0 {
			if b & 1 == 1 {
				r ^= a
			}
			a = xt(a);
			b >>= 1;
		}
		r
	}
	fn sbox(x: u8) -> u8 {
		let inv = if x == 0 { 0 } else { (0..=255u8).find(|y| gmul(x, *y) == 1).expect("an inverse") };
		(0..5).fold(0x63, |r, k| r ^ inv.rotate_left(k))
	}
	fn sboxes() -> &'static [u8; 256] {
		static S: std::sync::OnceLock<[u8; 256]> = std::sync::OnceLock::new();
		S.get_or_init(|| std::array::from_fn(|i| sbox(i as u8)))
	}
	/// 8x8 state, byte i at row i % 8, column i / 8.
	pub fn perm(input: &[u8; 64], q: bool) -> [u8; 64] {
		let sb = sboxes();
		let mut a = *input;
		for r in 0..10u8 {
			for c in 0..8 {
				if q {
					for row in 0..8 {
						a[c * 8 + row] ^= if row == 7 { 0xff ^ ((c as u8) << 4) ^ r } else { 0xff };
					}
				} else {
					a[c * 8] ^= ((c as u8) << 4) ^ r;
				}
			}
			for v in a.iter_mut() {
				*v = sb[*v as usize];
			}
			let sh: [usize; 8] = if q { [1, 3, 5, 7, 0, 2, 4, 6] } else { [0, 1, 2, 3, 4, 5, 6, 7] };
			let mut b = [0u8; 64];
			for row in 0..8 {
				for c in 0..8 {
					b[c * 8 + row] = a[(c + sh[row]) % 8 * 8 + row];
				}
			}
			let m = [2u8, 2, 3, 4, 5, 3, 5, 7];
			for c in 0..8 {
				for row in 0..8 {
					a[c * 8 + row] = (0..8).fold(0, |acc, k| acc ^ gmul(m[(k + 8 - row) % 8], b[c * 8 + k]));
				}
			}
		}
		a
	}
}

fn to_tower(b: u8) -> B8 {
	B8::from(AESTowerField8b::new(b))
}
fn to_aes(x: B128) -> u8 {
	AESTowerField8b::from(B8::new(x.val() as u8)).val()
}
/// The 64 bytes of a state held in 8 columns of 8 bytes.
fn state(row: &Row, cols: &[usize]) -> [u8; 64] {
	array::from_fn(|k| to_aes(row[cols[k % 8]][k / 8]))
}

fn permutation<P: Pm>(s: &mut Src) -> Res
where
	PackedSubfield<P, B8>: PackedTransformationFactory<PackedSubfield<P, B8>>,
{
	let q = s.bool();
	let mut cs = ConstraintSystem::<B128>::new();
	let mut t = cs.add_table("t");
	let id = t.id();
	let state_in: [Col<B8, 8>; 8] = t.add_committed_multiple("state_in");
	let g = Permutation::new(&mut t, if q { PermutationVariant::Q } else { PermutationVariant::P }, state_in);
	let tab = tab_of(&cs, id)?;
	let ccs = cs.compile().map_err(|e| format!("{e}"))?;
	let rows: Vec<[u8; 64]> = (0..n_rows(s)).map(|_| bytes(s)).collect();
	let (ins, outs) = (col_ids(&tab, &g.state_in()), col_ids(&tab, &g.state_out()));
	{
		let mut a = binius_compute::cpu::alloc::CpuComputeAllocator::<P>::new(alloc_size(&cs, &[(id, rows.len())]));
		let bump = a.into_bump_allocator();
		let mut w = WitnessIndex::<P>::new(&cs, &bump);
		let mut seg = w.init_table(id, rows.len()).map_err(|e| format!("{e}"))?.full_segment();
		let st: Vec<[B8; 64]> = rows.iter().map(|x| x.map(to_tower)).collect();
		g.populate_state_in(&mut seg, &st).map_err(|e| format!("{e}"))?;
		g.populate(&mut seg).map_err(|e| format!("{e}"))?;
		let size = seg.size();
		let got: Vec<[B8; 64]> = g.read_state_outs(&mut seg).map_err(|e| format!("{e}"))?.collect();
		ck_eq!(got.len(), size, "the number of output states");
		for (k, (x, e)) in got.iter().zip(&rows).enumerate() {
			ck!(*x == groestl::perm(e, q).map(to_tower), "read_state_outs of row {k}: {x:?}");
		}
	}
	Gad::<P, [u8; 64]> {
		name: format!("Groestl {}", if q { "Q" } else { "P" }),
		cs: &cs,
		id,
		rows,
		fill: &|e, w| {
			let st: Vec<[B8; 64]> = e.iter().map(|x| x.map(to_tower)).collect();
			g.populate_state_in(w, &st)?;
			g.populate(w)?;
			Ok(())
		},
		inputs: ins.clone(),
		check: &|row| {
			let (a, b) = (state(row, &ins), state(row, &outs));
			ck!(groestl::perm(&a, q) == b, "input {a:02x?} output {b:02x?}");
			Ok(())
		},
		given: &|row, e| {
			let a = state(row, &ins);
			ck!(a == *e, "input {a:02x?} event {e:02x?}");
			Ok(())
		},
		more: &no_more::<P>,
		sizes: vec![],
		hint: &no_hint,
		attacks: 10,
		steps: 1000,
		plan: [1, 6, 0],
		lookups: false,
	}
	.run(s, &ccs, &tab)
}

// ------------------------------------------------------------------------------------------------
// SHA-256

fn sha<P: Pm>(s: &mut Src) -> Res {
	let mut cs = ConstraintSystem::<B128>::new();
	let mut t = cs.add_table("t");
	let id = t.id();
	let g = Sha256::new(&mut t);
	let tab = tab_of(&cs, id)?;
	let ccs = cs.compile().map_err(|e| format!("{e}"))?;
	let rows: Vec<[u32; 16]> = (0..s.range(1, 4))
		.map(|_| {
			let b: [u8; 64] = bytes(s);
			array::from_fn(|i| u32::from_be_bytes(array::from_fn(|j| b[4 * i + j])))
		})
		.collect();
	let (ins, outs) = (col_ids(&tab, &g.state_in), col_ids(&tab, &g.state_out));
	let block = |row: &Row| -> [u32; 16] { array::from_fn(|i| word(row, ins[i]) as u32) };
	Gad::<P, [u32; 16]> {
		name: "Sha256".into(),
		cs: &cs,
		id,
		rows,
		fill: &|e, w| g.populate(w, e.iter()),
		inputs: vec![],
		check: &|row| {
			let m = block(row);
			let mut st = [0x6a09e667u32, 0xbb67ae85, 0x3c6ef372, 0xa54ff53a, 0x510e527f, 0x9b05688c, 0x1f83d9ab, 0x5be0cd19];
			let mut b = [0u8; 64];
			for i in 0..16 {
				b[4 * i..4 * i + 4].copy_from_slice(&m[i].to_be_bytes());
			}
			sha2::compress256(&mut st, &[b.into()]);
			let out: [u32; 8] = array::from_fn(|i| word(row, outs[i]) as u32);
			ck!(st == out, "block {m:08x?} output {out:08x?} expected {st:08x?}");
			Ok(())
		},
		given: &|row, e| {
			let m = block(row);
			ck!(m == *e, "block {m:08x?} event {e:08x?}");
			Ok(())
		},
		more: &no_more::<P>,
		sizes: vec![],
		hint: &no_hint,
		attacks: 10,
		steps: 6000,
		plan: [1, 6, 0],
		lookups: false,
	}
	.run(s, &ccs, &tab)
}

// ------------------------------------------------------------------------------------------------
// Keccak

/// Lane (x, y) at x + 5 * y, as in the specification.
fn keccakf(a: &[u64; 25]) -> [u64; 25] {
	let mut a = *a;
	let mut lfsr = 1u8;
	for _ in 0..24 {
		let c: [u64; 5] = array::from_fn(|x| (0..5).fold(0, |acc, y| acc ^ a[x + 5 * y]));
		for x in 0..5 {
			let d = c[(x + 4) % 5] ^ c[(x + 1) % 5].rotate_left(1);
			for y in 0..5 {
				a[x + 5 * y] ^= d;
			}
		}
		let (mut x, mut y) = (1, 0);
		let mut cur = a[1];
		for t in 0..24u32 {
			(x, y) = (y, (2 * x + 3 * y) % 5);
			let next = a[x + 5 * y];
			a[x + 5 * y] = cur.rotate_left((t + 1) * (t + 2) / 2 % 64);
			cur = next;
		}
		for y in 0..5 {
			let r: [u64; 5] = array::from_fn(|x| a[x + 5 * y]);
			for x in 0..5 {
				a[x + 5 * y] = r[x] ^ (!r[(x + 1) % 5] & r[(x + 2) % 5]);
			}
		}
		for j in 0..7 {
			if lfsr & 1 == 1 {
				a[0] ^= 1 << ((1u32 << j) - 1);
			}
			lfsr = (lfsr << 1) ^ if lfsr & 0x80 != 0 { 0x71 } else { 0 };
		}
	}
	a
}

fn lanes(s: &mut Src) -> [u64; 25] {
	let b: [u8; 200] = bytes(s);
	array::from_fn(|i| u64::from_le_bytes(array::from_fn(|j| b[8 * i + j])))
}
fn matrix(a: &[u64; 25]) -> StateMatrix<u64> {
	StateMatrix::from_fn(|(x, y)| a[x + 5 * y])
}

fn keccak<P: Pm>(s: &mut Src) -> Res
where
	PackedSubfield<P, B8>: PackedTransformationFactory<PackedSubfield<P, B8>>,
{
	let mut cs = ConstraintSystem::<B128>::new();
	let mut t = cs.add_table("t");
	let id = t.id();
	let g = Keccakf::new(&mut t);
	let tab = tab_of(&cs, id)?;
	let ccs = cs.compile().map_err(|e| format!("{e}"))?;
	let rows: Vec<[u64; 25]> = (0..s.range(1, 3)).map(|_| lanes(s)).collect();
	let ins: Vec<usize> = (0..25).map(|k| tab.at(g.input[(k % 5, k / 5)])).collect();
	let outs: Vec<usize> = (0..25).map(|k| tab.at(g.output[(k % 5, k / 5)])).collect();
	let get = |row: &Row, c: &[usize]| -> [u64; 25] { array::from_fn(|k| row[c[k]][0].val() as u64) };
	Gad::<P, [u64; 25]> {
		name: "Keccakf".into(),
		cs: &cs,
		id,
		rows,
		fill: &|e, w| {
			let m: Vec<StateMatrix<u64>> = e.iter().map(matrix).collect();
			g.populate_state_in(w, &m)?;
			g.populate(w)?;
			for (k, out) in g.read_state_outs(w)?.enumerate().take(e.len()) {
				anyhow::ensure!(out == matrix(&keccakf(&e[k])), "read_state_outs of row {k}");
			}
			Ok(())
		},
		inputs: vec![],
		check: &|row| {
			let (a, b) = (get(row, &ins), get(row, &outs));
			ck!(keccakf(&a) == b, "input {a:x?} output {b:x?}");
			Ok(())
		},
		given: &|row, e| {
			let a = get(row, &ins);
			ck!(a == *e, "input {a:x?} event {e:x?}");
			Ok(())
		},
		more: &no_more::<P>,
		sizes: vec![],
		hint: &no_hint,
		attacks: 6,
		steps: 2000,
		plan: [1, 6, 0],
		lookups: false,
	}
	.run(s, &ccs, &tab)
}

/// The version whose nonlinear step is looked up.
fn looked_up(s: &mut Src) -> Res {
	let mut cs = ConstraintSystem::<B128>::new();
	let chan = cs.add_channel("lookup");
	let perm = cs.add_channel("permutation");
	let mut t = cs.add_table("lookup");
	let lt_id = t.id();
	let lookup = BitAndLookup::new(&mut t, chan, perm, 20);
	let mut t = cs.add_table("t");
	let id = t.id();
	let g = KeccakfLookedup::new(&mut t, chan);
	let tab = tab_of(&cs, id)?;
	let ccs = cs.compile().map_err(|e| format!("{e}"))?;
	let rows: Vec<[u64; 25]> = (0..s.range(1, 3)).map(|_| lanes(s)).collect();
	let ins: Vec<usize> = (0..25).map(|k| tab.at(g.input[(k % 5, k / 5)])).collect();
	let outs: Vec<usize> = (0..25).map(|k| tab.at(g.output[(k % 5, k / 5)])).collect();
	let get = |row: &Row, c: &[usize]| -> [u64; 25] { array::from_fn(|k| row[c[k]][0].val() as u64) };
	let lookup = std::panic::AssertUnwindSafe(lookup);
	Gad::<P2, [u64; 25]> {
		name: "KeccakfLookedup".into(),
		cs: &cs,
		id,
		rows,
		fill: &|e, w| {
			let m: Vec<StateMatrix<u64>> = e.iter().map(matrix).collect();
			g.populate_state_in(w, &m)?;
			g.populate(w)?;
			for (k, out) in g.read_state_outs(w)?.enumerate().take(e.len()) {
				anyhow::ensure!(out == matrix(&keccakf(&e[k])), "read_state_outs of row {k}");
			}
			Ok(())
		},
		inputs: vec![],
		check: &|row| {
			let (a, b) = (get(row, &ins), get(row, &outs));
			ck!(keccakf(&a) == b, "input {a:x?} output {b:x?}");
			Ok(())
		},
		given: &|row, e| {
			let a = get(row, &ins);
			ck!(a == *e, "input {a:x?} event {e:x?}");
			Ok(())
		},
		more: &|w| {
			let counts = tally(&cs, w, &[], chan, &BitAndIndexedLookup).map_err(|e| format!("tally: {e}"))?;
			let mut counts: Vec<(usize, u32)> = counts.into_iter().enumerate().collect();
			counts.sort_by_key(|c| Reverse(c.1));
			w.fill_table_parallel(&*lookup, &counts).map_err(|e| format!("filling the lookup table: {e}"))
		},
		sizes: vec![(lt_id, 1 << 16)],
		hint: &no_hint,
		attacks: 6,
		steps: 1500,
		plan: [1, 4, 0],
		lookups: true,
	}
	.run(s, &ccs, &tab)
}

// ------------------------------------------------------------------------------------------------
// Merkle paths

fn compress(l: &[u8; 32], r: &[u8; 32]) -> [u8; 32] {
	let aes = |b: u8| AESTowerField8b::from(B8::new(b)).val();
	let a: [u8; 64] = array::from_fn(|i| aes(if i < 32 { l[i] } else { r[i - 32] }));
	let b = groestl::perm(&a, false);
	array::from_fn(|i| to_tower(a[32 + i] ^ b[32 + i]).val())
}

fn merkle(s: &mut Src) -> Res {
	let n = s.range(1, 3);
	let mut trees: Vec<Vec<Vec<[u8; 32]>>> = vec![]; // layers from the leaves
	let mut theirs = vec![];
	for _ in 0..n {
		let depth = s.index(6);
		let mut leaves: Vec<[u8; 32]> = (0..1usize << depth).map(|_| bytes(s)).collect();
		if s.chance(1, 4) {
			let one = leaves[0];
			leaves.fill(one);
		}
		let mut layers = vec![leaves.clone()];
		while layers.last().expect("one").len() > 1 {
			let next = layers.last().expect("one").chunks(2).map(|c| compress(&c[0], &c[1])).collect();
			layers.push(next);
		}
		let t = MerkleTree::new(&leaves);
		ck_eq!(t.root(), layers.last().expect("one")[0], "the root of {} leaves", leaves.len());
		trees.push(layers);
		theirs.push(t);
	}
	let mut paths = vec![];
	for _ in 0..s.range(1, 8) {
		let i = s.index(n);
		let layers = &trees[i];
		let index = s.index(layers[0].len());
		let path: Vec<[u8; 32]> = (0..layers.len() - 1).map(|j| layers[j][index >> j ^ 1]).collect();
		ck_eq!(theirs[i].merkle_path(index), path.clone(), "the path of leaf {index}");
		let (root, leaf) = (theirs[i].root(), layers[0][index]);
		MerkleTree::verify_path(&path, root, leaf, index);
		paths.push(MerklePath { root_id: i as u8, index, leaf, nodes: path });
	}
	let roots: Vec<[u8; 32]> = theirs.iter().map(|t| t.root()).collect();
	let mut trace = MerkleTreeTrace::generate(roots, &paths);
	// all nodes have the right parent
	for e in &trace.nodes {
		ck_eq!(e.parent, compress(&e.left, &e.right), "an event's parent");
	}
	let claims: HashSet<NodeFlushToken> =
		paths.iter().map(|p| NodeFlushToken { root_id: p.root_id, data: p.leaf, depth: p.nodes.len(), index: p.index }).collect();
	ck!(claims == trace.boundaries.leaf, "the claims of the trace are {:?}, those of the paths {claims:?}", trace.boundaries.leaf);
	trace.validate();
	// what is wrong, if anything
	let wrong = match s.index(6) {
		0 | 1 => None,
		2 => {
			// a false claim about a leaf
			let mut v: Vec<NodeFlushToken> = trace.boundaries.leaf.iter().copied().collect();
			v.sort();
			let k = s.index(v.len());
			match s.index(4) {
				0 => {
					let at = s.index(32);
					v[k].data[at] ^= 1 << s.index(8);
				}
				1 => v[k].index ^= 1 << s.index(v[k].depth + 1),
				2 => v[k].depth = (v[k].depth + s.range(1, 3)) % 256,
				_ => v[k].root_id ^= 1 << s.index(8),
			}
			trace.boundaries.leaf = v.into_iter().collect();
			(trace.boundaries.leaf != claims).then(|| "a leaf".to_string())
		}
		3 => {
			let mut v: Vec<_> = trace.boundaries.root.iter().copied().collect();
			v.sort();
			let k = s.index(v.len());
			if s.bool() {
				let at = s.index(32);
				v[k].data[at] ^= 1 << s.index(8);
			} else {
				v[k].root_id ^= 1 << s.index(8);
			}
			let new = v.into_iter().collect();
			let changed = new != trace.boundaries.root;
			trace.boundaries.root = new;
			changed.then(|| "a root".to_string())
		}
		_ if trace.nodes.is_empty() => None,
		k => {
			// a step that is not one: a node with the wrong hash, the steps above it as they then are
			let mut v: Vec<MerklePathEvent> = trace.nodes.clone();
			v.sort_by_key(|e| (e.root_id, e.parent_depth, e.parent_index));
			let at = s.index(v.len());
			let mut e = v[at];
			let byte = s.index(32);
			let flip = 1 << s.index(8);
			if k == 4 {
				e.parent[byte] ^= flip;
			} else {
				match s.index(2) {
					0 => e.left[byte] ^= flip,
					_ => e.right[byte] ^= flip,
				}
			}
			v[at] = e;
			let mut up = e;
			let mut last = true;
			if k == 4 || s.bool() {
				if k != 4 {
					up.parent = compress(&up.left, &up.right);
					v[at] = up;
				}
				while up.parent_depth > 0 {
					let (d, i) = (up.parent_depth - 1, up.parent_index / 2);
					let Some(p) = v.iter_mut().find(|x| x.root_id == up.root_id && x.parent_depth == d && x.parent_index == i) else { break };
					if up.parent_index % 2 == 0 { p.left = up.parent } else { p.right = up.parent }
					p.parent = compress(&p.left, &p.right);
					up = *p;
				}
				// the statement is about the root that comes out
				trace.root = trace.root.iter().map(|r| if r.root_id == e.root_id { binius_m3::gadgets::merkle_tree::trace::MerkleRootEvent::new(r.root_id, up.parent) } else { *r }).collect();
				trace.boundaries.root = trace
					.boundaries
					.root
					.iter()
					.map(|r| {
						let mut r = *r;
						if r.root_id == e.root_id {
							r.data = up.parent;
						}
						r
					})
					.collect();
				if k != 4 {
					// a sibling that nobody claims may be anything
					let claimed = if e.left != trace.nodes.iter().find(|x| same(x, &e)).expect("the event").left { e.flush_left } else { e.flush_right };
					last = claimed;
				}
			}
			trace.nodes = v;
			last.then(|| if k == 4 { "a parent".into() } else { "a child".to_string() })
		}
	};
	s.desc(format!("trees {:?} paths {} wrong {wrong:?}", trees.iter().map(|t| t[0].len()).collect::<Vec<_>>(), paths.len()));
	s.label(format!("wrong {wrong:?}"));
	s.nontrivial_if(!trace.nodes.is_empty());
	let mut cs = ConstraintSystem::<B128>::new();
	let m = MerkleTreeCS::new(&mut cs);
	let ccs = cs.compile().map_err(|e| format!("{e}"))?;
	let sizes: Vec<(usize, usize)> = cs.tables.iter().map(|t| (t.id(), if t.name.contains("incr") { 512 } else { trace.nodes.len().max(trace.root.len()).max(1) })).collect();
	let mut a = binius_compute::cpu::alloc::CpuComputeAllocator::new(alloc_size(&cs, &sizes));
	let bump = a.into_bump_allocator();
	let mut w = WitnessIndex::new(&cs, &bump);
	let res = m.fill_tables(&trace, &cs, &mut w).map_err(|e| format!("filling fails: {e}")).and_then(|()| validated(&ccs, w, &m.make_boundaries(&trace)));
	match (wrong, res) {
		(None, r) => r.map_err(|e| format!("an honest Merkle witness is refused: {e}")),
		(Some(x), Ok(())) => Err(format!("accepted although {x} is wrong")),
		(Some(_), Err(_)) => Ok(()),
	}
}
fn same(a: &MerklePathEvent, b: &MerklePathEvent) -> bool {
	(a.root_id, a.parent_depth, a.parent_index) == (b.root_id, b.parent_depth, b.parent_index)
}

fn hashes(s: &mut Src) -> Res {
	match s.index(4) {
		0 => permutation::<P1>(s),
		_ => permutation::<P2>(s),
	}
}
fn shas(s: &mut Src) -> Res {
	if s.bool() { sha::<P1>(s) } else { sha::<P2>(s) }
}
fn keccaks(s: &mut Src) -> Res {
	if s.bool() { keccak::<P1>(s) } else { keccak::<P2>(s) }
}

fn main() {
	run(Prop {
		id: "C25",
		rule: "the table has more than one row",
		assumptions: &["what a compiled constraint means (C03, C23)"],
		subs: vec![
			Sub { name: "groestl", quick: 36, thorough: 20000, threads: 0, f: hashes },
			Sub { name: "sha256", quick: 14, thorough: 20000, threads: 0, f: shas },
			Sub { name: "keccak", quick: 16, thorough: 20000, threads: 0, f: keccaks },
			Sub { name: "lookedup", quick: 8, thorough: 3000, threads: 0, f: looked_up },
			Sub { name: "merkle", quick: 600, thorough: 30000, threads: 0, f: merkle },
		],
	});
}
