//! The verifier answers every input: it returns, and never panics.
use binius_field::arch::OptimalUnderlier128b as U;
use c_sys::*;

fn answered(s: &mut Src, ccs: &Ccs, p: Params, dg: &Dg, b: &[Bound], proof: Vec<u8>, what: &str) -> Res {
	match no_panic(|| verify(ccs, p, dg, b, proof)) {
		Ok(Ok(())) => s.label("accepted"),
		Ok(Err(e)) => {
			let e: String = e.chars().take_while(|c| c.is_ascii_alphabetic() || "(_".contains(*c)).take(48).collect();
			s.label(format!("error {e}"));
		}
		Err(e) => return Err(format!("verifier panicked: {e} ({what})")),
	}
	Ok(())
}

fn setup(s: &mut Src) -> Option<(Sys, Ccs, Params, Dg, Vec<Bound>, Vec<u8>)> {
	let cfg = if s.chance(2, 3) { Cfg::small() } else { Cfg { max_log: 4, max_lv: 5, ..Cfg::medium() } };
	let sys = generate(s, &cfg);
	let p = Params { rate: s.range(1, 2), sec: *s.pick(&[3, 20, 60]) };
	let ccs = sys.compile();
	let dg = digest(&ccs);
	let b = sys.bounds();
	let proof =
		no_panic(|| prove::<U>(&ccs, p, &dg, &b, &sys.sizes(), sys.index::<U>())).ok()?.ok()?;
	s.desc(format!("{}, {p:?}, proof of {} bytes", sys.desc(), proof.len()));
	Some((sys, ccs, p, dg, b, proof))
}

/// Bytes altered anywhere in an honest proof.
fn bytes(s: &mut Src) -> Res {
	let Some((_, ccs, p, dg, b, proof)) = setup(s) else {
		s.discard();
		return Ok(());
	};
	for _ in 0..12 {
		let mut q = proof.clone();
		let mut what = String::new();
		for _ in 0..s.weighted(&[0, 4, 1, 1]) {
			match s.weighted(&[6, 2, 2, 2, 2, 1]) {
				0 => {
					let i = match s.weighted(&[2, 2, 1]) {
						0 => s.index(q.len().max(1)),
						1 => s.index(q.len().clamp(1, 2048)),
						_ => q.len().max(1) - 1 - s.index(q.len().clamp(1, 512)),
					};
					if i < q.len() {
						q[i] ^= 1 << s.index(8);
						what += &format!("bit flipped in byte {i}; ");
					}
				}
				1 => {
					let k = if s.bool() { s.range(0, q.len()) } else { s.range(0, 40.min(q.len())) };
					q.truncate(q.len() - k);
					what += &format!("{k} bytes cut off; ");
				}
				2 => {
					let k = s.range(1, 100);
					let t = s.bytes(k);
					q.extend(t);
					what += &format!("{k} bytes appended; ");
				}
				3 => {
					// one message removed or inserted
					let w = *s.pick(&[8usize, 16, 32, 1]);
					if q.len() > w {
						let i = s.index(q.len() - w);
						if s.bool() {
							q.drain(i..i + w);
							what += &format!("bytes {i}..+{w} removed; ");
						} else {
							let t = s.bytes(w);
							q.splice(i..i, t);
							what += &format!("{w} bytes inserted at {i}; ");
						}
					}
				}
				4 => {
					let w = *s.pick(&[1usize, 4, 8, 16, 32]);
					if q.len() > w {
						let i = if s.bool() { s.index(q.len() - w) } else { s.index((q.len() - w).min(1024)) };
						let fill = *s.pick(&[0u8, 0xff, 1, 0x80]);
						q[i..i + w].fill(fill);
						what += &format!("bytes {i}..+{w} filled with {fill:#x}; ");
					}
				}
				_ => {
					let k = s.range(0, 3000);
					q = s.bytes(k);
					what += &format!("{k} arbitrary bytes; ");
				}
			}
		}
		if q == proof {
			continue;
		}
		s.nontrivial();
		answered(s, &ccs, p, &dg, &b, q, &what)?;
	}
	Ok(())
}

/// Table sizes other than the ones proved.
fn sizes(s: &mut Src) -> Res {
	let Some((sys, ccs, p, dg, b, proof)) = setup(s) else {
		s.discard();
		return Ok(());
	};
	let n = sys.tables.len();
	for _ in 0..6 {
		let mut q = proof.clone();
		let mut sizes: Vec<u64> =
			(0..n).map(|i| u32::from_le_bytes(q[4 * i..4 * i + 4].try_into().unwrap()) as u64).collect();
		if sizes.iter().map(|x| *x as usize).ne(sys.sizes()) {
			panic!("the proof does not start with the table sizes");
		}
		let old = sizes.clone();
		for _ in 0..s.range(1, 2) {
			let t = s.index(n);
			sizes[t] = match s.weighted(&[3, 3, 2, 2, 1, 1]) {
				0 => s.range(0, 40) as u64,
				1 => 1 << s.range(0, 20),
				2 => 1 << s.range(0, 31),
				3 => s.special_u64() as u32 as u64,
				4 => (sizes[t] + 1) as u32 as u64,
				_ => 0,
			};
		}
		if sizes == old {
			continue;
		}
		for i in 0..n {
			q[4 * i..4 * i + 4].copy_from_slice(&(sizes[i] as u32).to_le_bytes());
		}
		s.nontrivial();
		answered(s, &ccs, p, &dg, &b, q, &format!("table sizes {old:?} -> {sizes:?}"))?;
	}
	Ok(())
}

/// Boundaries other than the ones proved, of any shape.
fn boundaries(s: &mut Src) -> Res {
	let Some((sys, ccs, p, dg, b, proof)) = setup(s) else {
		s.discard();
		return Ok(());
	};
	for _ in 0..6 {
		let mut t = sys.clone();
		let mut what = String::new();
		for _ in 0..s.range(1, 3) {
			if t.boundaries.is_empty() || s.bool() {
				let w = s.range(0, 4);
				let d = Bd {
					values: (0..w).map(|_| s.special_u128()).collect(),
					channel: s.range(0, t.channels + 2),
					push: s.bool(),
					mult: if s.chance(1, 4) { s.special_u64() } else { s.range(0, 3) as u64 },
				};
				what += &format!("added {d:?}; ");
				t.boundaries.push(d);
			} else {
				let k = s.index(t.boundaries.len());
				t.boundaries.remove(k);
				what += &format!("dropped {k}; ");
			}
		}
		let tb = t.bounds();
		s.nontrivial_if(tb != b);
		answered(s, &ccs, p, &dg, &tb, proof.clone(), &what)?;
	}
	Ok(())
}

/// A proof of one system shown to the verifier of another.
fn foreign(s: &mut Src) -> Res {
	let Some((_, _, _, _, b, proof)) = setup(s) else {
		s.discard();
		return Ok(());
	};
	let other = generate(s, &Cfg::small());
	let p = Params { rate: s.range(1, 3), sec: *s.pick(&[3, 20, 60]) };
	let ccs = other.compile();
	let dg = digest(&ccs);
	let mut q = proof;
	if s.bool() {
		// with the sizes of the other system, so that more of the proof is read
		let head: Vec<u8> = other.sizes().iter().flat_map(|x| (*x as u32).to_le_bytes()).collect();
		let n = head.len().min(q.len());
		q.splice(..n, head);
	}
	let ob = other.bounds();
	let bb = if s.bool() { &b } else { &ob };
	s.desc(format!("shown to {}", other.desc()));
	s.nontrivial();
	answered(s, &ccs, p, &dg, bb, q, "proof of another system")
}

/// A prover that claims a table larger than a structured column is defined for.
fn oversized(s: &mut Src) -> Res {
	let mut sys = generate(s, &Cfg::small());
	let ts: Vec<usize> = (0..sys.tables.len())
		.filter(|t| {
			sys.tables[*t].size > 0
				&& !matches!(sys.tables[*t].spec, Some(Some(_)))
				&& sys.cols.iter().all(|c| c.table != *t || (!matches!(c.def, Def::Transparent(_)) && c.full))
				&& sys.cols.iter().any(|c| c.table == *t && matches!(c.def, Def::Structured(_)))
		})
		.collect();
	if ts.is_empty() {
		s.discard();
		return Ok(());
	}
	let t = *s.pick(&ts);
	let k = s.range(1, 3);
	sys.tables[t].size = 1 << (sys.log_cap(t) + k);
	for c in sys.cols.iter_mut().filter(|c| c.table == t) {
		c.n += k;
		c.vals = c.vals.repeat(1 << k);
	}
	sys.recompute();
	let p = Params { rate: 1, sec: 20 };
	let ccs = sys.compile();
	let dg = digest(&ccs);
	let b = sys.bounds();
	s.desc(format!("table {t} grown 2^{k} times: {}", sys.desc()));
	match no_panic(|| prove::<U>(&ccs, p, &dg, &b, &sys.sizes(), sys.index::<U>())) {
		Ok(Ok(proof)) => {
			s.nontrivial();
			answered(s, &ccs, p, &dg, &b, proof, "oversized table")
		}
		_ => {
			s.label("no proof");
			Ok(())
		}
	}
}

fn main() {
	run(Prop {
		id: "C04",
		rule: "the verifier was given a proof, table sizes, boundaries or a system other than those that were proved",
		assumptions: &[
			"the constraint system itself is well formed (it was accepted by the builder)",
			"the process may use 28 GB of memory and a case may take two minutes",
		],
		subs: vec![
			Sub { name: "bytes", quick: 2500, thorough: 50000, threads: 0, f: bytes },
			Sub { name: "sizes", quick: 4000, thorough: 80000, threads: 0, f: sizes },
			Sub { name: "boundaries", quick: 1500, thorough: 30000, threads: 0, f: boundaries },
			Sub { name: "foreign", quick: 3000, thorough: 60000, threads: 0, f: foreign },
			Sub { name: "oversized", quick: 6000, thorough: 60000, threads: 0, f: oversized },
		],
	})
}
