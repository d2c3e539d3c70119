//! Soundness: whatever a (possibly dishonest) prover sends, a false statement is not accepted.
use binius_field::arch::OptimalUnderlier128b as U;
use c_sys::*;

fn sound_params(s: &mut Src) -> Params {
	Params { rate: s.range(1, 2), sec: *s.pick(&[40, 60, 100]) }
}

/// Proves with the real prover; `None` when it refuses or panics.
fn attempt(ccs: &Ccs, p: Params, dg: &Dg, sys: &Sys) -> Option<Vec<u8>> {
	no_panic(|| prove::<U>(ccs, p, dg, &sys.bounds(), &sys.sizes(), sys.index::<U>())).ok()?.ok()
}

/// The verifier must answer with an error. A panic is C04's business.
fn rejected(ccs: &Ccs, p: Params, dg: &Dg, b: &[Bound], proof: Vec<u8>, what: &str) -> Res {
	match no_panic(|| verify(ccs, p, dg, b, proof)) {
		Ok(Ok(())) => Err(format!("verifier accepted a false statement: {what}")),
		_ => Ok(()),
	}
}

fn cfg(s: &mut Src) -> Cfg {
	if s.chance(2, 3) { Cfg::small() } else { Cfg { max_log: 4, max_lv: 5, ..Cfg::medium() } }
}

/// What the committed columns mean once every derived column follows its definition.
fn truth(sys: &Sys) -> Result<(), String> {
	let mut t = sys.clone();
	t.recompute();
	t.verdict()
}

fn live_committed(sys: &Sys) -> Vec<usize> {
	(0..sys.cols.len()).filter(|c| sys.live(*c) && matches!(sys.cols[*c].def, Def::Committed)).collect()
}

/// Changes committed cells so that the system is no longer satisfied.
fn corrupt(s: &mut Src, sys: &mut Sys) {
	// a zero in a column declared non-zero
	let nz: Vec<usize> = sys.nonzero.iter().copied().filter(|c| sys.live(*c) && matches!(sys.cols[*c].def, Def::Committed)).collect();
	if !nz.is_empty() && s.chance(1, 3) {
		let c = *s.pick(&nz);
		let i = s.index(sys.cols[c].vals.len());
		sys.cols[c].vals[i] = 0;
		return;
	}
	// Columns that something depends on are preferred.
	let used = sys.used();
	let mut cands: Vec<usize> = live_committed(sys);
	let pref: Vec<usize> = cands.iter().copied().filter(|c| used.contains(c)).collect();
	if !pref.is_empty() && !s.chance(1, 8) {
		cands = pref;
	}
	let n_cells = [1usize, 2, 5][s.weighted(&[5, 2, 1])];
	let c = *s.pick(&cands);
	for _ in 0..n_cells {
		let i = match s.weighted(&[2, 1, 1]) {
			0 => s.index(sys.cols[c].vals.len()),
			1 => 0,
			_ => sys.cols[c].vals.len() - 1,
		};
		let m = refm::mask(sys.cols[c].level);
		let d = s.special_u128() & m;
		let v = &mut sys.cols[c].vals[i];
		*v = if s.chance(1, 6) { 0 } else { *v ^ if d == 0 { 1 } else { d } };
	}
}

/// Leaves a single violated requirement, so that nothing else can give the falsehood away.
fn focus(s: &mut Src, sys: &mut Sys) {
	let mut t = sys.clone();
	t.recompute();
	let mut v = t.violations();
	if v.len() < 2 {
		return;
	}
	// kinds first, so that the rarer ones are chosen as often
	let mut kinds: Vec<_> = v.iter().map(std::mem::discriminant).collect();
	kinds.dedup();
	let kind = *s.pick(&kinds);
	let of: Vec<usize> = (0..v.len()).filter(|i| std::mem::discriminant(&v[*i]) == kind).collect();
	let keep = *s.pick(&of);
	v.remove(keep);
	sys.drop_requirements(&v);
	s.label("one violated requirement");
}

fn witness(s: &mut Src) -> Res {
	let c = cfg(s);
	let mut sys = generate(s, &c);
	let p = sound_params(s);
	corrupt(s, &mut sys);
	if s.bool() {
		focus(s, &mut sys);
	}
	// Derived columns either follow the corrupted cells or keep their old values.
	if s.chance(3, 4) {
		sys.recompute();
	}
	let why = match truth(&sys) {
		Ok(()) => {
			s.discard();
			return Ok(());
		}
		Err(e) => e,
	};
	s.desc(format!("{} // {why}", sys.desc()));
	let ccs = sys.compile();
	let dg = digest(&ccs);
	let Some(proof) = attempt(&ccs, p, &dg, &sys) else {
		s.label("prover refused");
		return Ok(());
	};
	s.label(format!("broken:{}", why.split(' ').next().unwrap_or("")));
	s.nontrivial();
	rejected(&ccs, p, &dg, &sys.bounds(), proof, &why)
}

fn change_boundaries(s: &mut Src, sys: &mut Sys) {
	let nb = sys.boundaries.len();
	match s.range(0, 4) {
		0 if nb > 0 => {
			let i = s.index(nb);
			sys.boundaries.remove(i);
		}
		1 if nb > 0 => {
			let i = s.index(nb);
			let b = &mut sys.boundaries[i];
			let j = s.index(b.values.len());
			let d = s.special_u128();
			b.values[j] ^= if d == 0 { 1 } else { d };
		}
		2 if nb > 0 => {
			let i = s.index(nb);
			let b = &mut sys.boundaries[i];
			b.mult = *s.pick(&[b.mult.wrapping_add(1), b.mult.wrapping_add(2), b.mult.wrapping_mul(2), b.mult ^ (1 << 32), b.mult ^ (1 << 63), b.mult.saturating_sub(1)]);
		}
		3 if nb > 0 => {
			let i = s.index(nb);
			sys.boundaries[i].push ^= true;
		}
		_ if sys.channels > 0 => {
			let ch = s.index(sys.channels);
			let w = sys.widths[ch];
			let values = (0..w).map(|_| s.special_u128()).collect();
			let mult = s.range(1, 3) as u64;
			sys.boundaries.push(Bd { values, channel: ch, push: s.bool(), mult });
		}
		_ => {}
	}
}

fn boundary(s: &mut Src) -> Res {
	let c = cfg(s);
	let sys = generate(s, &c);
	let p = sound_params(s);
	let mut bad = sys.clone();
	change_boundaries(s, &mut bad);
	let why = match bad.verdict() {
		Ok(()) => {
			s.discard();
			return Ok(());
		}
		Err(e) => e,
	};
	s.desc(format!("{} // {:?} -> {:?}: {why}", sys.desc(), sys.boundaries, bad.boundaries));
	let ccs = sys.compile();
	let dg = digest(&ccs);
	s.nontrivial();
	// a proof made for the false boundaries, and the honest one replayed with them
	if s.bool() {
		let Some(proof) = attempt(&ccs, p, &dg, &bad) else { return Ok(()) };
		s.label("proved with false boundaries");
		rejected(&ccs, p, &dg, &bad.bounds(), proof, &why)
	} else {
		let proof = attempt(&ccs, p, &dg, &sys).ok_or("honest prover failed")?;
		s.label("honest proof, false boundaries");
		rejected(&ccs, p, &dg, &bad.bounds(), proof, &why)
	}
}

/// A different system with (as far as possible) the same proof format.
fn mutate(s: &mut Src, sys: &mut Sys) -> &'static str {
	fn tweak(s: &mut Src, e: &mut Ex, level: usize) -> bool {
		match e {
			Ex::Const(c) => {
				let d = s.special_u128() & refm::mask(level);
				*c ^= if d == 0 { 1 } else { d };
				true
			}
			Ex::Var(_) => false,
			Ex::Add(a, b) | Ex::Mul(a, b) => {
				if s.bool() {
					tweak(s, a, level) || tweak(s, b, level)
				} else {
					tweak(s, b, level) || tweak(s, a, level)
				}
			}
			Ex::Pow(a, _) => tweak(s, a, level),
		}
	}
	fn swap_var(s: &mut Src, e: &mut Ex, nv: usize) -> bool {
		match e {
			Ex::Const(_) => false,
			Ex::Var(v) => {
				*v = s.index(nv);
				true
			}
			Ex::Add(a, b) | Ex::Mul(a, b) => {
				if s.bool() {
					swap_var(s, a, nv) || swap_var(s, b, nv)
				} else {
					swap_var(s, b, nv) || swap_var(s, a, nv)
				}
			}
			Ex::Pow(a, _) => swap_var(s, a, nv),
		}
	}
	// candidates that do exist in this system
	let mut kinds: Vec<&'static str> = vec![];
	if !sys.csets.is_empty() {
		kinds.extend(["constraint constant", "constraint variable"]);
	}
	if !sys.flushes.is_empty() {
		kinds.extend(["flush column", "flush direction", "flush multiplicity", "flush channel"]);
	}
	if sys.flushes.iter().any(|f| !f.selectors.is_empty()) {
		kinds.push("flush selector");
	}
	if !sys.exps.is_empty() {
		kinds.extend(["exp result", "exp result", "exp base", "exp bit"]);
	}
	if !sys.nonzero.is_empty() {
		kinds.push("nonzero column");
	}
	if sys.cols.iter().any(|c| !matches!(c.def, Def::Committed)) {
		kinds.extend(["virtual definition", "virtual definition"]);
	}
	if kinds.is_empty() {
		return "";
	}
	let kind = *s.pick(&kinds);
	let like = |sys: &Sys, c: usize, same_level: bool| -> Vec<usize> {
		(0..sys.cols.len())
			.filter(|d| {
				*d != c
					&& sys.cols[*d].table == sys.cols[c].table
					&& sys.cols[*d].lv == sys.cols[c].lv
					&& sys.cols[*d].n == sys.cols[c].n
					&& sys.cols[*d].full
					&& (!same_level || sys.cols[*d].level == sys.cols[c].level)
			})
			.collect()
	};
	match kind {
		"constraint constant" => {
			let k = s.index(sys.csets.len());
			let lv = sys.csets[k].cols.iter().map(|c| sys.cols[*c].wlevel()).max().unwrap_or(7);
			let j = s.index(sys.csets[k].exprs.len());
			let mut e = sys.csets[k].exprs[j].clone();
			if !tweak(s, &mut e, lv) {
				e = Ex::Add(Box::new(e), Box::new(Ex::Const(1)));
			}
			sys.csets[k].exprs[j] = e;
		}
		"constraint variable" => {
			let k = s.index(sys.csets.len());
			let j = s.index(sys.csets[k].exprs.len());
			let nv = sys.csets[k].cols.len();
			let mut e = sys.csets[k].exprs[j].clone();
			swap_var(s, &mut e, nv);
			sys.csets[k].exprs[j] = e;
		}
		"flush column" => {
			let k = s.index(sys.flushes.len());
			let j = s.index(sys.flushes[k].cols.len());
			match sys.flushes[k].cols[j] {
				Ok(c) => {
					let l = like(sys, c, false);
					if !l.is_empty() {
						sys.flushes[k].cols[j] = Ok(*s.pick(&l));
					}
				}
				Err(v) => sys.flushes[k].cols[j] = Err(v ^ (1 | s.special_u128())),
			}
		}
		"flush direction" => {
			let k = s.index(sys.flushes.len());
			sys.flushes[k].push ^= true;
		}
		"flush multiplicity" => {
			let k = s.index(sys.flushes.len());
			sys.flushes[k].mult = sys.flushes[k].mult.wrapping_add(s.range(1, 2) as u64);
		}
		"flush channel" => {
			let k = s.index(sys.flushes.len());
			let w = sys.flushes[k].cols.len();
			let o: Vec<usize> = (0..sys.channels)
				.filter(|c| *c != sys.flushes[k].channel && sys.widths[*c] == w)
				.collect();
			if !o.is_empty() {
				sys.flushes[k].channel = *s.pick(&o);
			}
		}
		"flush selector" => {
			let ks: Vec<usize> =
				(0..sys.flushes.len()).filter(|k| !sys.flushes[*k].selectors.is_empty()).collect();
			let k = *s.pick(&ks);
			let j = s.index(sys.flushes[k].selectors.len());
			let l = like(sys, sys.flushes[k].selectors[j], true);
			if !l.is_empty() {
				sys.flushes[k].selectors[j] = *s.pick(&l);
			}
		}
		"exp result" => {
			let k = s.index(sys.exps.len());
			let l: Vec<usize> = like(sys, sys.exps[k].result, true)
				.into_iter()
				.filter(|c| matches!(sys.cols[*c].def, Def::Committed) && !sys.exps.iter().any(|x| x.result == *c))
				.collect();
			if !l.is_empty() {
				sys.exps[k].result = *s.pick(&l);
			}
		}
		"exp base" => {
			let k = s.index(sys.exps.len());
			match sys.exps[k].base {
				Err((v, l)) => {
					let d = (s.special_u128() | 2) & refm::mask(l);
					sys.exps[k].base = Err((v ^ d, l));
				}
				Ok(c) => {
					let l = like(sys, c, true);
					if !l.is_empty() {
						sys.exps[k].base = Ok(*s.pick(&l));
					}
				}
			}
		}
		"exp bit" => {
			let k = s.index(sys.exps.len());
			let j = s.index(sys.exps[k].bits.len());
			let l = like(sys, sys.exps[k].bits[j], true);
			if !l.is_empty() {
				sys.exps[k].bits[j] = *s.pick(&l);
			}
		}
		"nonzero column" => {
			let k = s.index(sys.nonzero.len());
			let l = like(sys, sys.nonzero[k], true);
			if !l.is_empty() {
				sys.nonzero[k] = *s.pick(&l);
			}
		}
		_ => {
			let vs: Vec<usize> =
				(0..sys.cols.len()).filter(|c| !matches!(sys.cols[*c].def, Def::Committed)).collect();
			let c = *s.pick(&vs);
			let level = sys.cols[c].level;
			let (n, len) = (sys.cols[c].n, 1usize << sys.cols[c].n);
			let mut def = sys.cols[c].def.clone();
			match &mut def {
				Def::Transparent(t) => match t {
					Tr::Constant(v) => *v ^= 1,
					Tr::SelectRow(k) => *k = s.index(len),
					Tr::StepDown(k) | Tr::StepUp(k) => *k = s.range(0, len),
					Tr::Powers(v) => *v ^= 1 | s.special_u128(),
					Tr::Mle(m) => {
						let i = s.index(m.len());
						m[i] ^= 1;
					}
					Tr::Circuit(e) => {
						*e = Ex::Add(Box::new(e.clone()), Box::new(Ex::Const(1)));
					}
				},
				Def::Structured(e) => *e = Ex::Add(Box::new(e.clone()), Box::new(Ex::Const(1))),
				Def::Repeating(_) | Def::Committed => {}
				Def::Shifted { off, block, var, .. } => {
					if s.bool() {
						*off = s.range(1, (1 << *block) - 1);
					} else {
						*var = (*var + 1) % 3;
					}
				}
				Def::Packed { inner, .. } => {
					let l = like(sys, *inner, true).into_iter().filter(|d| *d < c).collect::<Vec<_>>();
					if !l.is_empty() {
						*inner = *s.pick(&l);
					}
				}
				Def::Lin { off, inner } => {
					if inner.is_empty() || s.bool() {
						*off ^= 1;
					} else {
						let j = s.index(inner.len());
						inner[j].1 ^= 1;
					}
				}
				Def::Proj { bits, .. } => {
					let j = s.index(bits.len());
					bits[j] ^= true;
				}
				Def::ZeroPad { npad, nz, .. } => *nz = s.index(1 << *npad),
				Def::Comp { ex, inner } => {
					let mut e = ex.clone();
					let ok = if s.bool() { tweak(s, &mut e, level) } else { swap_var(s, &mut e, inner.len()) };
					*ex = if ok { e } else { Ex::Add(Box::new(e), Box::new(Ex::Const(1))) };
				}
			}
			let _ = n;
			sys.cols[c].def = def;
		}
	}
	kind
}

/// The proof of another system of the same shape, under this system's digest: a prover that runs
/// the protocol for weaker or different requirements.
fn other_system(s: &mut Src) -> Res {
	let c = cfg(s);
	let c = Cfg { exps: true, ..c };
	let mut sys = generate(s, &c);
	if s.chance(1, 3) {
		// a spare column of every exponentiation result's shape
		for x in sys.exps.clone() {
			let mut col = sys.cols[x.result].clone();
			col.def = Def::Committed;
			let m = refm::mask(col.level);
			let mut b = s.bulk();
			for v in col.vals.iter_mut() {
				*v = b.u128() & m;
			}
			sys.cols.push(col);
		}
	}
	let p = sound_params(s);
	let mut bad = sys.clone();
	let kind = mutate(s, &mut bad);
	// the statement that is verified, over what the prover commits to
	let mut t = bad.clone();
	for c in 0..t.cols.len() {
		if let Some(v) = t.expected(c) {
			t.cols[c].vals = v;
		}
	}
	let why = match no_panic(|| t.verdict()) {
		Ok(Err(e)) => e,
		_ => {
			s.discard();
			return Ok(());
		}
	};
	let Ok(ccs2) = no_panic(|| bad.compile()) else {
		s.discard();
		return Ok(());
	};
	s.desc(format!("{} // {kind}: {why}", bad.desc()));
	let ccs = sys.compile();
	let dg = digest(&ccs2);
	let Some(proof) = attempt(&ccs, p, &dg, &sys) else {
		return Err("prover failed on an honest witness".into());
	};
	s.label(kind);
	s.nontrivial();
	rejected(&ccs2, p, &dg, &bad.bounds(), proof, &format!("{kind}: {why}"))
}

/// An honest proof changed in transit, or replayed under another digest or parameters.
fn tamper(s: &mut Src) -> Res {
	let c = cfg(s);
	let sys = generate(s, &c);
	let p = sound_params(s);
	// A system that requires nothing has proofs with nothing to check.
	if !sys.csets.iter().any(|c| sys.tables[c.table].size > 0)
		&& !sys.flushes.iter().any(|f| sys.tables[f.table].size > 0)
		&& !sys.exps.iter().any(|x| sys.live(x.result))
		&& !sys.nonzero.iter().any(|c| sys.live(*c))
	{
		s.discard();
		return Ok(());
	}
	let ccs = sys.compile();
	let mut dg = digest(&ccs);
	let b = sys.bounds();
	let proof = attempt(&ccs, p, &dg, &sys).ok_or("honest prover failed")?;
	let rounds = 12;
	let used = sys.used();
	let varied = used.iter().any(|&c| {
		let v = &sys.cols[c].vals;
		matches!(sys.cols[c].def, Def::Committed) && sys.live(c) && v.iter().any(|x| *x != v[0])
	});
	s.desc(format!("{}, proof of {} bytes", sys.desc(), proof.len()));
	for _ in 0..rounds {
		let mut q = proof.clone();
		let what = match s.weighted(&[8, 2, 2, 2, 1]) {
			0 => {
				// a bit; early bytes carry the messages, late ones the openings
				let i = match s.weighted(&[2, 2, 1]) {
					0 => s.index(q.len()),
					1 => s.index(q.len().min(2048)),
					_ => q.len() - 1 - s.index(q.len().min(512)),
				};
				q[i] ^= 1 << s.index(8);
				format!("bit flipped in byte {i}")
			}
			1 => {
				let k = s.range(1, 33.min(q.len()));
				q.truncate(q.len() - k);
				format!("{k} bytes cut off")
			}
			2 => {
				let k = s.range(1, 33);
				let tail = s.bytes(k);
				q.extend(tail);
				format!("{k} bytes appended")
			}
			3 => {
				let w = 16.min(q.len() / 2);
				let i = s.index(q.len() - w);
				let j = s.index(q.len() - w);
				let (x, y) = (q[i..i + w].to_vec(), q[j..j + w].to_vec());
				if x == y {
					continue;
				}
				q[i..i + w].copy_from_slice(&y);
				format!("bytes {i}.. overwritten with {j}..")
			}
			_ => {
				// With constant columns no message need depend on a challenge.
				if !varied {
					continue;
				}
				let i = s.index(32);
				dg[i] ^= 1 << s.index(8);
				let r = rejected(&ccs, p, &dg, &b, q, "another constraint system digest");
				dg = digest(&ccs);
				r?;
				continue;
			}
		};
		s.nontrivial();
		rejected(&ccs, p, &dg, &b, q, &what).map_err(|e| e.replace("a false statement", "an altered proof"))?;
	}
	Ok(())
}

fn main() {
	run(Prop {
		id: "C02",
		rule: "the verifier was run on a statement that the reference model calls false (or on an altered proof)",
		assumptions: &[
			"security parameter of 40 to 100 bits, so a false acceptance by chance is out of reach of the number of cases",
			"cheating provers are the real prover run on a wrong witness, on wrong boundaries or on another system of the same shape, and altered proofs",
			"all flushes and boundaries of a channel have one width",
		],
		subs: vec![
			Sub { name: "witness", quick: 8000, thorough: 120000, threads: 0, f: witness },
			Sub { name: "boundary", quick: 4000, thorough: 60000, threads: 0, f: boundary },
			Sub { name: "other_system", quick: 10000, thorough: 160000, threads: 0, f: other_system },
			Sub { name: "tamper", quick: 1200, thorough: 24000, threads: 0, f: tamper },
		],
	})
}
