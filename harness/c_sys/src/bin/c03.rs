//! Witness validation against the reference model, in both directions.
use binius_core::constraint_system::validate::validate_witness;
use binius_field::arch::{OptimalUnderlier128b, OptimalUnderlier256b, OptimalUnderlier512b};
use c_sys::*;

fn validate(sys: &Sys, u: usize) -> Result<Result<(), String>, String> {
	let ccs = sys.compile();
	let b = sys.bounds();
	let t = sys.sizes();
	no_panic(|| {
		match u {
			0 => validate_witness(&ccs, &b, &t, &sys.index::<OptimalUnderlier128b>()),
			1 => validate_witness(&ccs, &b, &t, &sys.index::<OptimalUnderlier256b>()),
			_ => validate_witness(&ccs, &b, &t, &sys.index::<OptimalUnderlier512b>()),
		}
		.map_err(|e| e.to_string())
	})
}

fn agree(s: &mut Src, sys: &Sys, u: usize, what: &str) -> Res {
	// Exponentiation results are filled in by the prover, so validation takes them as they are.
	let want = sys.verdict_given_exps();
	match (validate(sys, u), &want) {
		(Ok(Ok(())), Ok(())) => s.label("accepted"),
		(Ok(Err(_)), Err(w)) => {
			let w: String = w.chars().filter(|c| !c.is_ascii_digit()).collect();
			s.label(format!("rejected: {w}"));
		}
		(Ok(Ok(())), Err(w)) => {
			return Err(format!("an invalid witness was accepted ({w}; {what})"));
		}
		(Ok(Err(e)), Ok(())) => {
			return Err(format!("a valid witness was refused ({e}; {what})"));
		}
		(Err(e), Ok(())) => return Err(format!("validation panicked on a valid witness ({e}; {what})")),
		(Err(e), Err(w)) => {
			return Err(format!("validation panicked on an invalid witness ({e}; {w}; {what})"));
		}
	}
	Ok(())
}

fn corrupt_cell(s: &mut Src, sys: &mut Sys) -> Option<String> {
	let live: Vec<usize> = (0..sys.cols.len()).filter(|c| sys.live(*c)).collect();
	if live.is_empty() {
		return None;
	}
	let c = *s.pick(&live);
	let len = sys.cols[c].vals.len();
	let i = match s.weighted(&[3, 1, 1]) {
		0 => s.index(len),
		1 => len - 1,
		_ => 0,
	};
	let bits = 1usize << sys.cols[c].level;
	let mask = if bits >= 128 { u128::MAX } else { (1 << bits) - 1 };
	let old = sys.cols[c].vals[i];
	let new = match s.weighted(&[2, 1, 1, 1]) {
		0 => old ^ 1u128 << s.index(bits),
		1 => 0,
		2 => s.special_u128() & mask,
		_ => {
			let j = s.index(len);
			sys.cols[c].vals[j]
		}
	};
	sys.cols[c].vals[i] = new;
	Some(format!("c{c} ({}) [{i}]: {old:#x} -> {new:#x}", sys.cols[c].kind()))
}

fn check(s: &mut Src, cfg: &Cfg) -> Res {
	let base = generate(s, cfg);
	s.desc(base.desc());
	let u = s.weighted(&[3, 2, 1]);
	agree(s, &base, u, "honest")?;
	for _ in 0..6 {
		let mut sys = base.clone();
		let mut what = String::new();
		for _ in 0..s.weighted(&[0, 6, 1]) {
			match s.weighted(&[6, 3, 2, 1, 1, 1]) {
				0 => {
					if let Some(w) = corrupt_cell(s, &mut sys) {
						what += &w;
					}
				}
				1 => {
					// the derived columns follow the corrupted one
					if let Some(w) = corrupt_cell(s, &mut sys) {
						what += &w;
						what += " (derived columns recomputed)";
						sys.recompute();
					}
				}
				2 => {
					if sys.boundaries.is_empty() {
						continue;
					}
					let k = s.index(sys.boundaries.len());
					let b = &mut sys.boundaries[k];
					match s.weighted(&[2, 2, 2]) {
						0 => {
							let j = s.index(b.values.len().max(1));
							if let Some(v) = b.values.get_mut(j) {
								*v ^= 1u128 << s.index(128);
							}
						}
						1 => b.mult = s.range(0, 4) as u64,
						_ => b.push = !b.push,
					}
					what += &format!("boundary {k} changed");
				}
				3 => {
					if sys.boundaries.is_empty() {
						continue;
					}
					let k = s.index(sys.boundaries.len());
					sys.boundaries.remove(k);
					what += &format!("boundary {k} dropped");
				}
				4 => {
					if sys.boundaries.is_empty() {
						continue;
					}
					let k = s.index(sys.boundaries.len());
					let b = sys.boundaries[k].clone();
					sys.boundaries.push(b);
					what += &format!("boundary {k} doubled");
				}
				_ => {
					if sys.flushes.is_empty() {
						continue;
					}
					let k = s.index(sys.flushes.len());
					sys.flushes[k].mult = sys.flushes[k].mult.wrapping_add(*s.pick(&[1, 1 << 32, 1 << 63, u64::MAX]));
					what += &format!("flush {k} repeated");
				}
			}
		}
		if what.is_empty() {
			continue;
		}
		s.nontrivial();
		agree(s, &sys, u, &what)?;
	}
	Ok(())
}

fn small(s: &mut Src) -> Res {
	check(s, &Cfg::small())
}
fn medium(s: &mut Src) -> Res {
	check(s, &Cfg::medium())
}

/// Boundaries on channels that do not exist are an error, never a panic.
fn range(s: &mut Src) -> Res {
	let mut sys = generate(s, &Cfg::small());
	let over = s.range(0, 3);
	if s.chance(1, 3) {
		sys.flushes.clear();
		sys.boundaries.clear();
		sys.channels = 0;
	}
	sys.boundaries.push(Bd {
		values: vec![s.special_u128()],
		channel: sys.channels + over,
		push: s.bool(),
		mult: s.range(1, 2) as u64,
	});
	s.desc(format!("{} channels, boundary on {}", sys.channels, sys.channels + over));
	s.nontrivial();
	match validate(&sys, 0) {
		Ok(Err(_)) => Ok(()),
		Ok(Ok(())) => Err("a boundary on a channel that does not exist was accepted".into()),
		Err(e) => Err(format!("a boundary on a channel that does not exist panicked: {e}")),
	}
}

fn main() {
	run(Prop {
		id: "C03",
		rule: "the generated witness, boundaries or flushes were altered after the system was made valid",
		assumptions: &[
			"exponentiation results are taken as given, because the prover computes them",
			"all flushes and boundaries of a channel have one width",
		],
		subs: vec![
			Sub { name: "small", quick: 20000, thorough: 400000, threads: 0, f: small },
			Sub { name: "medium", quick: 6000, thorough: 100000, threads: 0, f: medium },
			Sub { name: "range", quick: 2000, thorough: 20000, threads: 0, f: range },
		],
	})
}
