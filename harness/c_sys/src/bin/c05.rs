//! A proof is a function of the statement and the witness: not of the number of threads, the
//! packing width or the run.
use binius_field::arch::{OptimalUnderlier128b, OptimalUnderlier256b, OptimalUnderlier512b};
use c_sys::*;
use std::sync::OnceLock;

fn pool(k: usize) -> &'static rayon::ThreadPool {
	static P: OnceLock<Vec<rayon::ThreadPool>> = OnceLock::new();
	&P.get_or_init(|| {
		[1, 2, 3, 5]
			.iter()
			.map(|n| rayon::ThreadPoolBuilder::new().num_threads(*n).build().unwrap())
			.collect()
	})[k]
}

fn proof(sys: &Sys, ccs: &Ccs, p: Params, u: usize, threads: usize) -> Result<Vec<u8>, String> {
	let dg = digest(ccs);
	let b = sys.bounds();
	let z = sys.sizes();
	no_panic(|| {
		pool(threads).install(|| match u {
			0 => prove::<OptimalUnderlier128b>(ccs, p, &dg, &b, &z, sys.index::<OptimalUnderlier128b>()),
			1 => prove::<OptimalUnderlier256b>(ccs, p, &dg, &b, &z, sys.index::<OptimalUnderlier256b>()),
			_ => prove::<OptimalUnderlier512b>(ccs, p, &dg, &b, &z, sys.index::<OptimalUnderlier512b>()),
		})
	})
	.and_then(|r| r)
}

fn check(s: &mut Src, cfg: &Cfg) -> Res {
	let sys = generate(s, cfg);
	s.desc(sys.desc());
	let p = params(s);
	let ccs = sys.compile();
	let first = match proof(&sys, &ccs, p, 0, 0) {
		// beyond the memory this check gives the compute layer
		Err(e) if e.contains("OutOfMemory") => {
			s.discard();
			return Ok(());
		}
		r => r.map_err(|e| format!("prover refused an honest witness: {e}"))?,
	};
	verify(&ccs, p, &digest(&ccs), &sys.bounds(), first.clone())
		.map_err(|e| format!("verifier rejected an honest proof: {e}"))?;
	for _ in 0..2 {
		let u = if sys.committed_elems() < 4 { s.range(0, 1) } else { s.range(0, 2) };
		let t = s.range(0, 3);
		let again = proof(&sys, &ccs, p, u, t)
			.map_err(|e| format!("prover refused an honest witness (packing {}): {e}", 128 << u))?;
		if first != again {
			let at = first.iter().zip(&again).position(|(a, b)| a != b).unwrap_or(first.len().min(again.len()));
			return Err(format!(
				"proofs differ at byte {at} of {} (packing {}, {} threads)",
				first.len(),
				128 << u,
				[1, 2, 3, 5][t]
			));
		}
		s.label(format!("packing {}", 128 << u));
	}
	// and a fresh compilation gives the same digest
	ck_eq!(digest(&sys.compile()), digest(&ccs), "digest of the same system");
	s.nontrivial_if(interesting(&sys));
	Ok(())
}

fn small(s: &mut Src) -> Res {
	check(s, &Cfg::small())
}
fn medium(s: &mut Src) -> Res {
	check(s, &Cfg::medium())
}
fn large(s: &mut Src) -> Res {
	check(s, &Cfg { max_log: 7, max_lv: 7, ..Cfg::medium() })
}

fn main() {
	run(Prop {
		id: "C05",
		rule: "a generated system with at least one constraint, flush or exponentiation, proved three times under different thread counts and packing widths",
		assumptions: &["thread counts 1, 2, 3 and 5; packings of 128, 256 and 512 bits"],
		subs: vec![
			Sub { name: "small", quick: 1200, thorough: 30000, threads: 0, f: small },
			Sub { name: "medium", quick: 240, thorough: 10000, threads: 0, f: medium },
			Sub { name: "large", quick: 40, thorough: 1500, threads: 0, f: large },
		],
	})
}
