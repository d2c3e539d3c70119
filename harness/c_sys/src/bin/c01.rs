use binius_field::arch::{OptimalUnderlier128b, OptimalUnderlier256b, OptimalUnderlier512b};
use c_sys::*;

fn check(s: &mut Src, cfg: &Cfg) -> Res {
	let sys = generate(s, cfg);
	s.desc(sys.desc());
	if let Err(e) = sys.verdict() {
		panic!("generator produced an unsatisfied system: {e}");
	}
	let p = params(s);
	let ccs = sys.compile();
	let dg = digest(&ccs);
	let b = sys.bounds();
	// The prover requires the packed commitment to fill one packed element.
	let u = match sys.committed_elems() {
		0..=3 => s.weighted(&[3, 2]),
		_ => s.weighted(&[3, 2, 1]),
	};
	s.desc(format!("{p:?}, packing {}", 128 << u));
	let proof = match u {
		0 => prove::<OptimalUnderlier128b>(&ccs, p, &dg, &b, &sys.sizes(), sys.index::<OptimalUnderlier128b>()),
		1 => prove::<OptimalUnderlier256b>(&ccs, p, &dg, &b, &sys.sizes(), sys.index::<OptimalUnderlier256b>()),
		_ => prove::<OptimalUnderlier512b>(&ccs, p, &dg, &b, &sys.sizes(), sys.index::<OptimalUnderlier512b>()),
	}
	.map_err(|e| format!("prover refused an honest witness: {e}"))?;
	verify(&ccs, p, &dg, &b, proof).map_err(|e| format!("verifier rejected an honest proof: {e}"))?;
	s.nontrivial_if(interesting(&sys));
	Ok(())
}

fn small(s: &mut Src) -> Res {
	check(s, &Cfg::small())
}
fn medium(s: &mut Src) -> Res {
	check(s, &Cfg::medium())
}
fn large(s: &mut Src) -> Res {
	check(s, &Cfg { tables: 2, max_log: 10, max_lv: 4, ..Cfg::small() })
}
fn huge(s: &mut Src) -> Res {
	check(s, &Cfg { tables: 1, max_log: 13, max_lv: 3, virtuals: 2, ..Cfg::small() })
}

fn main() {
	run(Prop {
		id: "C01",
		rule: "a generated system with at least one constraint, flush or exponentiation, proved and verified",
		assumptions: &[
			"at least one table with a committed column is non-empty",
			"structured columns are multilinear expressions covering the table's index bits, as the builder requires",
			"table sizes up to 2^5 rows (2^10 and 2^13 in the subs large and huge), stacking up to 2^7 values per row",
		],
		subs: vec![
			Sub { name: "small", quick: 3000, thorough: 40000, threads: 0, f: small },
			Sub { name: "medium", quick: 1500, thorough: 20000, threads: 0, f: medium },
			// past the sizes at which the provers split their work into subcubes
			Sub { name: "large", quick: 120, thorough: 2000, threads: 0, f: large },
			Sub { name: "huge", quick: 24, thorough: 400, threads: 0, f: huge },
		],
	})
}
