//! Proofs made by different builds of the library are the same bytes.
//!
//! With VP_DUMP=file the hash of every proof is written down under the hash of its case; with
//! VP_COMPARE=file it is compared with what another build wrote. The driver (drivers/builds.py) runs both.
use binius_field::arch::{OptimalUnderlier128b, OptimalUnderlier256b};
use c_sys::*;
use std::{collections::HashMap, fs, io::Write, sync::{Mutex, OnceLock}};

fn hash(b: &[u8]) -> u64 {
	let w: Vec<u64> = b
		.chunks(8)
		.map(|c| {
			let mut x = [0; 8];
			x[..c.len()].copy_from_slice(c);
			u64::from_le_bytes(x)
		})
		.collect();
	hash_u64(&[hash_u64(&w), b.len() as u64])
}

fn reference() -> Option<&'static HashMap<u64, u64>> {
	static R: OnceLock<Option<HashMap<u64, u64>>> = OnceLock::new();
	R.get_or_init(|| {
		let f = std::env::var("VP_COMPARE").ok()?;
		let t = fs::read_to_string(f).expect("reference file");
		Some(
			t.lines()
				.filter_map(|l| l.split_once(' '))
				.map(|(a, b)| (a.parse().unwrap(), b.parse().unwrap()))
				.collect(),
		)
	})
	.as_ref()
}

fn record(key: u64, val: u64) {
	static F: OnceLock<Option<Mutex<fs::File>>> = OnceLock::new();
	let f = F.get_or_init(|| {
		let p = std::env::var("VP_DUMP").ok()?;
		Some(Mutex::new(fs::OpenOptions::new().create(true).append(true).open(p).expect("dump file")))
	});
	if let Some(f) = f {
		f.lock().unwrap().write_all(format!("{key} {val}\n").as_bytes()).expect("dump");
	}
}

fn check(s: &mut Src, cfg: &Cfg) -> Res {
	let sys = generate(s, cfg);
	s.desc(sys.desc());
	let p = params(s);
	let wide = s.bool() && sys.committed_elems() >= 2;
	let key = hash_u64(&s.choices);
	let ccs = sys.compile();
	let dg = digest(&ccs);
	let (b, z) = (sys.bounds(), sys.sizes());
	let r = no_panic(|| {
		if wide {
			prove::<OptimalUnderlier256b>(&ccs, p, &dg, &b, &z, sys.index::<OptimalUnderlier256b>())
		} else {
			prove::<OptimalUnderlier128b>(&ccs, p, &dg, &b, &z, sys.index::<OptimalUnderlier128b>())
		}
	})
	.and_then(|r| r);
	let proof = match r {
		Err(e) if e.contains("OutOfMemory") => {
			s.discard();
			return Ok(());
		}
		r => r.map_err(|e| format!("prover refused an honest witness: {e}"))?,
	};
	s.nontrivial_if(interesting(&sys));
	let val = hash(&proof);
	record(key, val);
	if let Some(want) = reference().and_then(|r| r.get(&key)) {
		s.label("compared");
		ck_eq!(val, *want, "the proof of the default build is another one: {}", sys.desc());
	}
	verify(&ccs, p, &dg, &b, proof).map_err(|e| format!("verifier rejected an honest proof: {e}"))
}

fn small(s: &mut Src) -> Res {
	check(s, &Cfg::small())
}
fn medium(s: &mut Src) -> Res {
	check(s, &Cfg::medium())
}

fn main() {
	run(Prop {
		id: "C28",
		rule: "a generated system with at least one constraint, flush or exponentiation",
		assumptions: &["the builds compared are those this machine can run"],
		subs: vec![
			Sub { name: "small", quick: 1500, thorough: 30000, threads: 0, f: small },
			Sub { name: "medium", quick: 500, thorough: 10000, threads: 0, f: medium },
		],
	})
}
