//! Interactive reductions: the verifier must end in true evaluation claims on honest proofs, and must
//! reject or end in a false one otherwise.
use binius_core::{
	fiat_shamir::{CanSample, HasherChallenger},
	transcript::VerifierTranscript,
};
use binius_field::{BinaryField128b as B128, Field};
use binius_hash::groestl::Groestl256;
use c_field::Fd;
use vp::*;

pub type Ch = HasherChallenger<Groestl256>;

pub fn eq_table(r: &[B128]) -> Vec<B128> {
	let mut out = vec![B128::ONE];
	for x in r {
		let hi: Vec<B128> = out.iter().map(|v| *v * *x).collect();
		out = out.iter().zip(&hi).map(|(a, b)| *a - *b).chain(hi.iter().copied()).collect();
	}
	out
}
pub fn mle_at(v: &[B128], p: &[B128]) -> B128 {
	let mut v = v.to_vec();
	assert_eq!(v.len(), 1 << p.len());
	for x in p {
		v = v.chunks(2).map(|q| q[0] + (q[1] - q[0]) * *x).collect();
	}
	v[0]
}

/// Runs a verifier over the honest tape and over altered tapes and false claims.
pub fn audit<L>(
	s: &mut Src,
	tape: &[u8],
	honest: bool,
	next: B128,
	truth: &dyn Fn(&L) -> bool,
	verify: &dyn Fn(&mut VerifierTranscript<Ch>) -> Result<L, String>,
) -> Res {
	audit_with(s, tape, honest, true, true, next, truth, verify)
}

/// As `audit`; unless `strict`, proofs of true claims may contain bytes that do not matter.
pub fn audit_with<L>(
	s: &mut Src,
	tape: &[u8],
	honest: bool,
	strict: bool,
	// also alter proofs of false claims (not when the proof itself carries what is false)
	alter: bool,
	// what the prover samples afterwards
	next: B128,
	truth: &dyn Fn(&L) -> bool,
	verify: &dyn Fn(&mut VerifierTranscript<Ch>) -> Result<L, String>,
) -> Res {
	let run = |t: &[u8]| {
		no_panic(|| {
			let mut v = VerifierTranscript::<Ch>::new(t.to_vec());
			let left = verify(&mut v)?;
			let c: B128 = v.sample();
			v.finalize().map_err(|e| e.to_string())?;
			Ok::<_, String>((left, c))
		})
	};
	let got = run(tape).map_err(|p| format!("verifier panicked: {p}"))?;
	if honest {
		let (left, c) = got.map_err(|e| format!("honest proof rejected: {e}"))?;
		ck!(truth(&left), "honest proof reduced to false evaluations");
		ck_eq!(c, next, "challenge after the protocol");
	} else if let Ok((left, _)) = got {
		ck!(!truth(&left), "false claim reduced to true evaluations");
		s.label("false claim reduced to false evaluations");
	} else {
		s.label("false claim rejected");
	}
	for _ in 0..if honest { 4 } else if alter { 2 } else { 0 } {
		let mut t = tape.to_vec();
		if t.is_empty() {
			break;
		}
		match s.index(6) {
			0 => {
				let n = s.index(t.len());
				t.truncate(n);
			}
			1 => {
				let k = s.index(t.len());
				t[k] = *s.pick(&[0, 1, 2, 3, 0xff]);
			}
			_ => {
				let k = s.index(t.len());
				t[k] ^= 1 << s.index(8);
			}
		}
		if t == tape {
			continue;
		}
		match run(&t) {
			Err(p) => return Err(format!("verifier panicked on an altered proof: {p}")),
			Ok(Ok((left, _))) => {
				if strict || !honest {
					ck!(!truth(&left), "altered proof accepted and reduced to true evaluations");
				}
				s.label("altered proof accepted");
			}
			Ok(Err(_)) => s.label("altered proof rejected"),
		}
	}
	Ok(())
}

/// A challenge of the equality indicator. The provers divide by one minus it, so the value one (met with
/// probability 2^-128 in a protocol) is left out.
pub fn challenge(s: &mut Src) -> B128 {
	let x: B128 = Fd::draw(s);
	if x == B128::ONE { B128::new(2) } else { x }
}
pub fn offset(s: &mut Src) -> B128 {
	B128::of(s.special_u128() | 1)
}

