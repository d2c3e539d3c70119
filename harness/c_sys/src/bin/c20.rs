//! Virtual columns: transparent polynomials against their definition, and the reduction of evaluation
//! claims on virtual columns to claims on committed ones.
use binius_core::{
	fiat_shamir::CanSample,
	oracle::{ConstraintPredicate, MultilinearOracleSet, MultilinearPolyVariant, OracleId, ShiftVariant, SizedConstraintSet},
	polynomial::MultivariatePoly,
	protocols::{
		evalcheck::{EvalcheckHint, EvalcheckMultilinearClaim, EvalcheckVerifier, serialize_evalcheck_proof},
		greedy_evalcheck,
	},
	transcript::{ProverTranscript, VerifierTranscript},
	transparent::{
		MultilinearExtensionTransparent, constant::Constant, disjoint_product::DisjointProduct, eq_ind::EqIndPartialEval, powers::Powers,
		select_row::SelectRow, shift_ind::ShiftIndPartialEval, step_down::StepDown, step_up::StepUp, tower_basis::TowerBasis,
	},
};
use binius_field::{arch::packed_128::*, arch::packed_256::*, arch::packed_512::*, as_packed_field::PackedType, *};
use binius_hal::make_portable_backend;
use binius_math::{IsomorphicEvaluationDomainFactory, MultilinearExtension};
use c_field::Fd;
use c_math::vals;
use c_sys::{
	Cfg, Def, Pk, Sys, Under,
	audit::{Ch, audit_with, eq_table, mle_at, offset},
	generate, refm,
};
use vp::*;

type B128 = BinaryField128b;
type B1 = BinaryField1b;

fn b(x: u128) -> B128 {
	B128::new(x)
}

// ------------------------------------------------------------------------------------------------

/// `p` must have the values `want` on the cube, and evaluate to their multilinear extension elsewhere.
fn poly(s: &mut Src, p: &dyn MultivariatePoly<B128>, want: &[B128], level: usize) -> Res {
	let n = want.len().trailing_zeros() as usize;
	ck_eq!(p.n_vars(), n, "number of variables");
	ck!(p.binary_tower_level() >= level, "tower level {} below that of the values, {level}", p.binary_tower_level());
	ck!(p.degree() <= n, "degree {}", p.degree());
	for _ in 0..3 {
		let q: Vec<B128> = (0..n).map(|_| Fd::draw(s)).collect();
		ck_eq!(p.evaluate(&q).map_err(|e| e.to_string())?, mle_at(want, &q), "value at a point");
	}
	let i = s.index(want.len());
	let q: Vec<B128> = (0..n).map(|j| b((i >> j & 1) as u128)).collect();
	ck_eq!(p.evaluate(&q).map_err(|e| e.to_string())?, want[i], "value at row {i}");
	let k = if n > 0 && s.bool() { n - 1 } else { n + 1 };
	let q: Vec<B128> = (0..k).map(|_| Fd::draw(s)).collect();
	ck!(no_panic(|| p.evaluate(&q).is_err())?, "a query of the wrong length is accepted");
	Ok(())
}
/// A materialised multilinear must hold exactly `want`.
fn cube<P: PackedField, D: std::ops::Deref<Target = [P]>>(m: MultilinearExtension<P, D>, want: &[B128]) -> Res
where
	B128: ExtensionField<P::Scalar>,
{
	ck_eq!(1usize << m.n_vars(), want.len(), "size of the multilinear");
	for (i, w) in want.iter().enumerate() {
		ck_eq!(B128::from(m.evaluate_on_hypercube(i).map_err(|e| e.to_string())?), *w, "row {i} of the multilinear");
	}
	Ok(())
}
macro_rules! cubes {
	($s:ident, $want:expr, $f:expr, [$($p:ty),*]) => {{
		let k = $s.index([$(stringify!($p)),*].len());
		let mut i = 0;
		$( if i == k { $s.desc(format!("{}", stringify!($p))); let m: Result<MultilinearExtension<$p>, _> = $f; cube(m.map_err(|e| e.to_string())?, &$want)?; } i += 1; )*
		let _ = i;
	}};
}

fn transparent(s: &mut Src) -> Res {
	let big = s.chance(1, 24);
	let n = if big { s.range(10, 13) } else { s.range(0, 8) };
	let len = 1usize << n;
	let kind = s.index(9);
	s.nontrivial_if(n > 1);
	s.label_if(big, "more than a thousand rows");
	let index = |s: &mut Src| match s.index(4) {
		0 => 0,
		1 => len,
		2 => len - 1,
		_ => s.range(0, len),
	};
	match kind {
		0 => {
			let l = *s.pick(&[0usize, 3, 4, 5, 6, 7]);
			let v = s.special_u128() & refm::mask(l);
			s.desc(format!("constant {v:x} over {n} variables"));
			let x = vec![b(v); len];
			match l {
				0 => poly(s, &Constant::<B128>::new(n, B1::of(v)), &x, refm::min_level(v)),
				3 => poly(s, &Constant::<B128>::new(n, BinaryField8b::of(v)), &x, refm::min_level(v)),
				4 => poly(s, &Constant::<B128>::new(n, BinaryField16b::of(v)), &x, refm::min_level(v)),
				5 => poly(s, &Constant::<B128>::new(n, BinaryField32b::of(v)), &x, refm::min_level(v)),
				6 => poly(s, &Constant::<B128>::new(n, BinaryField64b::of(v)), &x, refm::min_level(v)),
				_ => poly(s, &Constant::<B128>::new(n, b(v)), &x, refm::min_level(v)),
			}
		}
		1 => {
			let g = b(s.special_u128());
			s.desc(format!("powers of {:x} over {n} variables", g.val()));
			let mut x = vec![B128::ONE];
			while x.len() < len {
				x.push(*x.last().unwrap() * g);
			}
			let p = Powers::new(n, g);
			poly(s, &p, &x, 0)?;
			cubes!(s, x, p.multilinear_extension(), [B128, PackedBinaryField1x128b, PackedBinaryField2x128b, PackedBinaryField4x128b]);
			Ok(())
		}
		2 => {
			let k = s.index(len);
			s.desc(format!("row {k} of {n} variables"));
			let p = SelectRow::new(n, k).map_err(|e| e.to_string())?;
			let x: Vec<B128> = (0..len).map(|i| b((i == k) as u128)).collect();
			poly(s, &p, &x, 0)?;
			if n >= 7 {
				cubes!(s, x, p.multilinear_extension(), [B1, PackedBinaryField128x1b]);
			}
			if n >= 9 {
				cubes!(s, x, p.multilinear_extension(), [PackedBinaryField256x1b, PackedBinaryField512x1b]);
			}
			ck!(SelectRow::new(n, len + s.index(2)).is_err(), "row past the end accepted");
			Ok(())
		}
		3 => {
			let k = index(s);
			s.desc(format!("step down at {k} of {n} variables"));
			let p = StepDown::new(n, k).map_err(|e| e.to_string())?;
			let x: Vec<B128> = (0..len).map(|i| b((i < k) as u128)).collect();
			poly(s, &p, &x, 0)?;
			cubes!(s, x, p.multilinear_extension(), [B1, PackedBinaryField128x1b, PackedBinaryField512x1b, PackedBinaryField16x8b, PackedBinaryField2x128b]);
			ck!(StepDown::new(n, len + 1 + s.index(2)).is_err(), "step past the end accepted");
			Ok(())
		}
		4 => {
			let k = index(s);
			s.desc(format!("step up at {k} of {n} variables"));
			let p = StepUp::new(n, k).map_err(|e| e.to_string())?;
			let x: Vec<B128> = (0..len).map(|i| b((i >= k) as u128)).collect();
			poly(s, &p, &x, 0)?;
			cubes!(s, x, p.multilinear_extension(), [B1, PackedBinaryField128x1b, PackedBinaryField512x1b, PackedBinaryField16x8b, PackedBinaryField2x128b]);
			ck!(StepUp::new(n, len + 1 + s.index(2)).is_err(), "step past the end accepted");
			Ok(())
		}
		5 => {
			let k = s.range(0, 7);
			let iota = s.range(0, 7 - k);
			s.desc(format!("tower basis of 2^{k} elements over level {iota}"));
			let p = TowerBasis::<B128>::new(k, iota).map_err(|e| e.to_string())?;
			let x: Vec<B128> = (0..1usize << k).map(|i| b(1 << (i << iota))).collect();
			poly(s, &p, &x, 0)?;
			cubes!(s, x, p.multilinear_extension(), [B128, PackedBinaryField2x128b, PackedBinaryField4x128b]);
			ck!(TowerBasis::<B128>::new(k, 8 - k).is_err(), "basis of a field beyond the top accepted");
			Ok(())
		}
		6 => {
			let r: Vec<B128> = (0..n).map(|_| Fd::draw(s)).collect();
			s.desc(format!("equality indicator of {n} variables"));
			let x = eq_table(&r);
			let p = EqIndPartialEval::new(r);
			poly(s, &p, &x, 0)?;
			let be = make_portable_backend();
			if s.bool() {
				cube(p.multilinear_extension::<PackedBinaryField1x128b, _>(&be).map_err(|e| e.to_string())?, &x)
			} else {
				cube(p.multilinear_extension::<PackedBinaryField4x128b, _>(&be).map_err(|e| e.to_string())?, &x)
			}
		}
		7 => {
			let n = n.max(1);
			let len = 1usize << n;
			let var = *s.pick(&[ShiftVariant::CircularLeft, ShiftVariant::LogicalLeft, ShiftVariant::LogicalRight]);
			let off = match s.index(4) {
				0 => 1,
				1 => len - 1,
				2 => 1 << s.index(n),
				_ => s.range(1, len - 1),
			};
			let r: Vec<B128> = (0..n).map(|_| Fd::draw(s)).collect();
			s.desc(format!("{var:?} by {off} in blocks of 2^{n}"));
			let e = eq_table(&r);
			let x: Vec<B128> = (0..len)
				.map(|i| match var {
					ShiftVariant::CircularLeft => e[(i + off) % len],
					ShiftVariant::LogicalLeft => e.get(i + off).copied().unwrap_or(B128::ZERO),
					ShiftVariant::LogicalRight => i.checked_sub(off).map_or(B128::ZERO, |j| e[j]),
				})
				.collect();
			let p = ShiftIndPartialEval::new(n, off, var, r.clone()).map_err(|e| e.to_string())?;
			poly(s, &p, &x, 0)?;
			cubes!(s, x, p.multilinear_extension(), [B128, PackedBinaryField1x128b, PackedBinaryField2x128b, PackedBinaryField4x128b]);
			let bad = if s.bool() { 0 } else { len + s.index(2) };
			ck!(ShiftIndPartialEval::new(n, bad, var, r).is_err(), "offset {bad} accepted");
			Ok(())
		}
		_ => {
			let n = n.min(8);
			let m = s.range(0, n);
			let k = s.index(1 << (n - m));
			let l = *s.pick(&[0usize, 3, 5, 7]);
			let x: Vec<B128> = vals::<B128>(s, 1 << m).into_iter().map(|x| b(x.val() & refm::mask(l))).collect();
			s.desc(format!("2^{m} values of level {l} times row {k} of {} variables", n - m));
			use binius_field::arch::OptimalUnderlier as U;
			macro_rules! go {
				($f:ty) => {{
					let raw: Vec<u128> = x.iter().map(|x| x.val()).collect();
					MultilinearExtensionTransparent::<PackedType<U, $f>, PackedType<U, B128>>::from_values_and_mu(c_sys::pack::<U, $f>(&raw, m), m).map_err(|e| e.to_string())?
				}};
			}
			let t = SelectRow::new(n - m, k).map_err(|e| e.to_string())?;
			let w: Vec<B128> = (0..1usize << n).map(|i| if i >> m == k { x[i & ((1 << m) - 1)] } else { B128::ZERO }).collect();
			macro_rules! both {
				($f:ty) => {{
					poly(s, &go!($f), &x, 0)?;
					poly(s, &DisjointProduct(go!($f), t), &w, 0)
				}};
			}
			match l {
				0 => both!(B1),
				3 => both!(BinaryField8b),
				5 => both!(BinaryField32b),
				_ => both!(B128),
			}
		}
	}
}

// ------------------------------------------------------------------------------------------------

/// A system reduced to its columns, and claims on some of them (column and point).
fn system_with_claims(s: &mut Src) -> (Sys, Vec<(usize, Vec<B128>)>) {
	let mut cfg = Cfg::small();
	cfg.exps = false;
	cfg.empty = false;
	cfg.virtuals = if s.thorough { 10 } else { 6 };
	let mut sys: Sys = generate(s, &cfg);
	sys.flushes.clear();
	sys.csets.clear();
	sys.boundaries.clear();
	sys.nonzero.clear();
	let n_cols = sys.cols.len();
	// claims, some of them at points that share coordinates
	let coords: Vec<B128> = (0..sys.cols.iter().map(|c| c.n).max().unwrap()).map(|_| Fd::draw(s)).collect();
	let k = s.range(1, 6);
	let mut claims: Vec<(usize, Vec<B128>)> = vec![];
	for _ in 0..k {
		let virt: Vec<usize> = (0..n_cols).filter(|c| !matches!(sys.cols[*c].def, Def::Committed)).collect();
		let c = match s.index(4) {
			0 => s.index(n_cols),
			1 | 2 if !virt.is_empty() => *s.pick(&virt),
			_ => *virt.last().unwrap_or(&0),
		};
		let n = sys.cols[c].n;
		let p = match s.index(4) {
			0 => coords[..n].to_vec(),
			1 => coords[coords.len() - n..].to_vec(),
			2 => {
				let j = s.range(0, n);
				(0..n).map(|i| if i < j { coords[i] } else { Fd::draw(s) }).collect()
			}
			_ => (0..n).map(|_| Fd::draw(s)).collect(),
		};
		claims.push((c, p));
		if s.chance(1, 8) {
			let again = claims[s.index(claims.len())].clone();
			claims.push(again);
		}
	}
	(sys, claims)
}

fn reduce<U: Under>(s: &mut Src) -> Res
where
	PackedType<U, B128>: Pk<U> + PackedExtension<BinaryField8b>,
{
	let (sys, claims) = system_with_claims(s);
	let n_cols = sys.cols.len();
	let col = |c: usize| -> Vec<B128> { sys.cols[c].vals.iter().map(|v| b(*v)).collect() };
	let mut evals: Vec<B128> = claims.iter().map(|(c, p)| mle_at(&col(*c), p)).collect();
	let honest = s.chance(1, 2);
	let mut shown = sys.clone();
	if !honest {
		let i = s.index(claims.len());
		let (c, p) = claims[i].clone();
		if s.bool() || matches!(sys.cols[c].def, Def::Committed) {
			evals[i] += offset(s);
		} else {
			// the prover believes in other values of the column
			let r = s.index(sys.cols[c].vals.len());
			let d = (s.special_u128() & refm::mask(sys.cols[c].level)).max(1);
			shown.cols[c].vals[r] ^= d;
			let e = mle_at(&shown.cols[c].vals.iter().map(|v| b(*v)).collect::<Vec<_>>(), &p);
			if e == evals[i] {
				s.discard();
				return Ok(());
			}
			evals[i] = e;
			s.label("prover with altered virtual column");
		}
	}
	let virt = claims.iter().filter(|(c, _)| !matches!(sys.cols[*c].def, Def::Committed)).count();
	s.nontrivial_if(virt > 0);
	s.desc(format!(
		"{} claims on {:?} honest {honest}: {}",
		std::any::type_name::<U>().rsplit(':').next().unwrap(),
		claims.iter().map(|(c, _)| format!("c{c} {}", sys.cols[*c].kind())).collect::<Vec<_>>(),
		format!("at {:x?}: {}", claims.iter().map(|(_, p)| p.iter().map(|x| x.val()).collect::<Vec<_>>()).collect::<Vec<_>>(), sys.desc())
	));
	for (c, _) in &claims {
		s.label(format!("claim on {}", sys.cols[*c].kind()));
	}
	let sym = sys.compile();
	let oracles = || sym.oracles.instantiate(&sys.sizes()).map_err(|e| format!("oracles refused: {e}"));
	let list: Vec<EvalcheckMultilinearClaim<B128>> = claims
		.iter()
		.zip(&evals)
		.map(|((c, p), e)| EvalcheckMultilinearClaim { id: OracleId::from_index(*c), eval_point: p.clone().into(), eval: *e })
		.collect();
	let pre = s.u64();
	let mut t = ProverTranscript::<Ch>::new();
	t.observe().write_bytes(&pre.to_le_bytes());
	let sw = s.index(4);
	type Left = Vec<(usize, Vec<B128>, B128)>;
	let left = |v: Vec<EvalcheckMultilinearClaim<B128>>| -> Left { v.into_iter().map(|c| (c.id.index(), c.eval_point.to_vec(), c.eval)).collect() };
	let truth = |l: &Left| {
		l.iter().all(|(c, p, e)| *c < n_cols && matches!(sys.cols[*c].def, Def::Committed) && p.len() == sys.cols[*c].n && mle_at(&col(*c), p) == *e)
	};
	let mut set = oracles()?;
	let proved = no_panic(|| {
		let mut ix = shown.index::<U>();
		greedy_evalcheck::prove::<_, _, BinaryField8b, _, _>(
			&mut set,
			&mut ix,
			list.clone(),
			move |_| sw,
			&mut t,
			IsomorphicEvaluationDomainFactory::<BinaryField8b>::default(),
			&make_portable_backend(),
		)
		.map(|o| o.eval_claims)
		.map_err(|e| e.to_string())
	});
	match proved {
		Ok(Ok(c)) => {
			if honest {
				ck!(truth(&left(c)), "prover's own output is false");
			}
		}
		Ok(Err(e)) if honest => return Err(format!("prover failed: {e}")),
		Err(p) if honest => return Err(format!("prover panicked: {p}")),
		_ => return Ok(()),
	}
	let next = t.sample();
	let tape = t.finalize();
	audit_with(s, &tape, honest, false, true, next, &truth, &|v: &mut VerifierTranscript<Ch>| {
		v.observe().write_bytes(&pre.to_le_bytes());
		let mut set = oracles()?;
		greedy_evalcheck::verify(&mut set, list.clone(), v).map(left).map_err(|e| e.to_string())
	})
}

fn claims(s: &mut Src) -> Res {
	use binius_field::arch::{OptimalUnderlier128b, OptimalUnderlier256b, OptimalUnderlier512b};
	match s.index(3) {
		0 => reduce::<OptimalUnderlier128b>(s),
		1 => reduce::<OptimalUnderlier256b>(s),
		_ => reduce::<OptimalUnderlier512b>(s),
	}
}

/// The values of a polynomial of the oracle set over the cube.
fn oracle_vals(sys: &Sys, set: &MultilinearOracleSet<B128>, id: usize) -> Vec<B128> {
	if let Some(c) = sys.cols.get(id) {
		return c.vals.iter().map(|v| b(*v)).collect();
	}
	let o = &set[OracleId::from_index(id)];
	match &o.variant {
		MultilinearPolyVariant::Transparent(t) => {
			let n = t.poly().n_vars();
			(0..1usize << n)
				.map(|i| t.poly().evaluate(&(0..n).map(|j| if i >> j & 1 == 1 { B128::ONE } else { B128::ZERO }).collect::<Vec<_>>()).expect("number of variables"))
				.collect()
		}
		MultilinearPolyVariant::Projected(p) => {
			let inner = oracle_vals(sys, set, p.id().index());
			let lo = 1usize << p.start_index();
			let eq = eq_table(p.values());
			let hi = inner.len() / lo / eq.len();
			let mut out = vec![B128::ZERO; lo * hi];
			for (i, v) in inner.iter().enumerate() {
				out[i % lo + i / lo / eq.len() * lo] += *v * eq[i / lo % eq.len()];
			}
			out
		}
		other => panic!("unexpected polynomial {other:?}"),
	}
}

/// A dishonest prover of evaluation claims: it walks the claims as the verifier does and writes whatever keeps the
/// verifier's equations true.
struct Cheat<'a> {
	sys: &'a Sys,
	set: &'a MultilinearOracleSet<B128>,
	seen: Vec<(usize, Vec<B128>, B128)>,
	points: Vec<Vec<B128>>,
	tape: Vec<u8>,
	lied: usize,
	dups: usize,
}
impl Cheat<'_> {
	fn truth(&self, id: usize, p: &[B128]) -> B128 {
		mle_at(&oracle_vals(self.sys, self.set, id), p)
	}
	fn write(&mut self, f: impl FnOnce(&mut ProverTranscript<Ch>)) {
		let mut t = ProverTranscript::<Ch>::new();
		f(&mut t);
		self.tape.extend(t.finalize());
	}
	fn hint(&mut self, h: EvalcheckHint) {
		self.write(|t| serialize_evalcheck_proof(&mut t.message(), &h));
	}
	fn leaf(&mut self, s: &mut Src, id: usize, p: &[B128], want: Option<B128>) -> B128 {
		let t = self.truth(id, p);
		let e = want.unwrap_or_else(|| if s.chance(1, 6) { t + offset(s) } else { t });
		self.lied += usize::from(e != t);
		e
	}
	/// Some claim already made that could stand for this one.
	fn earlier(&self, s: &mut Src, id: usize, p: &[B128], want: Option<B128>) -> Option<usize> {
		let alike: Vec<usize> = (0..self.seen.len())
			.filter(|i| {
				let (a, q, e) = &self.seen[*i];
				want.is_none_or(|w| w == *e) && (*a == id || q == p) && (want.is_some() || *a != id || q != p || s.bool())
			})
			.collect();
		if alike.is_empty() { None } else { Some(*s.pick(&alike)) }
	}
	/// A claim the verifier knows in full; returns the evaluation the tape implies.
	fn child(&mut self, s: &mut Src, id: usize, p: &[B128], want: Option<B128>) -> B128 {
		if s.chance(1, 3) {
			if let Some(i) = self.earlier(s, id, p, want) {
				self.dups += 1;
				self.hint(EvalcheckHint::DuplicateClaim(i as u32));
				let (a, q, e) = &self.seen[i];
				self.lied += usize::from(*a != id || q != p);
				return *e;
			}
		}
		self.hint(EvalcheckHint::NewClaim);
		self.node(s, id, p, want)
	}
	/// A claim whose evaluation the prover sends.
	fn sub(&mut self, s: &mut Src, id: usize, p: &[B128], want: Option<B128>) -> B128 {
		if s.chance(1, 2) {
			if let Some(i) = self.earlier(s, id, p, want) {
				self.dups += 1;
				self.hint(EvalcheckHint::DuplicateClaim(i as u32));
				let (a, q, e) = &self.seen[i];
				self.lied += usize::from(*a != id || q != p);
				return *e;
			}
		}
		self.hint(EvalcheckHint::NewClaim);
		let at = self.tape.len();
		let e = self.node(s, id, p, want);
		let rest = self.tape.split_off(at);
		self.write(|t| t.message().write_scalar(e));
		self.tape.extend(rest);
		e
	}
	fn node(&mut self, s: &mut Src, id: usize, p: &[B128], want: Option<B128>) -> B128 {
		let my = self.seen.len();
		self.seen.push((id, p.to_vec(), want.unwrap_or(B128::ZERO)));
		let set = self.set;
		let o = &set[OracleId::from_index(id)];
		let e = match &o.variant {
			MultilinearPolyVariant::Committed | MultilinearPolyVariant::Shifted(_) | MultilinearPolyVariant::Packed(_) => self.leaf(s, id, p, want),
			MultilinearPolyVariant::Transparent(_) | MultilinearPolyVariant::Structured(_) => self.leaf(s, id, p, want),
			MultilinearPolyVariant::Repeating { id, log_count } => self.child(s, id.index(), &p[..p.len() - log_count], want),
			MultilinearPolyVariant::Projected(q) => {
				let (lo, hi) = p.split_at(q.start_index());
				self.child(s, q.id().index(), &[lo, q.values(), hi].concat(), want)
			}
			MultilinearPolyVariant::ZeroPadded(z) => {
				let (a, m) = (z.start_index(), z.n_pad_vars());
				let term = eq_table(&p[a..a + m])[z.nonzero_index()];
				if term == B128::ZERO {
					self.leaf(s, id, p, want)
				} else {
					let inv = term.invert_or_zero();
					self.child(s, z.id().index(), &[&p[..a], &p[a + m..]].concat(), want.map(|w| w * inv)) * term
				}
			}
			MultilinearPolyVariant::Composite(_) => {
				let k = self.points.iter().position(|q| q == p);
				let k = match k {
					Some(k) if s.chance(3, 4) => k,
					_ if !self.points.is_empty() && s.chance(1, 3) => s.index(self.points.len()),
					_ => self.points.len(),
				};
				if k == self.points.len() {
					self.points.push(p.to_vec());
				}
				self.write(|t| t.message().write(&(k as u32)));
				// a position that belongs to another point: the true evaluation there
				self.lied += usize::from(self.points[k] != p);
				if self.points[k] != p && want.is_none() && self.points[k].len() == p.len() {
					self.truth(id, &self.points[k].clone())
				} else {
					self.leaf(s, id, p, want)
				}
			}
			MultilinearPolyVariant::LinearCombination(l) => {
				let polys: Vec<usize> = l.polys().map(|i| i.index()).collect();
				let coeffs: Vec<B128> = l.coefficients().collect();
				let solve = (0..polys.len()).rev().find(|i| coeffs[*i] != B128::ZERO);
				let mut sum = l.offset();
				for (i, c) in polys.iter().enumerate() {
					let w = match want {
						Some(w) if solve == Some(i) => Some((w - sum) * coeffs[i].invert_or_zero()),
						_ => None,
					};
					sum += self.sub(s, *c, p, w) * coeffs[i];
				}
				sum
			}
		};
		self.seen[my].2 = e;
		e
	}
}

fn cheats(s: &mut Src) -> Res {
	let (sys, claims) = system_with_claims(s);
	let n_cols = sys.cols.len();
	let sym = sys.compile();
	let set = sym.oracles.instantiate(&sys.sizes()).map_err(|e| format!("oracles refused: {e}"))?;
	let col = |c: usize| -> Vec<B128> { sys.cols[c].vals.iter().map(|v| b(*v)).collect() };
	let truths: Vec<B128> = claims.iter().map(|(c, p)| mle_at(&col(*c), p)).collect();
	let mut ch = Cheat { sys: &sys, set: &set, seen: vec![], points: vec![], tape: vec![], lied: 0, dups: 0 };
	let mut list = vec![];
	for ((c, p), t) in claims.iter().zip(&truths) {
		let want = match s.index(4) {
			0 => Some(*t),
			1 => Some(*t + offset(s)),
			_ => None,
		};
		let e = ch.child(s, *c, p, want);
		list.push(EvalcheckMultilinearClaim { id: OracleId::from_index(*c), eval_point: p.clone().into(), eval: want.unwrap_or(e) });
	}
	let Cheat { tape, lied, dups, .. } = ch;
	let any_false = list.iter().zip(&truths).any(|(l, t)| l.eval != *t);
	s.nontrivial_if(any_false && dups > 0);
	s.desc(format!(
		"claims {:?} false {:?} lies {lied} duplicates {dups}: {}",
		claims.iter().map(|(c, _)| format!("c{c} {}", sys.cols[*c].kind())).collect::<Vec<_>>(),
		list.iter().zip(&truths).map(|(l, t)| l.eval != *t).collect::<Vec<_>>(),
		sys.desc()
	));
	let mut vset = set.clone();
	let got = no_panic(|| -> Result<bool, String> {
		let mut v = VerifierTranscript::<Ch>::new(tape);
		let (committed, sums, mles) = {
			let mut ev = EvalcheckVerifier::<B128>::new(&mut vset);
			ev.verify(list.clone(), &mut v).map_err(|e| e.to_string())?;
			v.finalize().map_err(|e| e.to_string())?;
			(
				ev.committed_eval_claims().clone(),
				ev.take_new_sumcheck_constraints().map_err(|e| e.to_string())?,
				ev.take_new_mlechecks_constraints().map_err(|e| e.to_string())?,
			)
		};
		// is everything that is left to show true?
		let mut all = committed.iter().all(|c| {
			let i = c.id.index();
			i < n_cols && matches!(sys.cols[i].def, Def::Committed) && c.eval_point.len() == sys.cols[i].n && mle_at(&col(i), &c.eval_point) == c.eval
		});
		let total = |set: &_, eq: Option<&[B128]>| -> bool {
			let set: &SizedConstraintSet<B128> = set;
			let vals: Vec<Vec<B128>> = set.oracle_ids.iter().map(|i| oracle_vals(&sys, &vset, i.index())).collect();
			let eq = eq.map(eq_table);
			set.constraints.iter().all(|c| {
				let mut sum = B128::ZERO;
				for x in 0..1usize << set.n_vars {
					let row: Vec<B128> = vals.iter().map(|v| v[x]).collect();
					let y = c.composition.evaluate(&row).expect("number of variables");
					sum += y * eq.as_ref().map_or(B128::ONE, |e| e[x]);
				}
				match c.predicate {
					ConstraintPredicate::Sum(w) => w == sum,
					ConstraintPredicate::Zero => sum == B128::ZERO,
				}
			})
		};
		for set in &sums {
			all &= total(set, None);
		}
		for (set, p) in mles.constraint_sets.iter().zip(&mles.eq_ind_challenges) {
			all &= p.len() == set.n_vars && total(set, Some(p));
		}
		Ok(all)
	});
	match got {
		Err(p) => Err(format!("verifier panicked: {p}")),
		Ok(Err(_)) => {
			s.label("rejected");
			ck!(lied > 0 || any_false, "an honest reduction was rejected");
			Ok(())
		}
		Ok(Ok(all)) => {
			s.label(format!("accepted, claims {} rest {}", if any_false { "false" } else { "true" }, if all { "true" } else { "false" }));
			ck!(!(any_false && all), "false claims, and all that is left to show is true");
			ck!(any_false || lied > 0 || all, "true claims honestly reduced to false ones");
			Ok(())
		}
	}
}

fn main() {
	run(Prop {
		id: "C20",
		rule: "some claim is on a virtual column, or the polynomial has at least two variables",
		assumptions: &[
			"scalar field arithmetic (C06), transcripts (C16)",
			"a false claim is accepted by chance with probability below 2^-100 per case",
			"constant composites and the other shapes the builder never produces are left out",
		],
		subs: vec![
			Sub { name: "transparent", quick: 30000, thorough: 3000000, threads: 0, f: transparent },
			Sub { name: "claims", quick: 40000, thorough: 300000, threads: 0, f: claims },
			Sub { name: "cheats", quick: 400000, thorough: 3000000, threads: 0, f: cheats },
		],
	});
}
