//! Serialization: every value comes back equal, an encoding is self-delimiting, short input is an
//! error, and arbitrary bytes never panic.
use binius_core::{
	constraint_system::{
		ConstraintSystem,
		channel::{Boundary, FlushDirection},
	},
	oracle::{MultilinearOracleSet, SymbolicMultilinearPolyVariant},
	polynomial::MultivariatePoly,
	transparent::{
		MultilinearExtensionTransparent, constant::Constant, powers::Powers, select_row::SelectRow, step_down::StepDown,
		step_up::StepUp, tower_basis::TowerBasis,
	},
};
use binius_fast_compute::arith_circuit::ArithCircuitPoly;
use binius_field::{
	arch::{OptimalUnderlier128b, packed_256::*, packed_512::*},
	as_packed_field::PackedType,
	*,
};
use binius_macros::{DeserializeBytes, SerializeBytes};
use binius_math::{ArithCircuit, CompositionPoly};
use binius_utils::{DeserializeBytes, SerializationMode, SerializeBytes};
use bytes::Buf;
use c_field::Fd;
use c_sys::*;
use generic_array::GenericArray;
use std::fmt::Debug;

const MODES: [SerializationMode; 2] = [SerializationMode::Native, SerializationMode::CanonicalTower];

/// Encode in `mode`, decode with trailing bytes, truncate, and write into too small a buffer.
fn round<T: SerializeBytes + DeserializeBytes>(s: &mut Src, v: &T, what: &str, same: &dyn Fn(&T) -> Result<(), String>) -> Result<Vec<u8>, String> {
	let mode = *s.pick(&MODES);
	let mut b = vec![];
	v.serialize(&mut b, mode).map_err(|e| format!("{what}: serialize: {e}"))?;
	let trail = s.bytes(3);
	let mut ext = b.clone();
	ext.extend_from_slice(&trail);
	let mut rd = &ext[..];
	let back = no_panic(|| T::deserialize(&mut rd, mode))
		.map_err(|e| format!("{what}: {e}"))?
		.map_err(|e| format!("{what}: deserialize: {e}"))?;
	ck_eq!(rd.remaining(), 3, "{what}: bytes left after decoding {} bytes", b.len());
	same(&back).map_err(|e| format!("{what} ({mode:?}): {e}"))?;
	let mut again = vec![];
	back.serialize(&mut again, mode).map_err(|e| format!("{what}: second serialize: {e}"))?;
	// composites are optimised again when decoded, which need not be a fixpoint; what they compute is compared by `same`
	if !matches!(what, "ArithCircuitPoly" | "MultilinearOracleSet") {
		ck_eq!(again, b.clone(), "{what}: encoding of the decoded value");
	}
	if !b.is_empty() {
		let k = s.index(b.len());
		let r = no_panic(|| T::deserialize(&b[..k], mode).is_err()).map_err(|e| format!("{what}: first {k} of {} bytes: {e}", b.len()))?;
		ck!(r, "{what}: first {k} of {} bytes decode", b.len());
		let mut small = vec![0u8; s.index(b.len())];
		let r = no_panic(|| v.serialize(&mut small[..], mode).is_err()).map_err(|e| format!("{what}: small buffer: {e}"))?;
		ck!(r, "{what}: {} bytes written into {}", b.len(), small.len());
	}
	Ok(b)
}
fn eq<T: SerializeBytes + DeserializeBytes + PartialEq + Debug>(s: &mut Src, v: &T, what: &str) -> Res {
	round(s, v, what, &|b: &T| if b == v { Ok(()) } else { Err(format!("{b:?} is not {v:?}")) }).map(|_| ())
}
fn arbitrary<T: DeserializeBytes>(s: &mut Src, mut b: Vec<u8>, what: &str) -> Res {
	for _ in 0..s.range(1, 3) {
		match s.index(4) {
			0 if !b.is_empty() => {
				let i = s.index(b.len());
				b[i] ^= 1 << s.index(8);
			}
			1 if !b.is_empty() => {
				let i = s.index(b.len());
				b[i] = *s.pick(&[0, 1, 2, 3, 127, 128, 255]);
			}
			2 => {
				let i = s.range(0, b.len());
				b.truncate(i);
			}
			_ => {
				let i = s.range(0, b.len());
				let extra = s.bytes(4);
				b.splice(i..i, extra);
			}
		}
	}
	let mode = *s.pick(&MODES);
	no_panic(|| T::deserialize(&b[..], mode).is_ok()).map(|_| ()).map_err(|e| format!("{what}: altered bytes: {e}"))
}

#[derive(Debug, Clone, PartialEq, SerializeBytes, DeserializeBytes)]
struct Rec<F: TowerField> {
	a: u16,
	b: Option<Vec<F>>,
	c: (String, bool),
	d: Kind,
}
#[derive(Debug, Clone, PartialEq, SerializeBytes, DeserializeBytes)]
enum Kind {
	Unit,
	One(u64),
	Two(u8, Vec<u16>),
	Named { x: usize, y: Option<Box<u128>> },
}
#[derive(Debug, Clone, PartialEq, SerializeBytes, DeserializeBytes)]
struct Pair(u32, BinaryField32b);

fn kind(s: &mut Src, _depth: usize) -> Kind {
	match s.index(4) {
		0 => Kind::Unit,
		1 => Kind::One(s.special_u64()),
		2 => Kind::Two(s.index(256) as u8, (0..s.range(0, 3)).map(|_| s.special_u64() as u16).collect()),
		_ => Kind::Named { x: s.special_u64() as u32 as usize, y: if s.bool() { Some(Box::new(s.special_u128())) } else { None } },
	}
}
fn string(s: &mut Src) -> String {
	let n = s.range(0, 12);
	(0..n).map(|_| *s.pick(&['a', 'Z', ' ', '\0', 'é', '→', '𝔽', '\n'])).collect()
}
fn primitives(s: &mut Src) -> Res {
	s.nontrivial();
	let (a, b) = (s.special_u128(), s.special_u64());
	eq(s, &a, "u128")?;
	eq(s, &b, "u64")?;
	eq(s, &(b as u32), "u32")?;
	eq(s, &(b as u16), "u16")?;
	eq(s, &(b as u8), "u8")?;
	eq(s, &(b & 1 == 1), "bool")?;
	let u = b as usize >> if s.bool() { 32 } else { 0 };
	if u <= u32::MAX as usize {
		eq(s, &u, "usize")?;
	} else {
		ck!(u.serialize(&mut vec![], SerializationMode::Native).is_err(), "usize {u} serialized");
	}
	let st = string(s);
	eq(s, &st, "String")?;
	let mut x = vec![];
	st.as_str().serialize(&mut x, SerializationMode::Native).map_err(|e| e.to_string())?;
	ck_eq!(String::deserialize(&x[..], SerializationMode::Native).map_err(|e| e.to_string())?, st, "&str as String");
	let v: Vec<Option<(u32, String)>> = (0..s.range(0, 5)).map(|_| if s.bool() { Some((s.special_u64() as u32, string(s))) } else { None }).collect();
	eq(s, &v, "nested")?;
	let g: GenericArray<u8, generic_array::typenum::U32> = GenericArray::clone_from_slice(&s.bytes(32));
	eq(s, &g, "GenericArray")?;
	let rec = Rec::<BinaryField16b> {
		a: b as u16,
		b: if s.bool() { let n = s.range(0, 4); Some(c_math::vals(s, n)) } else { None },
		c: (string(s), s.bool()),
		d: kind(s, 2),
	};
	s.desc(format!("{rec:?}"));
	eq(s, &rec, "derived struct")?;
	let k = kind(s, 3);
	eq(s, &k, "derived enum")?;
	let p = Pair(b as u32, BinaryField32b::draw(s));
	eq(s, &p, "derived tuple struct")?;
	let mut b = vec![];
	rec.serialize(&mut b, SerializationMode::Native).unwrap();
	arbitrary::<Rec<BinaryField16b>>(s, b, "derived struct")?;
	// an unknown variant
	ck!(Kind::deserialize(&[s.range(4, 255) as u8, 0, 0, 0, 0, 0, 0, 0, 0, 0][..], SerializationMode::Native).is_err(), "unknown enum variant decoded");
	Ok(())
}

fn scalar<F: Fd + SerializeBytes + DeserializeBytes>(s: &mut Src) -> Res {
	let v = F::draw(s);
	s.desc(format!("{} {v:?}", F::NAME));
	eq(s, &v, F::NAME)?;
	let mut n = vec![];
	v.serialize(&mut n, SerializationMode::Native).unwrap();
	ck_eq!(n, v.raw().to_le_bytes()[..F::BITS.div_ceil(8)].to_vec(), "native bytes of {}", F::NAME);
	let mut c = vec![];
	v.serialize(&mut c, SerializationMode::CanonicalTower).unwrap();
	let mut cc = vec![];
	F::Canonical::from(v).serialize(&mut cc, SerializationMode::Native).unwrap();
	ck_eq!(c, cc, "canonical bytes of {}", F::NAME);
	Ok(())
}
fn packedf<P: PackedField<Scalar: Fd> + SerializeBytes + DeserializeBytes + Debug + PartialEq>(s: &mut Src) -> Res {
	let v: Vec<P::Scalar> = c_math::vals(s, P::WIDTH);
	let p: P = c_math::packed(&v)[0];
	s.desc(format!("{p:?}"));
	eq(s, &p, std::any::type_name::<P>())?;
	let mut n = vec![];
	p.serialize(&mut n, SerializationMode::CanonicalTower).unwrap();
	ck_eq!(n.len() * 8, (P::WIDTH * P::Scalar::BITS).max(8), "bytes");
	if P::Scalar::BITS >= 8 {
		let exp: Vec<u8> = v.iter().flat_map(|x| x.raw().to_le_bytes()[..P::Scalar::BITS / 8].to_vec()).collect();
		ck_eq!(n, exp, "bytes of {}", std::any::type_name::<P>());
	}
	Ok(())
}
fn fields(s: &mut Src) -> Res {
	s.nontrivial();
	match s.index(24) {
		0 => scalar::<BinaryField1b>(s),
		1 => scalar::<BinaryField2b>(s),
		2 => scalar::<BinaryField4b>(s),
		3 => scalar::<BinaryField8b>(s),
		4 => scalar::<BinaryField16b>(s),
		5 => scalar::<BinaryField32b>(s),
		6 => scalar::<BinaryField64b>(s),
		7 => scalar::<BinaryField128b>(s),
		8 => scalar::<AESTowerField8b>(s),
		9 => scalar::<AESTowerField16b>(s),
		10 => scalar::<AESTowerField32b>(s),
		11 => scalar::<AESTowerField64b>(s),
		12 => scalar::<AESTowerField128b>(s),
		13 => scalar::<BinaryField128bPolyval>(s),
		14 => packedf::<PackedBinaryField128x1b>(s),
		15 => packedf::<PackedBinaryField16x8b>(s),
		16 => packedf::<PackedBinaryField4x32b>(s),
		17 => packedf::<PackedBinaryField2x64b>(s),
		18 => packedf::<PackedBinaryField1x128b>(s),
		19 => packedf::<PackedBinaryField2x128b>(s),
		20 => packedf::<PackedBinaryField16x16b>(s),
		21 => packedf::<PackedBinaryField4x128b>(s),
		22 => packedf::<PackedBinaryField256x2b>(s),
		_ => packedf::<PackedBinaryField64x8b>(s),
	}
}

type Dyn = Box<dyn MultivariatePoly<B128>>;
fn mle_of<F: Fd>(s: &mut Src, n: usize, wide: bool) -> Dyn
where
	B128: ExtensionField<F>,
	binius_field::arch::OptimalUnderlier: as_packed_field::PackScalar<F>,
	OptimalUnderlier128b: as_packed_field::PackScalar<F>,
	PackedType<binius_field::arch::OptimalUnderlier, B128>: RepackedExtension<PackedType<binius_field::arch::OptimalUnderlier, F>>,
	PackedType<OptimalUnderlier128b, B128>: RepackedExtension<PackedType<OptimalUnderlier128b, F>>,
{
	let v: Vec<F> = c_math::vals(s, 1 << n);
	if wide {
		type U = binius_field::arch::OptimalUnderlier;
		Box::new(MultilinearExtensionTransparent::<PackedType<U, F>, PackedType<U, B128>>::from_values_and_mu(c_math::packed(&v), n).unwrap())
	} else {
		type U = OptimalUnderlier128b;
		Box::new(MultilinearExtensionTransparent::<PackedType<U, F>, PackedType<U, B128>>::from_values_and_mu(c_math::packed(&v), n).unwrap())
	}
}
fn transparents(s: &mut Src) -> Res {
	let n = s.range(0, 9);
	let poly: Dyn = match s.index(8) {
		0 => match s.index(3) {
			0 => Box::new(Constant::new(n, BinaryField1b::draw(s))),
			1 => Box::new(Constant::new(n, BinaryField32b::draw(s))),
			_ => Box::new(Constant::new(n, B128::draw(s))),
		},
		1 => Box::new(SelectRow::new(n, s.index(1 << n)).unwrap()),
		2 => Box::new(StepDown::new(n, s.range(0, 1 << n)).unwrap()),
		3 => Box::new(StepUp::new(n, s.range(0, 1 << n)).unwrap()),
		4 => Box::new(Powers::new(n, B128::draw(s))),
		5 => {
			let k = s.range(0, 7);
			Box::new(TowerBasis::<B128>::new(k, s.range(0, 7 - k)).unwrap())
		}
		_ => {
			let w = s.bool();
			match s.index(6) {
				0 => mle_of::<BinaryField1b>(s, n, w),
				1 => mle_of::<BinaryField8b>(s, n, w),
				2 => mle_of::<BinaryField16b>(s, n, w),
				3 => mle_of::<BinaryField32b>(s, n, w),
				4 => mle_of::<BinaryField64b>(s, n, w),
				_ => mle_of::<B128>(s, n, w),
			}
		}
	};
	s.desc(format!("{poly:?}").chars().take(300).collect::<String>());
	s.nontrivial_if(n > 0);
	let pts: Vec<Vec<B128>> = (0..3).map(|_| (0..poly.n_vars()).map(|_| B128::draw(s)).collect()).collect();
	let what = "transparent polynomial";
	let b = round(s, &poly, what, &|b: &Dyn| {
		if b.n_vars() != poly.n_vars() || b.degree() != poly.degree() {
			return Err(format!("{} variables became {}", poly.n_vars(), b.n_vars()));
		}
		for p in &pts {
			let (x, y) = (poly.evaluate(p).map_err(|e| e.to_string())?, b.evaluate(p).map_err(|e| e.to_string())?);
			if x != y {
				return Err(format!("value {x} became {y} at {p:?}"));
			}
		}
		Ok(())
	})?;
	arbitrary::<Dyn>(s, b, what)
}

fn circuits(s: &mut Src) -> Res {
	let nv = s.range(1, 5);
	let lvl = *s.pick(&[0, 3, 4, 5, 7]);
	let ex = Ex::generate(s, nv, lvl, 6, 5);
	s.desc(format!("{ex:?}"));
	s.nontrivial_if(ex.optimized_degree() > 1);
	let c: ArithCircuit<B128> = ex.circuit();
	let pts: Vec<Vec<B128>> = (0..3).map(|_| (0..nv + 2).map(|_| B128::draw(s)).collect()).collect();
	let b = round(s, &c, "ArithCircuit", &|b| {
		if b.steps() == c.steps() { Ok(()) } else { Err(format!("{:?} became {:?}", c.steps(), b.steps())) }
	})?;
	arbitrary::<ArithCircuit<B128>>(s, b, "ArithCircuit")?;
	let width = c.n_vars() + s.range(0, 2);
	let poly = ArithCircuitPoly::<B128>::with_n_vars(width, c.clone()).map_err(|e| e.to_string())?;
	round(s, &poly, "ArithCircuitPoly", &|b| {
		let n = CompositionPoly::<B128>::n_vars(b);
		// decoding optimises once more, which may find a smaller degree bound
		if n != width || CompositionPoly::<B128>::degree(b) > CompositionPoly::<B128>::degree(&poly) {
			return Err(format!("{width} variables became {n}"));
		}
		for p in &pts {
			let (x, y): (B128, B128) = (poly.evaluate(&p[..width]).map_err(|e| e.to_string())?, b.evaluate(&p[..width]).map_err(|e| e.to_string())?);
			if x != y {
				return Err(format!("value {x} became {y}"));
			}
		}
		Ok(())
	})?;
	Ok(())
}

fn transparents_of(cs: &ConstraintSystem<B128>) -> Vec<std::sync::Arc<dyn MultivariatePoly<B128>>> {
	cs.oracles
		.polys()
		.filter_map(|o| match &o.variant {
			SymbolicMultilinearPolyVariant::Transparent(t) => Some(t.poly().clone()),
			_ => None,
		})
		.collect()
}
fn systems(s: &mut Src) -> Res {
	let sys = generate(s, &Cfg::small());
	s.desc(sys.desc());
	s.nontrivial_if(interesting(&sys));
	let cs = sys.compile();
	let proving = s.chance(1, 12);
	let keep = std::cell::RefCell::new(None);
	let b = round(s, &cs, "ConstraintSystem", &|b: &ConstraintSystem<B128>| {
		if digest(b) != digest(&cs) {
			return Err("digest changed".into());
		}
		for (x, y) in cs.oracles.polys().zip(b.oracles.polys()) {
			match (&x.variant, &y.variant) {
				(SymbolicMultilinearPolyVariant::Transparent(_), SymbolicMultilinearPolyVariant::Transparent(_)) => {
					if (x.id, &x.name, x.table_id, x.log_values_per_row, x.tower_level) != (y.id, &y.name, y.table_id, y.log_values_per_row, y.tower_level) {
						return Err(format!("{x:?} became {y:?}"));
					}
				}
				_ if x == y => {}
				_ => return Err(format!("{x:?} became {y:?}")),
			}
		}
		let strip = |c: &ConstraintSystem<B128>| format!("{:?}", (&c.table_constraints, &c.non_zero_oracle_ids, &c.flushes, &c.exponents, c.channel_count, &c.table_size_specs));
		if strip(b) != strip(&cs) || b.oracles.size() != cs.oracles.size() {
			return Err(format!("{} became {}", strip(&cs), strip(b)));
		}
		for (x, y) in transparents_of(&cs).iter().zip(transparents_of(b)) {
			let pt: Vec<B128> = (0..x.n_vars()).map(|i| B128::from(0x1234_5678_9abc_def0_u128 * (i as u128 + 3))).collect();
			if x.n_vars() != y.n_vars() || x.evaluate(&pt).ok() != y.evaluate(&pt).ok() {
				return Err(format!("transparent {x:?} became {y:?}"));
			}
		}
		*keep.borrow_mut() = Some(b.clone());
		Ok(())
	})?;
	let bounds = sys.bounds();
	for bd in &bounds {
		eq(s, bd, "Boundary")?;
	}
	let _: Option<(Boundary<B128>, FlushDirection)> = None;
	if proving {
		// a proof made for the original verifies against the decoded system
		let p = params(s);
		let back = keep.into_inner().unwrap();
		type U = OptimalUnderlier128b;
		match prove::<U>(&cs, p, &digest(&cs), &bounds, &sys.sizes(), sys.index::<U>()) {
			Ok(proof) => {
				s.label("proved");
				verify(&back, p, &digest(&back), &bounds, proof).map_err(|e| format!("decoded system rejects the proof: {e}"))?
			}
			Err(_) => s.label("not proved"),
		}
		if let Ok(set) = cs.oracles.instantiate(&sys.sizes()) {
			round(s, &set, "MultilinearOracleSet", &|b: &MultilinearOracleSet<B128>| {
				if b.size() == set.size() && b.polys().zip(set.polys()).all(|(x, y)| (x.id, x.n_vars, x.tower_level, &x.name) == (y.id, y.n_vars, y.tower_level, &y.name)) {
					Ok(())
				} else {
					Err("oracles changed".into())
				}
			})?;
		}
	}
	arbitrary::<ConstraintSystem<B128>>(s, b.clone(), "ConstraintSystem")?;
	// two systems with one encoding are one system
	let other = generate(s, &Cfg::small());
	if other.desc() != sys.desc() {
		let mut ob = vec![];
		let mut mine = vec![];
		other.compile().serialize(&mut ob, SerializationMode::CanonicalTower).map_err(|e| e.to_string())?;
		cs.serialize(&mut mine, SerializationMode::CanonicalTower).map_err(|e| e.to_string())?;
		ck!(ob != mine || format!("{:?}", other.compile()) == format!("{cs:?}"), "two systems with the same bytes");
	}
	Ok(())
}

fn main() {
	run(Prop {
		id: "C17",
		rule: "values with content: polynomials of at least one variable, circuits of degree at least two, systems with a constraint, flush or exponentiation",
		assumptions: &["arbitrary bytes are altered encodings; ArithCircuitPoly, which optimises what it decodes, only sees valid or truncated ones"],
		subs: vec![
			Sub { name: "primitives", quick: 400000, thorough: 6000000, threads: 0, f: primitives },
			Sub { name: "fields", quick: 1000000, thorough: 20000000, threads: 0, f: fields },
			Sub { name: "transparents", quick: 100000, thorough: 2000000, threads: 0, f: transparents },
			Sub { name: "circuits", quick: 300000, thorough: 6000000, threads: 0, f: circuits },
			Sub { name: "systems", quick: 40000, thorough: 800000, threads: 0, f: systems },
		],
	});
}
