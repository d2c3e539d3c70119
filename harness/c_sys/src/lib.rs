//! Generator of constraint systems with witnesses, and an independent model of their meaning.
pub mod audit;
pub mod refm;
use std::{collections::BTreeMap, fmt::Write as _};

use binius_core::{
	constraint_system::{
		ConstraintSystem, Proof, TableSizeSpec,
		channel::{Boundary, Flush, FlushDirection, OracleOrConst},
		exp::Exp,
	},
	fiat_shamir::HasherChallenger,
	oracle::{
		Constraint, ConstraintPredicate, ConstraintSet, OracleId, ShiftVariant,
		SymbolicMultilinearOracleSet,
	},
	transparent::{
		MultilinearExtensionTransparent, constant::Constant, powers::Powers, select_row::SelectRow,
		step_down::StepDown, step_up::StepUp,
	},
	witness::{MultilinearExtensionIndex, MultilinearWitness},
};
use binius_compute::ComputeHolder;
use binius_fast_compute::layer::FastCpuLayerHolder;
pub use binius_field::BinaryField128b as B128;
use binius_field::{
	BinaryField1b as B1, BinaryField8b as B8, BinaryField16b as B16, BinaryField32b as B32,
	BinaryField64b as B64, BinaryField128bPolyval, PackedExtension, PackedField,
	PackedFieldIndexable, RepackedExtension, TowerField,
	as_packed_field::{PackScalar, PackedType},
	linear_transformation::PackedTransformationFactory,
	packed::set_packed_slice,
	tower::CanonicalTowerFamily,
	underlier::UnderlierType,
};
use binius_hash::groestl::{Groestl256, Groestl256ByteCompression};
use binius_math::{ArithCircuit, ArithExpr, MultilinearExtension};
pub use vp::*;

#[derive(Clone, Debug)]
pub struct Table {
	pub size: usize,
	/// None: arbitrary; Some(None): power of two; Some(Some(k)): fixed.
	pub spec: Option<Option<usize>>,
}
impl Table {
	pub fn log_cap(&self) -> usize {
		self.size.max(1).next_power_of_two().trailing_zeros() as usize
	}
}

#[derive(Clone, Debug)]
pub enum Ex {
	Const(u128),
	Var(usize),
	Add(Box<Ex>, Box<Ex>),
	Mul(Box<Ex>, Box<Ex>),
	Pow(Box<Ex>, u64),
}
impl Ex {
	pub fn eval(&self, at: &dyn Fn(usize) -> u128) -> u128 {
		match self {
			Ex::Const(c) => *c,
			Ex::Var(i) => at(*i),
			Ex::Add(a, b) => a.eval(at) ^ b.eval(at),
			Ex::Mul(a, b) => refm::mul(a.eval(at), b.eval(at)),
			Ex::Pow(a, e) => refm::pow(a.eval(at), *e as u128),
		}
	}
	pub fn expr(&self) -> ArithExpr<B128> {
		match self {
			Ex::Const(c) => ArithExpr::Const(B128::new(*c)),
			Ex::Var(i) => ArithExpr::Var(*i),
			Ex::Add(a, b) => a.expr() + b.expr(),
			Ex::Mul(a, b) => a.expr() * b.expr(),
			Ex::Pow(a, e) => a.expr().pow(*e),
		}
	}
	pub fn circuit(&self) -> ArithCircuit<B128> {
		ArithCircuit::from(self.expr())
	}
	pub fn optimized_degree(&self) -> usize {
		let mut c = self.circuit();
		for _ in 0..8 {
			c.optimize_in_place();
		}
		c.degree()
	}
	pub fn generate(s: &mut Src, nv: usize, level: usize, deg: usize, depth: usize) -> Ex {
		let w: [u64; 5] = if depth == 0 || deg == 0 { [6, 2, 0, 0, 0] } else { [3, 1, 4, 4, 2] };
		match s.weighted(&w) {
			0 if deg >= 1 => Ex::Var(s.index(nv)),
			0 | 1 => {
				let l = s.range(0, level);
				Ex::Const(s.special_u128() & refm::mask(l))
			}
			2 => Ex::Add(
				Box::new(Ex::generate(s, nv, level, deg, depth - 1)),
				Box::new(Ex::generate(s, nv, level, deg, depth - 1)),
			),
			3 => {
				let d = s.range(0, deg);
				Ex::Mul(
					Box::new(Ex::generate(s, nv, level, d, depth - 1)),
					Box::new(Ex::generate(s, nv, level, deg - d, depth - 1)),
				)
			}
			_ => {
				let e = s.range(1, deg);
				Ex::Pow(Box::new(Ex::generate(s, nv, level, deg / e, depth - 1)), e as u64)
			}
		}
	}
}

#[derive(Clone, Debug)]
pub enum Def {
	Committed,
	Transparent(Tr),
	/// a multilinear expression of the index bits
	Structured(Ex),
	Repeating(usize),
	Shifted { inner: usize, off: usize, block: usize, var: u8 },
	Packed { inner: usize, logd: usize },
	Lin { off: u128, inner: Vec<(usize, u128)> },
	Proj { inner: usize, bits: Vec<bool>, start: usize, last: bool },
	ZeroPad { inner: usize, npad: usize, nz: usize, start: usize },
	Comp { inner: Vec<usize>, ex: Ex },
}

#[derive(Clone, Debug)]
pub enum Tr {
	Constant(u128),
	SelectRow(usize),
	StepDown(usize),
	StepUp(usize),
	Powers(u128),
	Mle(Vec<u128>),
	Circuit(Ex),
}

#[derive(Clone, Debug)]
pub struct Col {
	pub table: usize,
	pub lv: usize,
	pub n: usize,
	pub level: usize,
	pub def: Def,
	pub vals: Vec<u128>,
	/// A full column (as opposed to the single-row pattern below a `Repeating`).
	pub full: bool,
}
impl Col {
	pub fn wlevel(&self) -> usize {
		if self.level == 0 { 0 } else { self.level.max(3) }
	}
	pub fn kind(&self) -> &'static str {
		match self.def {
			Def::Committed => "committed",
			Def::Transparent(_) => "transparent",
			Def::Structured(_) => "structured",
			Def::Repeating(_) => "repeating",
			Def::Shifted { .. } => "shifted",
			Def::Packed { .. } => "packed",
			Def::Lin { .. } => "linear",
			Def::Proj { .. } => "projected",
			Def::ZeroPad { .. } => "zeropad",
			Def::Comp { .. } => "composite",
		}
	}
}

#[derive(Clone, Debug)]
pub struct Fl {
	pub table: usize,
	pub lv: usize,
	pub cols: Vec<Result<usize, u128>>,
	pub channel: usize,
	pub push: bool,
	pub selectors: Vec<usize>,
	pub mult: u64,
}
#[derive(Clone, Debug)]
pub struct Bd {
	pub values: Vec<u128>,
	pub channel: usize,
	pub push: bool,
	pub mult: u64,
}
#[derive(Clone, Debug)]
pub struct Xp {
	pub bits: Vec<usize>,
	pub base: Result<usize, (u128, usize)>,
	pub result: usize,
}
#[derive(Clone, Debug)]
pub struct Cset {
	pub table: usize,
	pub lv: usize,
	pub cols: Vec<usize>,
	pub exprs: Vec<Ex>,
}

/// A violated requirement, by its position in the system.
#[derive(Clone, Copy, Debug, PartialEq, Eq)]
pub enum Viol {
	Constraint(usize, usize),
	NonZero(usize),
	Exp(usize),
	Channel(usize),
}

#[derive(Clone, Debug, Default)]
pub struct Sys {
	pub tables: Vec<Table>,
	pub cols: Vec<Col>,
	pub csets: Vec<Cset>,
	pub nonzero: Vec<usize>,
	pub flushes: Vec<Fl>,
	pub exps: Vec<Xp>,
	pub channels: usize,
	pub boundaries: Vec<Bd>,
	pub widths: Vec<usize>,
}

pub type Tuple = (usize, Vec<u128>);

impl Sys {
	pub fn sizes(&self) -> Vec<usize> {
		self.tables.iter().map(|t| t.size).collect()
	}
	pub fn live(&self, c: usize) -> bool {
		self.tables[self.cols[c].table].size > 0
	}
	pub fn committed_elems(&self) -> usize {
		(0..self.cols.len())
			.filter(|c| self.live(*c) && matches!(self.cols[*c].def, Def::Committed))
			.map(|c| 1 << (self.cols[c].n + self.cols[c].level).saturating_sub(7))
			.sum()
	}
	pub fn log_cap(&self, t: usize) -> usize {
		self.tables[t].log_cap()
	}

	/// The values a derived column must have.
	pub fn expected(&self, c: usize) -> Option<Vec<u128>> {
		let col = &self.cols[c];
		let len = 1usize << col.n;
		let v = |i: usize| &self.cols[i].vals;
		Some(match &col.def {
			Def::Committed => return None,
			Def::Transparent(t) => (0..len)
				.map(|i| match t {
					Tr::Constant(c) => *c,
					Tr::SelectRow(k) => (i == *k) as u128,
					Tr::StepDown(k) => (i < *k) as u128,
					Tr::StepUp(k) => (i >= *k) as u128,
					Tr::Powers(b) => refm::pow(*b, i as u128),
					Tr::Mle(m) => m[i],
					Tr::Circuit(e) => e.eval(&|j| (i >> j & 1) as u128),
				})
				.collect(),
			Def::Structured(e) => {
				(0..len).map(|i| e.eval(&|j| if j < col.n { (i >> j & 1) as u128 } else { 0 })).collect()
			}
			Def::Repeating(i) => (0..len).map(|k| v(*i)[k % v(*i).len()]).collect(),
			Def::Shifted { inner, off, block, var } => {
				let bl = 1usize << block;
				(0..len)
					.map(|k| {
						let (base, o) = (k / bl * bl, k % bl);
						match var {
							0 => v(*inner)[base + (o + bl - off) % bl],
							1 => if o >= *off { v(*inner)[base + o - off] } else { 0 },
							_ => if o + off < bl { v(*inner)[base + o + off] } else { 0 },
						}
					})
					.collect()
			}
			Def::Packed { inner, logd } => {
				let bits = 1usize << self.cols[*inner].level;
				(0..len)
					.map(|k| {
						(0..1usize << logd)
							.fold(0u128, |a, j| a | v(*inner)[(k << logd) + j] << (j * bits))
					})
					.collect()
			}
			Def::Lin { off, inner } => (0..len)
				.map(|k| inner.iter().fold(*off, |a, (i, c)| a ^ refm::mul(v(*i)[k], *c)))
				.collect(),
			Def::Proj { inner, bits, start, .. } => (0..len)
				.map(|k| {
					let lo = k & ((1 << start) - 1);
					let hi = k >> start;
					let mid = bits.iter().enumerate().fold(0, |a, (j, b)| a | (*b as usize) << j);
					v(*inner)[lo | mid << start | hi << (start + bits.len())]
				})
				.collect(),
			Def::ZeroPad { inner, npad, nz, start } => (0..len)
				.map(|k| {
					let lo = k & ((1 << start) - 1);
					let mid = k >> start & ((1 << npad) - 1);
					let hi = k >> (start + npad);
					if mid == *nz { v(*inner)[lo | hi << start] } else { 0 }
				})
				.collect(),
			Def::Comp { inner, ex } => {
				(0..len).map(|k| ex.eval(&|j| v(inner[j])[k])).collect()
			}
		})
	}

	/// Recomputes every derived column and exponentiation result, in definition order.
	pub fn recompute(&mut self) {
		for c in 0..self.cols.len() {
			if let Some(x) = self.exps.iter().find(|x| x.result == c).cloned() {
				self.cols[c].vals = self.exp_values(&x);
			} else if let Some(v) = self.expected(c) {
				self.cols[c].vals = v;
			}
		}
	}

	pub fn exp_values(&self, x: &Xp) -> Vec<u128> {
		let n = self.cols[x.result].n;
		(0..1usize << n)
			.map(|k| {
				let e = x
					.bits
					.iter()
					.enumerate()
					.fold(0u128, |a, (j, b)| a | (self.cols[*b].vals[k] & 1) << j);
				let base = match x.base {
					Ok(c) => self.cols[c].vals[k],
					Err((b, _)) => b,
				};
				refm::pow(base, e)
			})
			.collect()
	}

	/// Net number of pushes minus pulls of each tuple, over flushes and boundaries.
	pub fn net(&self) -> BTreeMap<Tuple, i128> {
		let mut m: BTreeMap<Tuple, i128> = BTreeMap::new();
		for f in &self.flushes {
			let size = self.tables[f.table].size;
			for i in 0..size << f.lv {
				if f.selectors.iter().any(|s| self.cols[*s].vals[i] == 0) {
					continue;
				}
				let t = f
					.cols
					.iter()
					.map(|c| match c {
						Ok(c) => self.cols[*c].vals[i],
						Err(k) => *k,
					})
					.collect();
				*m.entry((f.channel, t)).or_default() +=
					if f.push { i128::from(f.mult) } else { -i128::from(f.mult) };
			}
		}
		for b in &self.boundaries {
			*m.entry((b.channel, b.values.clone())).or_default() +=
				if b.push { i128::from(b.mult) } else { -i128::from(b.mult) };
		}
		m.retain(|_, v| *v != 0);
		m
	}

	/// The reference verdict; `Err` names the first violated requirement.
	pub fn verdict(&self) -> Result<(), String> {
		self.verdict_given_exps()?;
		for x in &self.exps {
			if self.live(x.result) && self.exp_values(x) != self.cols[x.result].vals {
				return Err(format!("exponentiation result {} is wrong", x.result));
			}
		}
		Ok(())
	}

	/// The verdict without the requirements on exponentiation results.
	pub fn verdict_given_exps(&self) -> Result<(), String> {
		for (c, col) in self.cols.iter().enumerate() {
			if !self.live(c) {
				continue;
			}
			if let Some(e) = self.expected(c)
				&& e != col.vals
			{
				return Err(format!("column {c} ({}) differs from its definition", col.kind()));
			}
		}
		for (k, cs) in self.csets.iter().enumerate() {
			if self.tables[cs.table].size == 0 {
				continue;
			}
			let n = self.log_cap(cs.table) + cs.lv;
			for (j, e) in cs.exprs.iter().enumerate() {
				for i in 0..1usize << n {
					if e.eval(&|v| self.cols[cs.cols[v]].vals[i]) != 0 {
						return Err(format!("constraint {k}.{j} is non-zero at {i}"));
					}
				}
			}
		}
		for &c in &self.nonzero {
			if self.live(c) && self.cols[c].vals.iter().any(|v| *v == 0) {
				return Err(format!("non-zero column {c} has a zero"));
			}
		}
		if let Some(((ch, _), _)) = self.net().into_iter().next() {
			return Err(format!("channel {ch} is unbalanced"));
		}
		Ok(())
	}

	/// Every violated requirement, apart from derived columns.
	pub fn violations(&self) -> Vec<Viol> {
		let mut r = vec![];
		for (k, cs) in self.csets.iter().enumerate() {
			if self.tables[cs.table].size == 0 {
				continue;
			}
			let n = self.log_cap(cs.table) + cs.lv;
			for (j, e) in cs.exprs.iter().enumerate() {
				if (0..1usize << n).any(|i| e.eval(&|v| self.cols[cs.cols[v]].vals[i]) != 0) {
					r.push(Viol::Constraint(k, j));
				}
			}
		}
		for (k, &c) in self.nonzero.iter().enumerate() {
			if self.live(c) && self.cols[c].vals.contains(&0) {
				r.push(Viol::NonZero(k));
			}
		}
		for (k, x) in self.exps.iter().enumerate() {
			if self.live(x.result) && self.exp_values(x) != self.cols[x.result].vals {
				r.push(Viol::Exp(k));
			}
		}
		let mut ch: Vec<usize> = self.net().into_keys().map(|t| t.0).collect();
		ch.dedup();
		r.extend(ch.into_iter().map(Viol::Channel));
		r
	}

	/// Drops the requirements in `gone`.
	pub fn drop_requirements(&mut self, gone: &[Viol]) {
		for (k, cs) in self.csets.iter_mut().enumerate() {
			let mut j = 0;
			cs.exprs.retain(|_| {
				j += 1;
				!gone.contains(&Viol::Constraint(k, j - 1))
			});
		}
		self.csets.retain(|c| !c.exprs.is_empty());
		let mut k = 0;
		self.nonzero.retain(|_| {
			k += 1;
			!gone.contains(&Viol::NonZero(k - 1))
		});
		let mut k = 0;
		self.exps.retain(|_| {
			k += 1;
			!gone.contains(&Viol::Exp(k - 1))
		});
		self.flushes.retain(|f| !gone.contains(&Viol::Channel(f.channel)));
		self.boundaries.retain(|f| !gone.contains(&Viol::Channel(f.channel)));
	}

	/// Columns that some constraint, flush, exponentiation or non-zero requirement reads, directly
	/// or through derived columns.
	pub fn used(&self) -> std::collections::BTreeSet<usize> {
		let mut todo: Vec<usize> = vec![];
		for c in &self.csets {
			todo.extend(&c.cols);
		}
		todo.extend(&self.nonzero);
		for f in &self.flushes {
			todo.extend(f.cols.iter().flatten());
			todo.extend(&f.selectors);
		}
		for x in &self.exps {
			todo.extend(&x.bits);
			todo.extend(x.base.iter());
		}
		let mut seen = std::collections::BTreeSet::new();
		while let Some(c) = todo.pop() {
			if !seen.insert(c) {
				continue;
			}
			match &self.cols[c].def {
				Def::Committed | Def::Transparent(_) | Def::Structured(_) => {}
				Def::Repeating(i)
				| Def::Shifted { inner: i, .. }
				| Def::Packed { inner: i, .. }
				| Def::Proj { inner: i, .. }
				| Def::ZeroPad { inner: i, .. } => todo.push(*i),
				Def::Lin { inner, .. } => todo.extend(inner.iter().map(|x| x.0)),
				Def::Comp { inner, .. } => todo.extend(inner),
			}
		}
		seen
	}

	pub fn compile(&self) -> ConstraintSystem<B128> {
		let mut o = SymbolicMultilinearOracleSet::<B128>::new();
		let id = OracleId::from_index;
		for (i, c) in self.cols.iter().enumerate() {
			let b = o.add_oracle(c.table, c.lv, format!("c{i}"));
			let got = match &c.def {
				Def::Committed => b.committed(c.level),
				Def::Transparent(t) => match t {
					Tr::Constant(v) => b.transparent(constant(c.n, *v, c.level)).unwrap(),
					Tr::SelectRow(k) => b.transparent(SelectRow::new(c.n, *k).unwrap()).unwrap(),
					Tr::StepDown(k) => b.transparent(StepDown::new(c.n, *k).unwrap()).unwrap(),
					Tr::StepUp(k) => b.transparent(StepUp::new(c.n, *k).unwrap()).unwrap(),
					Tr::Powers(v) => b.transparent(Powers::new(c.n, B128::new(*v))).unwrap(),
					Tr::Mle(m) => {
						use binius_field::arch::OptimalUnderlier as U;
						macro_rules! mle {
							($f:ty) => {
								b.transparent(
									MultilinearExtensionTransparent::<
										PackedType<U, $f>,
										PackedType<U, B128>,
									>::from_values_and_mu(
										pack::<U, $f>(m, c.n), c.n
									)
									.unwrap(),
								)
								.unwrap()
							};
						}
						match c.wlevel() {
							0 => mle!(B1),
							3 => mle!(B8),
							4 => mle!(B16),
							5 => mle!(B32),
							6 => mle!(B64),
							_ => mle!(B128),
						}
					}
					Tr::Circuit(e) => b.transparent(e.circuit()).unwrap(),
				},
				Def::Structured(e) => b.structured(e.circuit()).unwrap(),
				Def::Repeating(i) => b.repeating(id(*i)).unwrap(),
				Def::Shifted { inner, off, block, var } => b
					.shifted(
						id(*inner),
						*off,
						*block,
						[
							ShiftVariant::CircularLeft,
							ShiftVariant::LogicalLeft,
							ShiftVariant::LogicalRight,
						][*var as usize],
					)
					.unwrap(),
				Def::Packed { inner, logd } => b.packed(id(*inner), *logd).unwrap(),
				Def::Lin { off, inner } => b
					.linear_combination_with_offset(
						B128::new(*off),
						inner.iter().map(|(i, c)| (id(*i), B128::new(*c))).collect::<Vec<_>>(),
					)
					.unwrap(),
				Def::Proj { inner, bits, start, last } => {
					let vals = bits.iter().map(|b| B128::new(*b as u128)).collect();
					if *last {
						b.projected_last_vars(id(*inner), vals).unwrap()
					} else {
						b.projected(id(*inner), vals, *start).unwrap()
					}
				}
				Def::ZeroPad { inner, npad, nz, start } => {
					b.zero_padded(id(*inner), *npad, *nz, *start).unwrap()
				}
				Def::Comp { inner, ex } => {
					b.composite_mle(inner.iter().map(|i| id(*i)).collect::<Vec<_>>(), ex.circuit()).unwrap()
				}
			};
			assert_eq!(got.index(), i);
		}
		ConstraintSystem {
			oracles: o,
			table_constraints: self
				.csets
				.iter()
				.map(|cs| ConstraintSet {
					table_id: cs.table,
					log_values_per_row: cs.lv,
					oracle_ids: cs.cols.iter().map(|c| id(*c)).collect(),
					constraints: cs
						.exprs
						.iter()
						.enumerate()
						.map(|(i, e)| Constraint {
							name: format!("k{i}"),
							composition: e.circuit(),
							predicate: ConstraintPredicate::Zero,
						})
						.collect(),
				})
				.collect(),
			non_zero_oracle_ids: self.nonzero.iter().map(|c| id(*c)).collect(),
			flushes: self
				.flushes
				.iter()
				.map(|f| Flush {
					table_id: f.table,
					log_values_per_row: f.lv,
					oracles: f
						.cols
						.iter()
						.map(|c| match c {
							Ok(c) => OracleOrConst::Oracle(id(*c)),
							Err(k) => OracleOrConst::Const {
								base: B128::new(*k),
								tower_level: refm::min_level(*k),
							},
						})
						.collect(),
					channel_id: f.channel,
					direction: dir(f.push),
					selectors: f.selectors.iter().map(|c| id(*c)).collect(),
					multiplicity: f.mult,
				})
				.collect(),
			exponents: self
				.exps
				.iter()
				.map(|x| Exp {
					bits_ids: x.bits.iter().map(|c| id(*c)).collect(),
					base: match x.base {
						Ok(c) => OracleOrConst::Oracle(id(c)),
						Err((b, l)) => OracleOrConst::Const { base: B128::new(b), tower_level: l },
					},
					exp_result_id: id(x.result),
				})
				.collect(),
			channel_count: self.channels,
			table_size_specs: self
				.tables
				.iter()
				.map(|t| match t.spec {
					None => TableSizeSpec::Arbitrary,
					Some(None) => TableSizeSpec::PowerOfTwo,
					Some(Some(k)) => TableSizeSpec::Fixed { log_size: k },
				})
				.collect(),
		}
	}

	pub fn bounds(&self) -> Vec<Boundary<B128>> {
		self.boundaries
			.iter()
			.map(|b| Boundary {
				values: b.values.iter().map(|v| B128::new(*v)).collect(),
				channel_id: b.channel,
				direction: dir(b.push),
				multiplicity: b.mult,
			})
			.collect()
	}

	pub fn index<U: Under>(&self) -> MultilinearExtensionIndex<'static, PackedType<U, B128>>
	where
		PackedType<U, B128>: Pk<U>,
	{
		let mut ix = MultilinearExtensionIndex::new();
		for (i, c) in self.cols.iter().enumerate() {
			if !self.live(i) {
				continue;
			}
			ix.update_multilin_poly([(OracleId::from_index(i), mle::<U>(&c.vals, c.n, c.wlevel()))])
				.unwrap();
		}
		ix
	}

	pub fn desc(&self) -> String {
		let mut d = String::new();
		for (i, t) in self.tables.iter().enumerate() {
			let _ = write!(d, "T{i}:{}{} ", t.size, match t.spec {
				None => "",
				Some(None) => "(2^k)",
				Some(Some(_)) => "(fixed)",
			});
		}
		for (i, c) in self.cols.iter().enumerate() {
			let _ = write!(d, "c{i}=T{}/{}v:B{}", c.table, 1 << c.lv, 1 << c.level);
			match &c.def {
				Def::Committed => {}
				o => {
					let t = format!("{o:?}");
					let t: String = t.chars().take(70).collect();
					let _ = write!(d, "={t}");
				}
			}
			d.push(' ');
		}
		for c in &self.csets {
			for e in &c.exprs {
				let t: String = format!("{} degree {}; ", e.expr(), e.circuit().degree()).chars().take(160).collect();
				let _ = write!(d, "zero{:?}: {t}", c.cols);
			}
		}
		let _ = write!(
			d,
			"| {} constraint sets, nonzero {:?}, {} flushes, {} exps, {} channels, {} boundaries",
			self.csets.len(),
			self.nonzero,
			self.flushes.len(),
			self.exps.len(),
			self.channels,
			self.boundaries.len()
		);
		d
	}
}

fn dir(push: bool) -> FlushDirection {
	if push { FlushDirection::Push } else { FlushDirection::Pull }
}

fn constant(n: usize, v: u128, level: usize) -> Constant<B128> {
	match level {
		0 => Constant::new(n, B1::try_from(B128::new(v)).unwrap()),
		3 => Constant::new(n, B8::try_from(B128::new(v)).unwrap()),
		4 => Constant::new(n, B16::try_from(B128::new(v)).unwrap()),
		5 => Constant::new(n, B32::try_from(B128::new(v)).unwrap()),
		6 => Constant::new(n, B64::try_from(B128::new(v)).unwrap()),
		_ => Constant::new(n, B128::new(v)),
	}
}

pub trait Under:
	UnderlierType
	+ PackScalar<B1>
	+ PackScalar<B8>
	+ PackScalar<B16>
	+ PackScalar<B32>
	+ PackScalar<B64>
	+ PackScalar<B128>
	+ PackScalar<BinaryField128bPolyval>
{
}
impl<T> Under for T where
	T: UnderlierType
		+ PackScalar<B1>
		+ PackScalar<B8>
		+ PackScalar<B16>
		+ PackScalar<B32>
		+ PackScalar<B64>
		+ PackScalar<B128>
		+ PackScalar<BinaryField128bPolyval>
{
}
pub trait Pk<U: Under>:
	PackedFieldIndexable<Scalar = B128>
	+ RepackedExtension<PackedType<U, B1>>
	+ RepackedExtension<PackedType<U, B8>>
	+ RepackedExtension<PackedType<U, B16>>
	+ RepackedExtension<PackedType<U, B32>>
	+ RepackedExtension<PackedType<U, B64>>
	+ PackedExtension<B1>
{
}
impl<U: Under, T> Pk<U> for T where
	T: PackedFieldIndexable<Scalar = B128>
		+ RepackedExtension<PackedType<U, B1>>
		+ RepackedExtension<PackedType<U, B8>>
		+ RepackedExtension<PackedType<U, B16>>
		+ RepackedExtension<PackedType<U, B32>>
		+ RepackedExtension<PackedType<U, B64>>
		+ PackedExtension<B1>
{
}

pub fn pack<U: UnderlierType + PackScalar<F>, F: TowerField + TryFrom<B128>>(
	vals: &[u128],
	n: usize,
) -> Vec<PackedType<U, F>> {
	let mut out =
		vec![PackedType::<U, F>::zero(); 1 << n.saturating_sub(<PackedType<U, F>>::LOG_WIDTH)];
	for (i, v) in vals.iter().enumerate() {
		let f = F::try_from(B128::new(*v)).ok().expect("value in subfield");
		set_packed_slice(&mut out, i, f);
	}
	out
}

pub fn mle<U: Under>(
	vals: &[u128],
	n: usize,
	wlevel: usize,
) -> MultilinearWitness<'static, PackedType<U, B128>>
where
	PackedType<U, B128>: Pk<U>,
{
	macro_rules! go {
		($f:ty) => {
			MultilinearExtension::new(n, pack::<U, $f>(vals, n)).unwrap().specialize_arc_dyn()
		};
	}
	match wlevel {
		0 => go!(B1),
		3 => go!(B8),
		4 => go!(B16),
		5 => go!(B32),
		6 => go!(B64),
		_ => go!(B128),
	}
}

#[derive(Clone, Copy, Debug)]
pub struct Params {
	pub rate: usize,
	pub sec: usize,
}

pub type Ccs = ConstraintSystem<B128>;
pub type Bound = Boundary<B128>;
pub type Dg = digest::Output<Groestl256>;

pub fn prove<U: Under>(
	ccs: &ConstraintSystem<B128>,
	p: Params,
	dg: &Dg,
	bounds: &[Boundary<B128>],
	sizes: &[usize],
	ix: MultilinearExtensionIndex<'static, PackedType<U, B128>>,
) -> Result<Vec<u8>, String>
where
	PackedType<U, B128>:
		PackedFieldIndexable + PackedTransformationFactory<PackedType<U, BinaryField128bPolyval>>,
	PackedType<U, BinaryField128bPolyval>: PackedTransformationFactory<PackedType<U, B128>>,
{
	let dev = if sizes.iter().any(|n| *n > 1 << 9) { 1 << 24 } else { 1 << 20 };
	let mut h =
		FastCpuLayerHolder::<CanonicalTowerFamily, PackedType<U, B128>>::new(1 << 14, dev);
	binius_core::constraint_system::prove::<
		_,
		U,
		CanonicalTowerFamily,
		Groestl256,
		Groestl256ByteCompression,
		HasherChallenger<Groestl256>,
		_,
		_,
		_,
	>(
		&mut h.to_data(),
		ccs,
		p.rate,
		p.sec,
		dg,
		bounds,
		sizes,
		ix,
		&binius_hal::make_portable_backend(),
	)
	.map(|p| p.transcript)
	.map_err(|e| format!("{e:?}"))
}

pub fn verify(
	ccs: &ConstraintSystem<B128>,
	p: Params,
	dg: &Dg,
	bounds: &[Boundary<B128>],
	proof: Vec<u8>,
) -> Result<(), String> {
	binius_core::constraint_system::verify::<
		binius_field::arch::OptimalUnderlier128b,
		CanonicalTowerFamily,
		Groestl256,
		Groestl256ByteCompression,
		HasherChallenger<Groestl256>,
	>(ccs, p.rate, p.sec, dg, bounds, Proof { transcript: proof })
	.map_err(|e| format!("{e:?}"))
}

pub fn digest(ccs: &ConstraintSystem<B128>) -> Dg {
	ccs.digest::<Groestl256>()
}

pub fn params(s: &mut Src) -> Params {
	Params { rate: s.range(1, 2), sec: *s.pick(&[20, 3, 40, 100]) }
}

// ---------------------------------------------------------------- generation

#[derive(Clone, Copy, Debug)]
pub struct Cfg {
	pub tables: usize,
	pub max_log: usize,
	pub max_lv: usize,
	pub virtuals: usize,
	pub exps: bool,
	pub empty: bool,
}
impl Cfg {
	pub fn small() -> Self {
		Cfg { tables: 2, max_log: 3, max_lv: 4, virtuals: 3, exps: true, empty: true }
	}
	pub fn medium() -> Self {
		Cfg { tables: 3, max_log: 5, max_lv: 7, virtuals: 5, exps: true, empty: true }
	}
}

const LEVELS: [usize; 6] = [0, 3, 4, 5, 6, 7];

fn vals(s: &mut Src, n: usize, level: usize, nonzero: bool) -> Vec<u128> {
	let mut b = s.bulk();
	(0..1usize << n)
		.map(|_| {
			let v = b.u128() & refm::mask(level);
			if nonzero && v == 0 { 1 } else { v }
		})
		.collect()
}

fn add(sys: &mut Sys, table: usize, lv: usize, n: usize, level: usize, def: Def, full: bool) -> usize {
	let c = sys.cols.len();
	sys.cols.push(Col { table, lv, n, level, def, vals: vec![], full });
	if let Some(v) = sys.expected(c) {
		sys.cols[c].vals = v;
	}
	c
}

fn committed(s: &mut Src, sys: &mut Sys, table: usize, lv: usize, level: usize, nz: bool) -> usize {
	let n = sys.log_cap(table) + lv;
	let c = add(sys, table, lv, n, level, Def::Committed, true);
	sys.cols[c].vals = vals(s, n, level, nz);
	c
}

fn same(sys: &Sys, table: usize, lv: usize) -> Vec<usize> {
	(0..sys.cols.len())
		.filter(|&c| sys.cols[c].table == table && sys.cols[c].lv == lv && sys.cols[c].full)
		.collect()
}

/// A multilinear expression in `n` index bits that mentions the last of them.
fn multilinear_ex(s: &mut Src, n: usize, level: usize) -> Ex {
	let mut e = Ex::Const(s.special_u128() & refm::mask(level));
	for j in 0..n {
		let last = j + 1 == n;
		if last || s.chance(3, 4) {
			let c = s.special_u128() & refm::mask(level);
			let mut t = Ex::Mul(Box::new(Ex::Var(j)), Box::new(Ex::Const(c)));
			if j > 0 && s.chance(1, 4) {
				let o = s.index(j);
				t = Ex::Mul(Box::new(Ex::Var(o)), Box::new(t));
			}
			e = Ex::Add(Box::new(e), Box::new(t));
		}
	}
	e
}

fn virtual_col(s: &mut Src, sys: &mut Sys, cfg: &Cfg, table: usize) {
	let full: Vec<usize> =
		(0..sys.cols.len()).filter(|&c| sys.cols[c].table == table && sys.cols[c].full).collect();
	let base = *s.pick(&full);
	let (lv, n, level) = (sys.cols[base].lv, sys.cols[base].n, sys.cols[base].level);
	let cap = sys.log_cap(table);
	let spec = sys.tables[table].spec;
	match s.weighted(&[4, 3, 4, 3, 3, 3, 3, 3]) {
		0 => {
			// shifted; across rows only where the size is fixed
			let max = if matches!(spec, Some(Some(_))) && s.chance(1, 3) { n } else { lv };
			if max == 0 {
				return;
			}
			let block = s.range(1, max);
			let off = s.range(1, (1 << block) - 1);
			let var = s.range(0, 2) as u8;
			add(sys, table, lv, n, level, Def::Shifted { inner: base, off, block, var }, true);
		}
		1 => {
			// packed
			let opts: Vec<usize> = (1..=lv)
				.filter(|d| LEVELS.contains(&(level + d)) && LEVELS.contains(&level))
				.collect();
			if opts.is_empty() {
				return;
			}
			let logd = *s.pick(&opts);
			let def = Def::Packed { inner: base, logd };
			add(sys, table, lv - logd, n - logd, level + logd, def, true);
		}
		2 => {
			// linear combination
			let cands = same(sys, table, lv);
			let k = s.range(1, 3);
			let clev = *s.pick(&[0usize, 3, 5, 7]);
			let inner: Vec<(usize, u128)> = (0..k)
				.map(|_| {
					let c = *s.pick(&cands);
					(c, s.special_u128() & refm::mask(clev))
				})
				.collect();
			let off = if s.bool() { s.special_u128() & refm::mask(clev) } else { 0 };
			let level = inner
				.iter()
				.map(|(c, k)| sys.cols[*c].level.max(refm::min_level(*k)))
				.max()
				.unwrap()
				.max(refm::min_level(off));
			add(sys, table, lv, n, level, Def::Lin { off, inner }, true);
		}
		3 => {
			// projected
			if lv == 0 {
				return;
			}
			let k = s.range(1, lv);
			let last = matches!(spec, Some(Some(_))) && cap == 0 && s.bool();
			let start = if last { lv - k } else { s.range(0, lv - k) };
			let bits = (0..k).map(|_| s.bool()).collect();
			let def = Def::Proj { inner: base, bits, start, last };
			add(sys, table, lv - k, n - k, level, def, true);
		}
		4 => {
			// zero padded
			if lv >= cfg.max_lv {
				return;
			}
			let npad = s.range(1, (cfg.max_lv - lv).min(3));
			let nz = s.index(1 << npad);
			let start = s.range(0, lv);
			let def = Def::ZeroPad { inner: base, npad, nz, start };
			add(sys, table, lv + npad, n + npad, level, def, true);
		}
		5 => {
			// composite
			let cands = same(sys, table, lv);
			let k = s.range(1, 3.min(cands.len()));
			let mut inner: Vec<usize> = (0..k).map(|_| *s.pick(&cands)).collect();
			inner.sort();
			inner.dedup();
			let k = inner.len();
			let level = inner.iter().map(|c| sys.cols[*c].level).max().unwrap();
			let mut ex = Ex::generate(s, k, level, 3, 3);
			if ex.optimized_degree() == 0 {
				// constant composites are not produced by the builder
				ex = Ex::Var(0);
			}
			add(sys, table, lv, n, level, Def::Comp { inner, ex }, true);
		}
		6 => {
			// constant pattern, repeated on every row
			let level = *s.pick(&LEVELS);
			let whole = matches!(spec, Some(Some(_))) && lv == 0 && s.bool();
			let tn = if whole { cap } else { lv };
			let len = 1usize << tn;
			let (tr, level) = match s.range(0, 6) {
				0 => (Tr::Constant(s.special_u128() & refm::mask(level)), level),
				1 => (Tr::SelectRow(s.index(len)), 0),
				2 => (Tr::StepDown(s.range(0, len)), 0),
				3 => (Tr::StepUp(s.range(0, len)), 0),
				4 => (Tr::Powers(s.special_u128()), 7),
				5 if whole && tn > 0 => {
					let e = multilinear_ex(s, tn, level);
					let l = e.circuit().binary_tower_level();
					(Tr::Circuit(e), l)
				}
				_ => (Tr::Mle(vals(s, tn, level, false)), level),
			};
			let c = add(sys, table, lv, tn, level, Def::Transparent(tr), whole);
			if !whole {
				add(sys, table, lv, n, level, Def::Repeating(c), true);
			}
		}
		_ => {
			// structured, tables of 2^k rows only
			if spec.is_none() {
				return;
			}
			let level = *s.pick(&LEVELS);
			let extra = s.range(0, 3);
			if n + extra == 0 {
				return;
			}
			let e = multilinear_ex(s, n + extra, level);
			let level = e.circuit().binary_tower_level();
			add(sys, table, lv, n, level, Def::Structured(e), true);
		}
	}
}

fn constraints(s: &mut Src, sys: &mut Sys, table: usize) {
	let mut lvs: Vec<usize> = sys.cols.iter().filter(|c| c.table == table).map(|c| c.lv).collect();
	lvs.sort();
	lvs.dedup();
	for lv in lvs {
		if !s.chance(3, 4) {
			continue;
		}
		let mut exprs_at: Vec<(Ex, Vec<usize>)> = vec![];
		for _ in 0..s.range(1, 3) {
			let cands = same(sys, table, lv);
			if cands.is_empty() {
				break;
			}
			let k = s.range(1, 3);
			let inner: Vec<usize> = (0..k).map(|_| *s.pick(&cands)).collect();
			let level = inner.iter().map(|c| sys.cols[*c].wlevel()).max().unwrap();
			let len = 1usize << sys.cols[inner[0]].n;
			match s.weighted(&[6, 1, 2]) {
				0 => {
					// d = expr
					let deg = s.range(1, 4);
					let ex = Ex::generate(s, k, level, deg, 4);
					let c = committed(s, sys, table, lv, level, false);
					sys.cols[c].vals =
						(0..len).map(|i| ex.eval(&|v| sys.cols[inner[v]].vals[i])).collect();
					let mut cs = inner.clone();
					cs.push(c);
					exprs_at.push((Ex::Add(Box::new(ex), Box::new(Ex::Var(k))), cs));
				}
				1 => {
					// b * (b + 1) = 0 on a bit column
					let bits: Vec<usize> =
						cands.iter().copied().filter(|c| sys.cols[*c].level == 0).collect();
					if let Some(&b) = bits.first() {
						let e = Ex::Mul(
							Box::new(Ex::Var(0)),
							Box::new(Ex::Add(Box::new(Ex::Var(0)), Box::new(Ex::Const(1)))),
						);
						exprs_at.push((e, vec![b]));
					}
				}
				_ => {
					// sel * (d + expr) = 0 : d is free where sel is 0
					let sel = committed(s, sys, table, lv, 0, false);
					let ex = Ex::generate(s, k, level, 2, 3);
					let c = committed(s, sys, table, lv, level, false);
					for i in 0..len {
						if sys.cols[sel].vals[i] == 1 {
							sys.cols[c].vals[i] = ex.eval(&|v| sys.cols[inner[v]].vals[i]);
						}
					}
					let mut cs = inner.clone();
					cs.push(c);
					cs.push(sel);
					let e = Ex::Mul(
						Box::new(Ex::Var(k + 1)),
						Box::new(Ex::Add(Box::new(ex), Box::new(Ex::Var(k)))),
					);
					exprs_at.push((e, cs));
				}
			}
		}
		if exprs_at.is_empty() {
			continue;
		}
		// one set over the union of the referenced columns, sorted as the builder does
		let mut cols: Vec<usize> = exprs_at.iter().flat_map(|(_, c)| c.clone()).collect();
		cols.sort();
		cols.dedup();
		let exprs = exprs_at
			.into_iter()
			.map(|(e, cs)| remap(&e, &|v| cols.iter().position(|c| *c == cs[v]).unwrap()))
			.collect();
		sys.csets.push(Cset { table, lv, cols, exprs });
	}
}

fn remap(e: &Ex, f: &dyn Fn(usize) -> usize) -> Ex {
	match e {
		Ex::Const(c) => Ex::Const(*c),
		Ex::Var(i) => Ex::Var(f(*i)),
		Ex::Add(a, b) => Ex::Add(Box::new(remap(a, f)), Box::new(remap(b, f))),
		Ex::Mul(a, b) => Ex::Mul(Box::new(remap(a, f)), Box::new(remap(b, f))),
		Ex::Pow(a, k) => Ex::Pow(Box::new(remap(a, f)), *k),
	}
}

fn exps(s: &mut Src, sys: &mut Sys, table: usize) {
	let lv = s.range(0, 2);
	let k = s.range(1, 6);
	let bits: Vec<usize> = (0..k).map(|_| committed(s, sys, table, lv, 0, false)).collect();
	let static_first = s.bool();
	let n = sys.log_cap(table) + lv;
	let mut prev = None;
	if static_first || s.bool() {
		let l = *s.pick(&[3usize, 4, 5, 6, 7]);
		let mut b = s.special_u128() & refm::mask(l);
		if b == 1 {
			// 1^e says nothing about e; the protocol does not support this base
			b = 2;
		}
		let result = add(sys, table, lv, n, l, Def::Committed, true);
		let x = Xp { bits: bits.clone(), base: Err((b, l)), result };
		sys.cols[result].vals = sys.exp_values(&x);
		sys.exps.push(x);
		prev = Some(result);
	}
	if s.bool() || prev.is_none() {
		let base = match prev {
			Some(p) if s.bool() => p,
			_ => {
				let l = *s.pick(&[3usize, 4, 5, 6, 7]);
				committed(s, sys, table, lv, l, false)
			}
		};
		let bits = if s.bool() {
			let k = s.range(1, 4);
			(0..k).map(|_| committed(s, sys, table, lv, 0, false)).collect()
		} else {
			bits
		};
		let result = add(sys, table, lv, n, sys.cols[base].level, Def::Committed, true);
		let x = Xp { bits, base: Ok(base), result };
		sys.cols[result].vals = sys.exp_values(&x);
		sys.exps.push(x);
	}
}

fn flushes(s: &mut Src, sys: &mut Sys) {
	sys.channels = s.range(0, 3);
	sys.widths = (0..sys.channels).map(|_| s.range(1, 3)).collect();
	if sys.channels == 0 {
		return;
	}
	for _ in 0..s.range(0, 3) {
		let channel = s.index(sys.channels);
		let full: Vec<usize> = (0..sys.cols.len()).filter(|&c| sys.cols[c].full).collect();
		let first = *s.pick(&full);
		let (table, lv) = (sys.cols[first].table, sys.cols[first].lv);
		let cands = same(sys, table, lv);
		let w = sys.widths[channel];
		let at = s.index(w);
		let cols: Vec<Result<usize, u128>> = (0..w)
			.map(|i| {
				if i == at {
					Ok(first)
				} else if s.chance(1, 5) {
					Err(s.special_u128())
				} else {
					Ok(*s.pick(&cands))
				}
			})
			.collect();
		let mut selectors = vec![];
		for _ in 0..s.weighted(&[3, 3, 1]) {
			let bits: Vec<usize> =
				same(sys, table, lv).into_iter().filter(|c| sys.cols[*c].level == 0).collect();
			let b = if bits.is_empty() || s.chance(1, 2) {
				committed(s, sys, table, lv, 0, false)
			} else {
				*s.pick(&bits)
			};
			selectors.push(b);
		}
		let push = s.bool();
		let mult = match s.weighted(&[6, 2, 2, 1, 1]) {
			0 => 1,
			1 => 2,
			2 => 3,
			3 => 0,
			_ => *s.pick(&[1 << 16, 1 << 31, (1 << 32) + 1, (1 << 63) - 1, 1 << 63, u64::MAX]),
		};
		let f = Fl { table, lv, cols, channel, push, selectors, mult };
		if f.selectors.is_empty() && s.chance(1, 2) && sys.tables[table].size > 0 {
			// the same tuples in another order, in committed columns of their own
			let len = sys.tables[table].size << lv;
			let rot = s.index(len);
			let cols2 = f
				.cols
				.iter()
				.map(|c| match c {
					Err(k) => Err(*k),
					Ok(c) => {
						let (n, wl) = (sys.cols[*c].n, sys.cols[*c].wlevel());
						let src = sys.cols[*c].vals.clone();
						let d = add(sys, table, lv, n, wl, Def::Committed, true);
						let mut v = src.clone();
						for i in 0..len {
							v[i] = src[(i + rot) % len];
						}
						sys.cols[d].vals = v;
						Ok(d)
					}
				})
				.collect();
			sys.flushes.push(Fl { cols: cols2, push: !f.push, ..f.clone() });
		}
		sys.flushes.push(f);
	}
	// what does not balance yet is balanced by mirrored flushes or by boundaries
	for ch in 0..sys.channels {
		let k = sys.net().keys().filter(|(c, _)| *c == ch).count();
		if k > 24 {
			let mirror: Vec<Fl> = sys
				.flushes
				.iter()
				.filter(|f| f.channel == ch)
				.map(|f| Fl { push: !f.push, ..f.clone() })
				.collect();
			sys.flushes.extend(mirror);
		}
	}
	for ((ch, t), m) in sys.net() {
		let mut left = m.unsigned_abs();
		while left > 0 {
			let mult = left.min(u64::MAX.into()) as u64;
			left -= u128::from(mult);
			sys.boundaries.push(Bd { values: t.clone(), channel: ch, push: m < 0, mult });
		}
	}
	// neutral pairs
	if s.chance(1, 3) {
		let ch = s.index(sys.channels);
		let v: Vec<u128> = (0..sys.widths[ch]).map(|_| s.special_u128()).collect();
		let m = if s.chance(1, 6) { s.special_u64() } else { s.range(1, 3) as u64 };
		sys.boundaries.push(Bd { values: v.clone(), channel: ch, push: true, mult: m });
		sys.boundaries.push(Bd { values: v, channel: ch, push: false, mult: m });
	}
}

/// Generates a system and a satisfying witness.
pub fn generate(s: &mut Src, cfg: &Cfg) -> Sys {
	let mut sys = Sys::default();
	let nt = s.range(1, cfg.tables);
	for t in 0..nt {
		let spec = match s.weighted(&[3, 2, 2]) {
			0 => None,
			1 => Some(None),
			_ => Some(Some(s.range(0, cfg.max_log))),
		};
		let size = match spec {
			None => {
				if t > 0 && cfg.empty && s.chance(1, 6) {
					0
				} else {
					{
						let m = s.range(0, cfg.max_log);
						s.range(1, 1 << m)
					}
				}
			}
			Some(None) => 1 << s.range(0, cfg.max_log),
			Some(Some(k)) => 1 << k,
		};
		sys.tables.push(Table { size, spec });
	}
	for t in 0..nt {
		for _ in 0..s.range(1, 2) {
			let lv = if s.bool() { 0 } else { s.range(0, cfg.max_lv) };
			for _ in 0..s.range(1, 3) {
				let level = *s.pick(&LEVELS);
				let nz = s.chance(1, 4);
				let c = committed(s, &mut sys, t, lv, level, nz);
				if nz && s.bool() {
					sys.nonzero.push(c);
				}
			}
		}
		for _ in 0..s.range(0, cfg.virtuals) {
			virtual_col(s, &mut sys, cfg, t);
		}
		constraints(s, &mut sys, t);
		if cfg.exps && s.chance(1, 5) {
			exps(s, &mut sys, t);
		}
	}
	// a commitment of fewer than two 128-bit elements is not supported by the FRI parameters
	while sys.committed_elems() < 2 {
		committed(s, &mut sys, 0, 0, 7, false);
	}
	// derived columns may be declared non-zero as well
	if s.chance(1, 4) {
		for c in 0..sys.cols.len() {
			let col = &sys.cols[c];
			let fit = col.full && sys.live(c) && col.vals.iter().all(|v| *v != 0);
			if fit && !matches!(col.def, Def::Committed) && s.chance(2, 3) {
				sys.nonzero.push(c);
			}
		}
	}
	flushes(s, &mut sys);
	for c in 0..sys.cols.len() {
		let k = sys.cols[c].kind();
		s.label(format!("col:{k}"));
	}
	s.label_if(sys.tables.iter().any(|t| t.size == 0), "empty table");
	s.label_if(sys.tables.iter().any(|t| !t.size.is_power_of_two() && t.size > 0), "non-2^k table");
	s.label_if(!sys.flushes.is_empty(), "flushes");
	s.label_if(sys.flushes.iter().any(|f| !f.selectors.is_empty()), "selectors");
	s.label_if(!sys.exps.is_empty(), "exponentiation");
	s.label_if(!sys.nonzero.is_empty(), "non-zero columns");
	s.label_if(sys.nonzero.iter().any(|c| !matches!(sys.cols[*c].def, Def::Committed)), "derived non-zero columns");
	s.label_if(!sys.csets.is_empty(), "constraints");
	sys
}

/// The rule of a non-trivial system: some virtual column or constraint or flush or exponentiation.
pub fn interesting(sys: &Sys) -> bool {
	!sys.csets.is_empty() || !sys.flushes.is_empty() || !sys.exps.is_empty()
}
