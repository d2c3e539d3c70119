//! M3 tables seen one row at a time: what a column definition makes of the committed cells, what the
//! compiled constraints say about a row, and an adversary that looks for other rows that satisfy them.
#[macro_use]
pub mod shapes;

use std::{cmp::Reverse, collections::BTreeMap};

use anyhow::Result as Any;
use binius_compute::cpu::alloc::CpuComputeAllocator;
use binius_core::{
	constraint_system::{ConstraintSystem as Compiled, channel::Boundary, validate::validate_witness},
	oracle::ShiftVariant,
};
use binius_field::{
	Field, PackedExtension, PackedField, PackedFieldIndexable, TowerField,
	arch::{OptimalUnderlier128b, OptimalUnderlier256b},
	as_packed_field::PackedType,
};
use binius_m3::builder::{
	B1, B8, B16, B32, B64, B128, Col, ColumnDef, ColumnId, ConstraintSystem, StructuredDynSize, Table, TableFiller,
	TableId, TableWitnessSegment, WitnessIndex,
};
use binius_math::ArithCircuit;
use vp::*;

pub type P1 = PackedType<OptimalUnderlier128b, B128>;
pub type P2 = PackedType<OptimalUnderlier256b, B128>;

pub trait Pm:
	PackedFieldIndexable<Scalar = B128>
	+ PackedExtension<B1>
	+ PackedExtension<B8>
	+ PackedExtension<B16>
	+ PackedExtension<B32>
	+ PackedExtension<B64>
	+ PackedExtension<B128>
{
}
impl<T> Pm for T where
	T: PackedFieldIndexable<Scalar = B128>
		+ PackedExtension<B1>
		+ PackedExtension<B8>
		+ PackedExtension<B16>
		+ PackedExtension<B32>
		+ PackedExtension<B64>
		+ PackedExtension<B128>
{
}

/// The values of one row: per column, its stacked values.
pub type Row = Vec<Vec<B128>>;

pub fn bits_of(level: usize) -> usize {
	1 << level
}
pub fn fits(x: B128, level: usize) -> bool {
	level >= 7 || x.val() >> bits_of(level) == 0
}

pub enum Kind {
	Committed,
	Selected { col: usize, index: usize },
	Projected { col: usize, start: usize, size: usize, bits: usize },
	Padded { col: usize, pad: usize, start: usize, at: usize },
	Shifted { col: usize, offset: usize, block: usize, variant: ShiftVariant },
	Packed { col: usize, log_degree: usize },
	Computed { cols: Vec<usize>, expr: ArithCircuit<B128> },
	Constant(Vec<B128>),
	Incrementing,
	Fixed(ArithCircuit<B128>),
	StaticExp { bits: Vec<usize>, base: B128 },
	DynamicExp { bits: Vec<usize>, base: usize },
}

pub struct ColI {
	pub kind: Kind,
	pub name: String,
	pub level: usize,
	pub v: usize,
	pub nonzero: bool,
	pub id: ColumnId,
}

pub struct Con {
	pub name: String,
	pub lanes: usize,
	pub cols: Vec<usize>,
	pub expr: ArithCircuit<B128>,
}

/// One table of a constraint system.
pub struct Tab {
	pub cols: Vec<ColI>,
	pub cons: Vec<Con>,
	map: BTreeMap<ColumnId, usize>,
	users: Vec<Vec<usize>>, // constraints reading a column
	from: Vec<Vec<usize>>,
	lin: Vec<Vec<(usize, B128)>>, // coefficients of a linear computed column
	root: Vec<usize>, // the last committed column a column depends on
	skip: std::cell::RefCell<Vec<usize>>,
}

/// Where an attack starts.
pub enum Start {
	Random,
	/// a bit of a committed column
	Cell(usize),
	/// a cell one of the constraints reads
	Constraint(Vec<usize>),
	/// values of cells
	Cells(Vec<(usize, usize, B128)>),
}

pub fn pow(b: B128, e: u128) -> B128 {
	let mut r = B128::ONE;
	for i in (0..128).rev() {
		r = r * r;
		if e >> i & 1 == 1 {
			r *= b;
		}
	}
	r
}

impl Tab {
	pub fn new(cs: &ConstraintSystem<B128>, ccs: &Compiled<B128>, id: TableId) -> Result<Self, String> {
		let t: &Table<B128> = cs.tables.iter().find(|t| t.id() == id).ok_or("no table")?;
		let map: BTreeMap<ColumnId, usize> = t.columns.iter().enumerate().map(|(i, c)| (c.id, i)).collect();
		let m = |c: &ColumnId| map[c];
		let cols: Vec<ColI> = t
			.columns
			.iter()
			.map(|c| ColI {
				kind: match &c.col {
					ColumnDef::Committed { .. } => Kind::Committed,
					ColumnDef::Selected { col, index, .. } => Kind::Selected { col: m(col), index: *index },
					ColumnDef::Projected { col, start_index, query_size, query_bits } => {
						Kind::Projected { col: m(col), start: *start_index, size: *query_size, bits: *query_bits }
					}
					ColumnDef::ZeroPadded { col, n_pad_vars, start_index, nonzero_index } => {
						Kind::Padded { col: m(col), pad: *n_pad_vars, start: *start_index, at: *nonzero_index }
					}
					ColumnDef::Shifted { col, offset, log_block_size, variant } => {
						Kind::Shifted { col: m(col), offset: *offset, block: *log_block_size, variant: *variant }
					}
					ColumnDef::Packed { col, log_degree } => Kind::Packed { col: m(col), log_degree: *log_degree },
					ColumnDef::Computed { cols, expr } => {
						Kind::Computed { cols: cols.iter().map(m).collect(), expr: expr.clone() }
					}
					ColumnDef::Constant { data, .. } => Kind::Constant(data.clone()),
					ColumnDef::StructuredDynSize(StructuredDynSize::Incrementing { .. }) => Kind::Incrementing,
					ColumnDef::StructuredFixedSize { expr } => Kind::Fixed(expr.clone()),
					ColumnDef::StaticExp { bit_cols, base, .. } => {
						Kind::StaticExp { bits: bit_cols.iter().map(m).collect(), base: *base }
					}
					ColumnDef::DynamicExp { bit_cols, base, .. } => {
						Kind::DynamicExp { bits: bit_cols.iter().map(m).collect(), base: m(base) }
					}
				},
				name: c.name.clone(),
				level: c.shape.tower_height,
				v: 1 << c.shape.log_values_per_row,
				nonzero: c.is_nonzero,
				id: c.id,
			})
			.collect();
		// oracles are made in table and column order, two for a constant column (the second is the
		// one constraints refer to)
		let mut next = 0usize;
		let mut of: BTreeMap<usize, usize> = BTreeMap::new();
		for table in &cs.tables {
			for (i, c) in table.columns.iter().enumerate() {
				if matches!(c.col, ColumnDef::Constant { .. }) {
					next += 1;
				}
				if table.id() == id {
					of.insert(next, i);
				}
				next += 1;
			}
		}
		let mut cons = vec![];
		for set in ccs.table_constraints.iter().filter(|s| s.table_id == id) {
			let ids: Vec<usize> = set
				.oracle_ids
				.iter()
				.map(|o| of.get(&o.index()).copied().ok_or_else(|| format!("oracle {o} is no column of the table")))
				.collect::<Result<_, _>>()?;
			for c in &set.constraints {
				let used = c.composition.vars_usage();
				let keep: Vec<usize> = (0..used.len()).filter(|i| used[*i]).collect();
				let mut remap = vec![0; ids.len().max(used.len())];
				for (n, o) in keep.iter().enumerate() {
					remap[*o] = n;
				}
				cons.push(Con {
					name: c.name.clone(),
					lanes: 1 << set.log_values_per_row,
					cols: keep.iter().map(|i| ids[*i]).collect(),
					expr: c.composition.remap_vars(&remap).map_err(|e| format!("{e}"))?,
				});
			}
		}
		let mut users = vec![vec![]; cols.len()];
		for (k, c) in cons.iter().enumerate() {
			for i in &c.cols {
				users[*i].push(k);
			}
		}
		let mut t = Tab { cols, cons, map, users, from: vec![], lin: vec![], root: vec![], skip: Default::default() };
		t.from = (0..t.cols.len()).map(|i| t.sources(i)).collect();
		for i in 0..t.cols.len() {
			let r = if t.committed(i) { i } else { t.from[i].iter().map(|c| t.root[*c]).max().unwrap_or(0) };
			t.root.push(r);
			t.lin.push(match &t.cols[i].kind {
				Kind::Computed { cols, expr } => expr.linear_normal_form().map_or(vec![], |l| {
					cols.iter().copied().zip(l.var_coeffs.iter().copied()).filter(|(_, c)| *c != B128::ZERO).collect()
				}),
				_ => vec![],
			});
		}
		Ok(t)
	}
	pub fn at<F: TowerField, const V: usize>(&self, c: Col<F, V>) -> usize {
		self.map[&c.id()]
	}
	/// The columns a column is computed from.
	pub fn sources(&self, i: usize) -> Vec<usize> {
		match &self.cols[i].kind {
			Kind::Committed | Kind::Constant(_) | Kind::Incrementing | Kind::Fixed(_) => vec![],
			Kind::Selected { col, .. }
			| Kind::Projected { col, .. }
			| Kind::Padded { col, .. }
			| Kind::Shifted { col, .. }
			| Kind::Packed { col, .. } => vec![*col],
			Kind::Computed { cols, .. } => cols.clone(),
			Kind::StaticExp { bits, .. } => bits.clone(),
			Kind::DynamicExp { bits, base } => bits.iter().copied().chain([*base]).collect(),
		}
	}
	pub fn committed(&self, i: usize) -> bool {
		matches!(self.cols[i].kind, Kind::Committed)
	}
	/// The value the definition of column `i` gives to row number `r`.
	pub fn define(&self, i: usize, row: &Row, r: usize) -> Option<Vec<B128>> {
		let v = self.cols[i].v;
		Some(match &self.cols[i].kind {
			Kind::Committed => return None,
			Kind::Selected { col, index } => vec![row[*col][*index]],
			Kind::Projected { col, start, size, bits } => (0..v)
				.map(|k| {
					let low = k & ((1 << start) - 1);
					let high = k >> start;
					row[*col][low | bits << start | high << (start + size)]
				})
				.collect(),
			Kind::Padded { col, pad, start, at } => (0..v)
				.map(|k| {
					let low = k & ((1 << start) - 1);
					let mid = (k >> start) & ((1 << pad) - 1);
					let high = k >> (start + pad);
					if mid == *at { row[*col][low | high << start] } else { B128::ZERO }
				})
				.collect(),
			Kind::Shifted { col, offset, block, variant } => {
				let n = 1usize << block;
				(0..v)
					.map(|k| {
						let (b, j) = (k / n * n, k % n);
						match variant {
							ShiftVariant::CircularLeft => row[*col][b + (j + n - offset % n) % n],
							ShiftVariant::LogicalLeft => {
								if j >= *offset { row[*col][b + j - offset] } else { B128::ZERO }
							}
							ShiftVariant::LogicalRight => {
								if j + offset < n { row[*col][b + j + offset] } else { B128::ZERO }
							}
						}
					})
					.collect()
			}
			Kind::Packed { col, log_degree } => {
				let w = bits_of(self.cols[*col].level);
				(0..v)
					.map(|k| {
						let mut x = 0u128;
						for j in 0..1 << log_degree {
							x |= row[*col][(k << log_degree) + j].val() << (j * w);
						}
						B128::new(x)
					})
					.collect()
			}
			Kind::Computed { cols, expr } => (0..v)
				.map(|k| {
					let q: Vec<B128> = cols.iter().map(|c| row[*c][k]).collect();
					expr.evaluate(&q).expect("enough variables")
				})
				.collect(),
			Kind::Constant(d) => d.clone(),
			Kind::Incrementing => vec![B128::new(r as u128)],
			Kind::Fixed(e) => {
				let q: Vec<B128> =
					(0..e.n_vars()).map(|b| if r >> b & 1 == 1 { B128::ONE } else { B128::ZERO }).collect();
				vec![e.evaluate(&q).expect("enough variables")]
			}
			Kind::StaticExp { bits, base } => vec![pow(*base, self.number(row, bits))],
			Kind::DynamicExp { bits, base } => vec![pow(row[*base][0], self.number(row, bits))],
		})
	}
	pub fn number(&self, row: &Row, bits: &[usize]) -> u128 {
		bits.iter().enumerate().map(|(k, c)| (row[*c][0].val() & 1) << k).sum()
	}
	pub fn derive(&self, row: &mut Row, r: usize) {
		for i in 0..self.cols.len() {
			if let Some(x) = self.define(i, row, r) {
				row[i] = x;
			}
		}
	}
	/// Recomputes what depends on the columns marked dirty; returns the constraints to look at again.
	fn rederive(&self, row: &mut Row, r: usize, dirty: &mut [bool]) -> Vec<usize> {
		self.rederive_saving(row, r, dirty, &mut BTreeMap::new())
	}
	fn rederive_saving(&self, row: &mut Row, r: usize, dirty: &mut [bool], saved: &mut BTreeMap<usize, Vec<B128>>) -> Vec<usize> {
		let mut again = std::collections::BTreeSet::new();
		for i in 0..self.cols.len() {
			if !dirty[i] && self.from[i].iter().any(|c| dirty[*c]) {
				if let Some(x) = self.define(i, row, r) {
					if row[i] != x {
						let old = std::mem::replace(&mut row[i], x);
						saved.entry(i).or_insert(old);
						dirty[i] = true;
					}
				}
			}
			if dirty[i] {
				again.extend(self.users[i].iter().copied());
			}
		}
		again.into_iter().collect()
	}
	pub fn residual(&self, k: usize, row: &Row, lane: usize) -> B128 {
		let c = &self.cons[k];
		let q: Vec<B128> = c.cols.iter().map(|i| row[*i][lane]).collect();
		c.expr.evaluate(&q).expect("enough variables")
	}
	/// The change of column `c` that makes a constraint hold in a lane if it is linear in the column.
	fn step(&self, k: usize, row: &Row, lane: usize, c: usize) -> Option<B128> {
		let e = &self.cons[k];
		let mut q: Vec<B128> = e.cols.iter().map(|i| row[*i][lane]).collect();
		let d = e.expr.evaluate(&q).expect("enough variables");
		for (x, i) in q.iter_mut().zip(&e.cols) {
			if *i == c {
				*x += B128::ONE;
			}
		}
		let a = d + e.expr.evaluate(&q).expect("enough variables");
		(a != B128::ZERO).then(|| d * a.invert_or_zero())
	}
	/// The column to change first when going forward.
	fn last(&self, coeffs: &[(usize, B128)]) -> usize {
		(0..coeffs.len()).max_by_key(|k| self.root[coeffs[*k].0]).unwrap_or(0)
	}
	fn bad_lane(&self, k: usize, row: &Row) -> Option<usize> {
		if self.skip.borrow().contains(&k) {
			return None;
		}
		(0..self.cons[k].lanes).find(|l| self.residual(k, row, *l) != B128::ZERO)
	}
	pub fn violated(&self, row: &Row) -> Option<(usize, usize)> {
		(0..self.cons.len()).find_map(|k| self.bad_lane(k, row).map(|l| (k, l)))
	}
	/// Ways to change committed cells so that value `lane` of column `i` changes by `d`.
	fn moves(&self, s: &mut Src, row: &Row, i: usize, lane: usize, d: B128, forward: bool, depth: usize) -> Option<Vec<(usize, usize, B128)>> {
		if depth > 40 || !fits(d, self.cols[i].level) {
			return None;
		}
		match &self.cols[i].kind {
			Kind::Committed => Some(vec![(i, lane, d)]),
			Kind::Selected { col, index } => self.moves(s, row, *col, *index, d, forward, depth + 1),
			Kind::Projected { col, start, size, bits } => {
				let low = lane & ((1 << start) - 1);
				let high = lane >> start;
				self.moves(s, row, *col, low | bits << start | high << (start + size), d, forward, depth + 1)
			}
			Kind::Padded { col, pad, start, at } => {
				let low = lane & ((1 << start) - 1);
				if (lane >> start) & ((1 << pad) - 1) != *at {
					return None;
				}
				self.moves(s, row, *col, low | (lane >> (start + pad)) << start, d, forward, depth + 1)
			}
			Kind::Shifted { col, offset, block, variant } => {
				let n = 1usize << block;
				let (b, j) = (lane / n * n, lane % n);
				let src = match variant {
					ShiftVariant::CircularLeft => b + (j + n - offset % n) % n,
					ShiftVariant::LogicalLeft if j >= *offset => b + j - offset,
					ShiftVariant::LogicalRight if j + offset < n => b + j + offset,
					_ => return None,
				};
				self.moves(s, row, *col, src, d, forward, depth + 1)
			}
			Kind::Packed { col, log_degree } => {
				let w = bits_of(self.cols[*col].level);
				let mut out = vec![];
				for j in 0..1usize << log_degree {
					let part = d.val() >> (j * w) & if w == 128 { u128::MAX } else { (1 << w) - 1 };
					if part != 0 {
						out.extend(self.moves(s, row, *col, (lane << log_degree) + j, B128::new(part), forward, depth + 1)?);
					}
				}
				Some(out)
			}
			Kind::Computed { .. } => {
				let coeffs = &self.lin[i];
				// one column alone
				let first = if forward { self.last(coeffs) } else { s.draw(u64::MAX) as usize };
				for k in 0..coeffs.len() {
					let (c, a) = coeffs[(first.wrapping_add(k)) % coeffs.len()];
					let need = d * a.invert_or_zero();
					if fits(need, self.cols[c].level)
						&& let Some(m) = self.moves(s, row, c, lane, need, forward, depth + 1)
					{
						return Some(m);
					}
				}
				// several bit columns together
				let mut basis: Vec<(u128, u128)> = vec![]; // value, set of columns
				for (k, (c, a)) in coeffs.iter().enumerate().take(128) {
					if self.cols[*c].level != 0 {
						continue;
					}
					let (mut x, mut set) = (a.val(), 1u128 << k);
					for (y, t) in &basis {
						if x ^ y < x {
							x ^= y;
							set ^= t;
						}
					}
					if x != 0 {
						basis.push((x, set));
						basis.sort_by(|a, b| b.0.cmp(&a.0));
					}
				}
				let (mut x, mut set) = (d.val(), 0u128);
				for (y, t) in &basis {
					if x ^ y < x {
						x ^= y;
						set ^= t;
					}
				}
				if x != 0 {
					return None;
				}
				let mut out = vec![];
				for (k, (c, _)) in coeffs.iter().enumerate().take(128) {
					if set >> k & 1 == 1 {
						out.extend(self.moves(s, row, *c, lane, B128::ONE, forward, depth + 1)?);
					}
				}
				Some(out)
			}
			_ => None,
		}
	}
	/// For a constraint between powers, the bits that make the one the product of the others.
	fn product(&self, row: &Row, k: usize) -> Option<Vec<(usize, usize, B128)>> {
		let cols = &self.cons[k].cols;
		let dynamic = cols.iter().find_map(|c| match &self.cols[*c].kind {
			Kind::DynamicExp { bits, base } => Some((bits, *base)),
			_ => None,
		})?;
		let Kind::StaticExp { bits: xs, base: g } = &self.cols[dynamic.1].kind else { return None };
		let (x, y) = (self.number(row, xs), self.number(row, dynamic.0));
		let mut z = x.checked_mul(y)?;
		let mut out = vec![];
		let mut parts: Vec<(&Vec<usize>, B128)> = cols
			.iter()
			.filter_map(|c| match &self.cols[*c].kind {
				Kind::StaticExp { bits, base } => Some((bits, *base)),
				_ => None,
			})
			.collect();
		parts.sort_by_key(|p| p.1 != *g);
		for (bits, _) in parts {
			for b in bits {
				let old = row[*b][0];
				let new = B128::new(z & 1);
				if old != new {
					out.push((*b, 0, old + new));
				}
				z >>= 1;
			}
		}
		Some(out)
	}
	/// The number of bits in the columns that may be changed.
	pub fn cells(&self, locked: &[bool]) -> usize {
		(0..self.cols.len()).filter(|i| self.committed(*i) && !locked[*i]).map(|i| self.cols[i].v * bits_of(self.cols[i].level)).sum()
	}
	/// Changes some cells of a satisfying row, then repairs the constraints this breaks by changing
	/// further cells. Returns the number of repairs if in the end all constraints hold again.
	pub fn attack(&self, s: &mut Src, row: &mut Row, r: usize, other: Option<&Row>, locked: &[bool], steps: usize, start_with: Start) -> Option<usize> {
		let free: Vec<usize> = (0..self.cols.len()).filter(|i| self.committed(*i) && !locked[*i]).collect();
		if free.is_empty() {
			return None;
		}
		let mut touched: BTreeMap<(usize, usize), u32> = BTreeMap::new();
		let mut dirty = vec![false; self.cols.len()];
		let start = row.clone();
		let mode = match &start_with {
			Start::Cell(_) => 3,
			Start::Cells(_) => 4,
			Start::Constraint(_) => 6,
			Start::Random => [0, 1, 2, 5][s.weighted(&[4, 2, 2, if other.is_some() { 3 } else { 0 }])],
		};
		match mode {
			3 => {
				let Start::Cell(mut n) = start_with else { unreachable!() };
				for i in &free {
					let here = self.cols[*i].v * bits_of(self.cols[*i].level);
					if n < here {
						let (lane, bit) = (n / bits_of(self.cols[*i].level), n % bits_of(self.cols[*i].level));
						row[*i][lane] += B128::new(1 << bit);
						touched.insert((*i, lane), 100);
						dirty[*i] = true;
						break;
					}
					n -= here;
				}
			}
			4 => {
				let Start::Cells(v) = start_with else { unreachable!() };
				for (i, lane, x) in v {
					if locked[i] || !self.committed(i) {
						return None;
					}
					if row[i][lane] != x {
						row[i][lane] = x;
						dirty[i] = true;
					}
					touched.insert((i, lane), 100);
				}
			}
			6 => {
				let Start::Constraint(ks) = start_with else { unreachable!() };
				// where no other constraint notices, if there is such a place
				let mut tries = if s.bool() { 300 } else { 1 };
				let (i, lane, d) = loop {
					let k = *s.pick(&ks);
					let c = &self.cons[k];
					let lane = s.index(c.lanes);
					let i = if s.chance(1, 4) { *s.pick(&c.cols) } else { *c.cols.iter().max_by_key(|i| (self.root[**i], **i)).expect("a column") };
					let old = row[i][lane];
					let d = match s.index(4) {
						0 if old != B128::ZERO => old,
						1 if old != B128::ONE => old + B128::ONE,
						_ => B128::new(1 << s.index(bits_of(self.cols[i].level))),
					};
					tries -= 1;
					if tries == 0 {
						break (i, lane, d);
					}
					row[i][lane] = old + d;
					let fine = self.users[i].iter().all(|u| ks.contains(u) || self.residual(*u, row, lane) == B128::ZERO);
					row[i][lane] = old;
					if fine {
						break (i, lane, d);
					}
				};
				let ms = self.moves(s, row, i, lane, d, true, 0)?;
				if ms.iter().any(|(i, _, _)| locked[*i]) {
					return None;
				}
				for (i, lane, x) in ms {
					row[i][lane] += x;
					dirty[i] = true;
					touched.insert((i, lane), 100);
				}
			}
			0 => {
				for _ in 0..s.range(1, 3) {
					let i = *s.pick(&free);
					let lane = s.index(self.cols[i].v);
					let bit = s.index(bits_of(self.cols[i].level));
					row[i][lane] += B128::new(1 << bit);
					touched.insert((i, lane), 100);
					dirty[i] = true;
				}
			}
			1 => {
				let i = *s.pick(&free);
				let lane = s.index(self.cols[i].v);
				let w = bits_of(self.cols[i].level);
				let mask = if w == 128 { u128::MAX } else { (1u128 << w) - 1 };
				row[i][lane] = B128::new(s.special_u128() & mask);
				touched.insert((i, lane), 100);
				dirty[i] = true;
			}
			5 => {
				// a part of another satisfying row
				let o = other?;
				let a = if s.chance(1, 3) { 0 } else { s.index(self.cols.len()) };
				let b = if a == 0 || s.bool() { self.cols.len() } else { s.range(a, self.cols.len() - 1) + 1 };
				let low = s.bool();
				let (x, y) = if s.bool() { (0, 8) } else { let x = s.index(8); (x, s.range(x, 7) + 1) };
				for i in &free {
					if (*i >= a && *i < b) == low {
						continue;
					}
					for lane in 0..self.cols[*i].v {
						if lane * 8 / self.cols[*i].v < x || lane * 8 / self.cols[*i].v >= y {
							continue;
						}
						if row[*i][lane] != o[*i][lane] {
							row[*i][lane] = o[*i][lane];
							dirty[*i] = true;
						}
					}
				}
			}
			_ => {
				// cells of another satisfying row
				let o = other?;
				let n = s.range(1, free.len().min(6));
				let from = s.index(free.len());
				for k in 0..n {
					let i = free[(from + k) % free.len()];
					row[i] = o[i].clone();
					for lane in 0..self.cols[i].v {
						touched.insert((i, lane), 100);
					}
					dirty[i] = true;
				}
			}
		}
		if *row == start {
			return None;
		}
		let mut todo: std::collections::BTreeSet<usize> = self.rederive(row, r, &mut dirty).into_iter().collect();
		let mut repairs = 0;
		let order = if mode == 6 && s.chance(3, 4) { 2 } else { s.index(4) };
		// constraints no repair was found for since the last one that succeeded
		let mut stuck = std::collections::BTreeSet::new();
		while let Some(k) = todo.iter().find(|k| !stuck.contains(*k)).copied() {
			let bad: Vec<usize> = if self.skip.borrow().contains(&k) { vec![] } else { (0..self.cons[k].lanes).filter(|l| self.residual(k, row, *l) != B128::ZERO).collect() };
			if bad.is_empty() {
				todo.remove(&k);
				continue;
			}
			if repairs == if order == 2 { steps } else { steps.min(600) } {
				if std::env::var("VP_DBG").is_ok() { eprintln!("DBG out of steps order {order} mode {mode}"); }
				return None;
			}
			let n = self.cons[k].cols.len();
			let first = s.index(n);
			let mut fixed = false;
			let mut cand: Vec<usize> = (0..n).map(|j| self.cons[k].cols[(first + j) % n]).collect();
			match order {
				0 => {}
				1 => cand.sort(),
				_ => cand.sort_by_key(|c| Reverse((self.root[*c], *c))),
			}
			if order == 2 && let Some(last) = cand.iter().map(|c| self.root[*c]).max() {
				cand.retain(|c| self.root[*c] == last);
			}
			let n = cand.len();
			let product = self.product(row, k);
			for j in 0..n + usize::from(product.is_some()) {
				let ms = if j == n {
					product.clone()
				} else {
					let mut all = Some(vec![]);
					for lane in &bad {
						let m = self.step(k, row, *lane, cand[j]).and_then(|d| self.moves(s, row, cand[j], *lane, d, order >= 2, 0));
						match (&mut all, m) {
							(Some(v), Some(m)) => v.extend(m),
							_ => {
								all = None;
								break;
							}
						}
					}
					all
				};
				let Some(ms) = ms else { continue };
				if ms.iter().any(|(i, l, _)| locked[*i] || touched.get(&(*i, *l)).copied().unwrap_or(0) >= 100) {
					continue;
				}
				let mut saved: BTreeMap<usize, Vec<B128>> = BTreeMap::new();
				let mut dirty = vec![false; self.cols.len()];
				for (i, l, x) in &ms {
					saved.entry(*i).or_insert_with(|| row[*i].clone());
					row[*i][*l] += *x;
					dirty[*i] = true;
				}
				let more = self.rederive_saving(row, r, &mut dirty, &mut saved);
				if bad.iter().all(|l| self.residual(k, row, *l) == B128::ZERO) {
					for (i, l, _) in &ms {
						let e = touched.entry((*i, *l)).or_insert(0);
						*e += 30;
					}
					for k in &more {
						stuck.remove(k);
					}
					todo.extend(more);
					fixed = true;
					break;
				}
				for (i, v) in saved {
					row[i] = v;
				}
			}
			if !fixed {
				stuck.insert(k);
				continue;
			}
			repairs += 1;
		}
		if !todo.is_empty() {
			if std::env::var("VP_DBG").is_ok() { eprintln!("DBG stuck at {} after {repairs} order {order} mode {mode}", self.cons[*todo.first().expect("one")].name); }
			return None;
		}
		if *row == start { None } else { Some(repairs) }
	}
}

// ------------------------------------------------------------------------------------------------
// witnesses

pub type FillFn<'a, P, E> = dyn Fn(&[E], &mut TableWitnessSegment<P>) -> Any<()> + Sync + 'a;
pub struct Fill<'a, P: Pm, E> {
	pub id: TableId,
	pub f: &'a FillFn<'a, P, E>,
}
impl<P: Pm, E: Clone> TableFiller<P> for Fill<'_, P, E> {
	type Event = E;
	fn id(&self) -> TableId {
		self.id
	}
	fn fill(&self, rows: &[E], w: &mut TableWitnessSegment<P>) -> Any<()> {
		(self.f)(rows, w)
	}
}

/// How a table is filled.
#[derive(Clone, Copy, Debug)]
pub enum How {
	Seq,
	Par,
	SeqSeg(usize),
	ParSeg(usize),
}
pub fn how(s: &mut Src) -> How {
	match s.index(4) {
		0 => How::Seq,
		1 => How::Par,
		2 => How::SeqSeg(s.range(0, 8)),
		_ => How::ParSeg(s.range(0, 8)),
	}
}

pub fn fill<P: Pm, E: Clone + Sync>(w: &mut WitnessIndex<P>, how: How, f: &Fill<P, E>, rows: &[E]) -> Res {
	let e = |x: binius_m3::builder::Error| format!("filling the table failed: {x}");
	match how {
		How::Seq => w.fill_table_sequential(f, rows).map_err(e),
		How::Par => w.fill_table_parallel(f, rows).map_err(e),
		How::SeqSeg(n) => {
			w.init_table(f.id, rows.len()).map_err(e)?;
			w.get_table(f.id).ok_or("no table")?.fill_sequential_with_segment_size(f, rows, n).map_err(e)
		}
		How::ParSeg(n) => {
			w.init_table(f.id, rows.len()).map_err(e)?;
			w.get_table(f.id).ok_or("no table")?.fill_parallel_with_segment_size(f, rows, n).map_err(e)
		}
	}
}

/// Every row of a filled table, padding included.
pub fn snapshot<P: Pm>(w: &mut WitnessIndex<P>, tab: &Tab, id: TableId) -> Result<Vec<Row>, String> {
	let t = w.get_table(id).ok_or("table not filled")?;
	let n = t.capacity();
	let seg = t.full_segment();
	let mut rows: Vec<Row> = (0..n).map(|_| Vec::with_capacity(tab.cols.len())).collect();
	for c in &tab.cols {
		let view = seg.get_dyn(c.id).map_err(|e| format!("{e}"))?;
		for (r, row) in rows.iter_mut().enumerate() {
			row.push((0..c.v).map(|l| view.get(r * c.v + l)).collect());
		}
	}
	Ok(rows)
}
/// Writes rows to an initialized table.
pub fn restore<P: Pm>(w: &mut WitnessIndex<P>, tab: &Tab, id: TableId, rows: &[Row]) -> Res {
	let t = w.get_table(id).ok_or("table not initialized")?;
	let seg = t.full_segment();
	for (i, c) in tab.cols.iter().enumerate() {
		let mut view = seg.get_dyn_mut(c.id).map_err(|e| format!("{e}"))?;
		for (r, row) in rows.iter().enumerate() {
			for l in 0..c.v {
				view.set(r * c.v + l, row[i][l]).map_err(|e| format!("{e}"))?;
			}
		}
	}
	Ok(())
}

pub fn alloc_size(cs: &ConstraintSystem<B128>, sizes: &[(TableId, usize)]) -> usize {
	let mut n = 0;
	for t in &cs.tables {
		if let Some((_, size)) = sizes.iter().find(|(i, _)| *i == t.id()) {
			let cap = size.next_power_of_two();
			n += t.columns.iter().map(|c| ((cap << c.shape.log_cell_size()) >> 7) + 4).sum::<usize>();
		}
	}
	(n + 16).next_power_of_two()
}

pub fn validated<P: Pm>(ccs: &Compiled<B128>, w: WitnessIndex<P>, b: &[Boundary<B128>]) -> Res {
	let sizes = w.table_sizes();
	let index = w.into_multilinear_extension_index();
	validate_witness(ccs, b, &sizes, &index).map_err(|e| format!("{e:?}").chars().take(300).collect())
}

/// A value of some bits.
pub fn word(row: &Row, i: usize) -> u128 {
	row[i].iter().enumerate().map(|(k, b)| (b.val() & 1) << k).sum()
}

/// A gadget in a table of its own.
pub struct Gad<'a, P: Pm, E> {
	pub name: String,
	pub cs: &'a ConstraintSystem<B128>,
	pub id: TableId,
	pub rows: Vec<E>,
	pub fill: &'a FillFn<'a, P, E>,
	/// columns the adversary does not get to choose in half of the cases
	pub inputs: Vec<usize>,
	pub check: &'a (dyn Fn(&Row) -> Res + 'a),
	/// the row holds the inputs of this event
	pub given: &'a (dyn Fn(&Row, &E) -> Res + 'a),
	/// fills further tables
	pub more: &'a (dyn Fn(&mut WitnessIndex<P>) -> Res + 'a),
	pub sizes: Vec<(TableId, usize)>,
	/// cells of a row that might be something else
	pub hint: &'a (dyn Fn(&mut Src, &Row) -> Vec<(usize, usize, B128)> + 'a),
	pub attacks: usize,
	pub steps: usize,
	/// of 10 attacks, how many start at a cell, a constraint, a hint; the others start anywhere
	pub plan: [usize; 3],
	pub lookups: bool,
}

impl<P: Pm, E: Clone + Sync> Gad<'_, P, E> {
	fn exps(&self, tab: &Tab) -> bool {
		tab.cols.iter().any(|c| matches!(c.kind, Kind::StaticExp { .. } | Kind::DynamicExp { .. }))
	}
	fn with_witness<T>(&self, f: impl FnOnce(WitnessIndex<P>) -> Result<T, String>) -> Result<T, String> {
		let mut sizes = self.sizes.clone();
		sizes.push((self.id, self.rows.len()));
		let mut a = CpuComputeAllocator::<P>::new(alloc_size(self.cs, &sizes));
		let bump = a.into_bump_allocator();
		let w = WitnessIndex::<P>::new(self.cs, &bump);
		f(w)
	}
	pub fn run(&self, s: &mut Src, ccs: &Compiled<B128>, tab: &Tab) -> Res {
		let h = how(s);
		s.desc(format!("{} rows {} fill {h:?} width {}", self.name, self.rows.len(), P::WIDTH));
		s.label(self.name.clone());
		let exps = self.exps(tab);
		// completeness
		let mut rows = self.with_witness(|mut w| {
			fill(&mut w, h, &Fill { id: self.id, f: self.fill }, &self.rows)?;
			w.fill_constant_cols().map_err(|e| format!("{e}"))?;
			snapshot(&mut w, tab, self.id)
		})?;
		for (r, row) in rows.iter().enumerate() {
			match self.rows.get(r) {
				Some(e) => (self.given)(row, e).map_err(|m| format!("{}: row {r}: inputs are not those of the event: {m}", self.name))?,
				// padding repeats rows
				None => ck!(rows[..self.rows.len()].contains(row), "{}: padding row {r} is no copy of a row of the table", self.name),
			}
			(self.check)(row).map_err(|m| format!("{}: row {r} of the populated witness: {m}", self.name))?;
		}
		if exps {
			// exponentiation results are filled in by the prover
			for (r, row) in rows.iter_mut().enumerate() {
				for i in 0..tab.cols.len() {
					if matches!(tab.cols[i].kind, Kind::StaticExp { .. } | Kind::DynamicExp { .. }) {
						row[i] = tab.define(i, row, r).expect("derived");
					}
				}
			}
		}
		let accept = |rows: &[Row]| -> Res {
			self.with_witness(|mut w| {
				w.init_table(self.id, self.rows.len()).map_err(|e| format!("{e}"))?;
				restore(&mut w, tab, self.id, rows)?;
				(self.more)(&mut w)?;
				validated(ccs, w, &[])
			})
		};
		accept(&rows).map_err(|e| format!("{}: the populated witness is refused: {e}", self.name))?;
		for (r, row) in rows.iter().enumerate() {
			for i in 0..tab.cols.len() {
				if let Some(x) = tab.define(i, row, r) {
					ck!(x == row[i], "{}: accepted, but column {} of row {r} is {:?} where its definition gives {x:?}", self.name, tab.cols[i].name, row[i]);
				}
			}
			if let Some((k, l)) = tab.violated(row) {
				return Err(format!("{}: accepted, but constraint {} fails in row {r} lane {l}", self.name, tab.cons[k].name));
			}
		}
		s.nontrivial_if(self.rows.len() > 1);
		// no other row satisfies the constraints unless it too computes the function
		let mut reached = 0;
		// to measure the adversary, take one constraint away
		let missing = (std::env::var("VP_MUT").is_ok() && !tab.cons.is_empty()).then(|| s.index(tab.cons.len()));
		let mut hit = false;
		let mut classes: BTreeMap<String, Vec<usize>> = BTreeMap::new();
		for (k, c) in tab.cons.iter().enumerate() {
			classes.entry(c.name.chars().filter(|c| !c.is_ascii_digit()).collect()).or_default().push(k);
		}
		let mut classes: Vec<Vec<usize>> = classes.into_values().collect();
		if let Some(k) = missing {
			// 1: one constraint is missing, 2: and attacked, 3: all of its kind are missing
			let mode = std::env::var("VP_MUT").unwrap_or_default();
			let class = classes.iter().find(|c| c.contains(&k)).expect("a class").clone();
			tab.skip.replace(if mode == "3" { class } else { vec![k] });
			if mode == "2" {
				classes = vec![vec![k]];
			}
		}
		let from = s.draw(u64::MAX) as usize;
		for a in 0..self.attacks {
			let r = s.index(rows.len());
			let o = s.index(rows.len());
			let mut locked = vec![false; tab.cols.len()];
			let lock = s.bool();
			if lock {
				for i in &self.inputs {
					locked[*i] = true;
				}
			}
			let [p, q, h] = self.plan;
			let start = match a % 10 {
				x if x < p => {
					let n = tab.cells(&locked);
					if n == 0 { continue }
					Start::Cell(from.wrapping_add(a) % n)
				}
				x if x < p + q && !tab.cons.is_empty() => {
					let class = &classes[from.wrapping_add(a / 10 * q + x - p) % classes.len()];
					Start::Constraint(class.clone())
				}
				x if x < p + q + h => Start::Cells((self.hint)(s, &rows[r])),
				_ => Start::Random,
			};
			let mut row = rows[r].clone();
			let Some(n) = tab.attack(s, &mut row, r, if o != r { Some(&rows[o]) } else { None }, &locked, self.steps, start) else { continue };
			reached += 1;
			s.label(if n > 0 { "attack ends in a satisfying row after repairs" } else { "attack ends in a satisfying row at once" });
			if tab.cols.iter().enumerate().any(|(i, c)| c.nonzero && row[i].iter().any(|x| *x == B128::ZERO)) {
				continue;
			}
			let Err(m) = (self.check)(&row) else { continue };
			if missing.is_some() {
				hit = true;
				break;
			}
			let mut forged = rows.clone();
			forged[r] = row;
			match accept(&forged) {
				Ok(()) => {
					return Err(format!("{}: a witness that is not an execution is accepted: {m} (row {r}, {n} repairs, inputs {})", self.name, if lock { "kept" } else { "free" }));
				}
				Err(e) => {
					// only a channel can see what the row constraints do not
					ck!(self.lookups, "{}: all constraints of the row hold, but the witness is refused: {e}", self.name);
					s.label("forged lookup refused");
				}
			}
		}
		if let Some(k) = missing {
			tab.skip.take();
			let base = self.name.split(' ').next().expect("a name");
			s.label(format!("{} {base}", if hit { "caught" } else { "missed" }));
			if !hit {
				let n: String = tab.cons[k].name.chars().filter(|c| !c.is_ascii_digit()).collect();
				s.label(format!("missed {base} {n}"));
			}
		}
		s.label_if(reached > 0, "some attack ends in a satisfying row");
		Ok(())
	}
}

pub fn col_ids<const N: usize, F: TowerField, const V: usize>(tab: &Tab, c: &[Col<F, V>; N]) -> Vec<usize> {
	c.iter().map(|c| tab.at(*c)).collect()
}
