//! The table builder: a compiled system means what the calls that built it say.
use std::{any::Any, collections::BTreeMap};

use binius_compute::cpu::alloc::CpuComputeAllocator;
use binius_core::{
	constraint_system::channel::{Boundary, FlushDirection},
	oracle::ShiftVariant,
};
use binius_field::{ExtensionField, Field, TowerField, packed::get_packed_slice};
use binius_m3::builder::{
	B1, B8, B16, B32, B64, B128, Col, ConstraintSystem, Expr, FlushOpts, StructuredDynSize, TableBuilder, WitnessIndex, upcast_col, upcast_expr,
};
use binius_math::{ArithCircuit, ArithExpr};
use c_m3::{
	grow, packing, shape,
	shapes::{PACKINGS, SHAPES},
	*,
};
use vp::*;

/// Fields whose columns can be upcast from any lower level.
trait Up: TowerField + ExtensionField<B1> {
	fn up<const V: usize>(c: &dyn Any, level: usize) -> Col<Self, V>;
	fn of(x: u128) -> Self;
	/// an expression over a lower field
	fn lift<const V: usize>(c: &dyn Any, level: usize) -> Expr<Self, V>;
}
macro_rules! up {
	($f:ty, $bits:ty, [$($l:literal $g:ty),*]) => {
		impl Up for $f {
			fn up<const V: usize>(c: &dyn Any, level: usize) -> Col<Self, V> {
				match level {
					$($l => upcast_col(*c.downcast_ref::<Col<$g, V>>().expect("the column's type")),)*
					_ => unreachable!(),
				}
			}
			fn lift<const V: usize>(c: &dyn Any, level: usize) -> Expr<Self, V> {
				match level {
					$($l => upcast_expr(Expr::from(*c.downcast_ref::<Col<$g, V>>().expect("the column's type"))),)*
					_ => unreachable!(),
				}
			}
			fn of(x: u128) -> Self {
				<$f>::new(x as $bits)
			}
		}
	};
}
impl Up for B1 {
	fn up<const V: usize>(c: &dyn Any, _: usize) -> Col<Self, V> {
		*c.downcast_ref::<Col<B1, V>>().expect("the column's type")
	}
	fn lift<const V: usize>(c: &dyn Any, _: usize) -> Expr<Self, V> {
		Expr::from(Self::up(c, 0))
	}
	fn of(x: u128) -> Self {
		B1::from(x & 1 == 1)
	}
}
up!(B8, u8, [0 B1, 3 B8]);
up!(B16, u16, [0 B1, 3 B8, 4 B16]);
up!(B32, u32, [0 B1, 3 B8, 4 B16, 5 B32]);
up!(B64, u64, [0 B1, 3 B8, 4 B16, 5 B32, 6 B64]);
up!(B128, u128, [0 B1, 3 B8, 4 B16, 5 B32, 6 B64, 7 B128]);

#[derive(Clone, Debug)]
enum Ast {
	Col(usize),
	Const(B128),
	Add(Box<Ast>, Box<Ast>),
	Sub(Box<Ast>, Box<Ast>),
	Mul(Box<Ast>, Box<Ast>),
	Pow(Box<Ast>, u64),
}
impl Ast {
	fn eval(&self, get: &dyn Fn(usize) -> B128) -> B128 {
		match self {
			Ast::Col(i) => get(*i),
			Ast::Const(c) => *c,
			Ast::Add(a, b) | Ast::Sub(a, b) => a.eval(get) + b.eval(get),
			Ast::Mul(a, b) => a.eval(get) * b.eval(get),
			Ast::Pow(a, e) => (0..*e).fold(B128::ONE, |x, _| x * a.eval(get)),
		}
	}
	fn has_col(&self) -> bool {
		match self {
			Ast::Col(_) => true,
			Ast::Const(_) => false,
			Ast::Add(a, b) | Ast::Sub(a, b) | Ast::Mul(a, b) => a.has_col() || b.has_col(),
			Ast::Pow(a, _) => a.has_col(),
		}
	}
	fn all(&self, f: &dyn Fn(usize) -> bool) -> bool {
		match self {
			Ast::Col(i) => f(*i),
			Ast::Const(_) => true,
			Ast::Add(a, b) | Ast::Sub(a, b) | Ast::Mul(a, b) => a.all(f) && b.all(f),
			Ast::Pow(a, _) => a.all(f),
		}
	}
}
enum Ce<F: TowerField, const V: usize> {
	C(Col<F, V>),
	E(Expr<F, V>),
	K(F),
}
impl<F: TowerField, const V: usize> Ce<F, V> {
	fn expr(self) -> Expr<F, V> {
		match self {
			Ce::C(c) => c.into(),
			Ce::E(e) => e,
			Ce::K(_) => unreachable!("constants are right operands"),
		}
	}
}

#[derive(Debug, Clone)]
enum Def {
	Committed { zero_after: Option<usize>, nonzero: bool },
	Shifted { src: usize, block: usize, offset: usize, variant: ShiftVariant },
	Packed(usize),
	Computed(Ast),
	Selected(usize, usize),
	Block(usize, usize),
	Pad(usize, usize),
	Constant(Vec<B128>),
	Static(Vec<usize>, B128),
	Dynamic(Vec<usize>, usize),
	Incr,
	/// coefficient and the variables of each term
	Fixed(Vec<(B128, usize)>),
}
struct C {
	shape: (usize, usize),
	any: Box<dyn Any + Send + Sync>,
	def: Def,
	/// a committed column whose value is given by an expression
	forced: Option<Ast>,
	nonzero: bool,
	exp: bool,
}
struct Fl {
	chan: usize,
	push: bool,
	cols: Vec<usize>,
	mult: u32,
	sel: Vec<usize>,
	logv: usize,
}
struct T {
	id: usize,
	cols: Vec<C>,
	zeros: Vec<((usize, usize), Ast)>,
	flushes: Vec<Fl>,
	n: usize,
	po2: bool,
}

fn expr_of<F: Up, const V: usize>(a: &Ast, cols: &[C]) -> Ce<F, V> {
	match a {
		Ast::Col(i) => {
			let c = &cols[*i];
			if i % 2 == 0 { Ce::C(F::up(&*c.any, c.shape.0)) } else { Ce::E(F::lift(&*c.any, c.shape.0)) }
		}
		Ast::Const(x) => Ce::K(F::of(x.val())),
		Ast::Pow(a, e) => Ce::E(expr_of::<F, V>(a, cols).expr().pow(*e)),
		Ast::Add(a, b) => Ce::E(match (expr_of::<F, V>(a, cols), expr_of::<F, V>(b, cols)) {
			(Ce::C(a), Ce::C(b)) => a + b,
			(Ce::C(a), Ce::E(b)) => a + b,
			(Ce::C(a), Ce::K(b)) => a + b,
			(Ce::E(a), Ce::C(b)) => a + b,
			(Ce::E(a), Ce::E(b)) => a + b,
			(Ce::E(a), Ce::K(b)) => a + b,
			_ => unreachable!(),
		}),
		Ast::Sub(a, b) => Ce::E(match (expr_of::<F, V>(a, cols), expr_of::<F, V>(b, cols)) {
			(Ce::C(a), Ce::C(b)) => a - b,
			(Ce::C(a), Ce::E(b)) => a - b,
			(Ce::C(a), Ce::K(b)) => a - b,
			(Ce::E(a), Ce::C(b)) => a - b,
			(Ce::E(a), Ce::E(b)) => a - b,
			(Ce::E(a), Ce::K(b)) => a - b,
			_ => unreachable!(),
		}),
		Ast::Mul(a, b) => Ce::E(match (expr_of::<F, V>(a, cols), expr_of::<F, V>(b, cols)) {
			(Ce::C(a), Ce::C(b)) => a * b,
			(Ce::C(a), Ce::E(b)) => a * b,
			(Ce::C(a), Ce::K(b)) => a * b,
			(Ce::E(a), Ce::C(b)) => a * b,
			(Ce::E(a), Ce::E(b)) => a * b,
			(Ce::E(a), Ce::K(b)) => a * b,
			_ => unreachable!(),
		}),
	}
}

fn mask(level: usize) -> u128 {
	if level == 7 { u128::MAX } else { (1u128 << bits_of(level)) - 1 }
}
fn scalar(s: &mut Src, level: usize) -> B128 {
	B128::new(s.special_u128() & mask(level))
}

/// An expression at a level over columns of the given indices.
fn ast(s: &mut Src, cols: &[usize], level: usize, depth: usize, linear: bool) -> Ast {
	if depth == 0 || s.chance(1, 4) {
		return Ast::Col(*s.pick(cols));
	}
	let left = Box::new(ast(s, cols, level, depth - 1, linear));
	let k = s.index(if linear { 4 } else { 6 });
	let right = |s: &mut Src| {
		Box::new(if s.chance(1, 4) { Ast::Const(scalar(s, level)) } else { ast(s, cols, level, depth - 1, linear) })
	};
	match k {
		0 | 1 => Ast::Add(left, right(s)),
		2 => Ast::Sub(left, right(s)),
		3 => {
			let mut c = scalar(s, level);
			if c == B128::ZERO {
				c = B128::ONE;
			}
			Ast::Mul(left, Box::new(Ast::Const(c)))
		}
		4 => Ast::Mul(left, right(s)),
		_ => Ast::Pow(left, s.range(1, 3) as u64),
	}
}

/// Adds a column made from those there are; None if the choice is not possible.
fn add(s: &mut Src, tb: &mut TableBuilder, t: &T, name: &str, exps: bool) -> Option<C> {
	let cols = &t.cols;
	let pick = |s: &mut Src, f: &dyn Fn(&C) -> bool| -> Option<usize> {
		let ok: Vec<usize> = (0..cols.len()).filter(|i| f(&cols[*i])).collect();
		(!ok.is_empty()).then(|| *s.pick(&ok))
	};
	let small = |c: &C| !matches!(c.def, Def::Static(..) | Def::Dynamic(..)) && !c.exp;
	let mk = |shape, any, def, exp| C { shape, any, def, forced: None, nonzero: false, exp };
	Some(match s.index(13) {
		0 | 1 => {
			let sh = *s.pick(SHAPES);
			let nonzero = s.chance(1, 6);
			let any: Box<dyn Any + Send + Sync> = shape!(sh, |F, V| Box::new(tb.add_committed::<F, V>(name)));
			mk(sh, any, Def::Committed { zero_after: None, nonzero }, false)
		}
		2 => {
			let sh = *s.pick(SHAPES);
			let vals: Vec<B128> = (0..1usize << sh.1).map(|_| scalar(s, sh.0)).collect();
			let any: Box<dyn Any + Send + Sync> =
				shape!(sh, |F, V| Box::new(tb.add_constant::<F, V>(name, std::array::from_fn(|i| F::of(vals[i].val())))));
			mk(sh, any, Def::Constant(vals), false)
		}
		3 | 4 => {
			let src = pick(s, &|c| c.shape.1 > 0 && small(c))?;
			let sh = cols[src].shape;
			let block = s.range(1, sh.1);
			let offset = s.range(1, (1 << block) - 1);
			let variant = *s.pick(&[ShiftVariant::CircularLeft, ShiftVariant::LogicalLeft, ShiftVariant::LogicalRight]);
			let any: Box<dyn Any + Send + Sync> = shape!(sh, |F, V| Box::new(tb.add_shifted::<F, V>(
				name,
				*cols[src].any.downcast_ref::<Col<F, V>>().expect("type"),
				block,
				offset,
				variant
			)));
			mk(sh, any, Def::Shifted { src, block, offset, variant }, false)
		}
		5 => {
			let src = pick(s, &|c| c.shape.1 > 0 && small(c) && PACKINGS.iter().any(|p| (p.0, p.1) == c.shape))?;
			let sh = cols[src].shape;
			let to: Vec<usize> = PACKINGS.iter().filter(|p| (p.0, p.1) == sh).map(|p| p.2).collect();
			let l = *s.pick(&to);
			let any: Box<dyn Any + Send + Sync> =
				packing!(sh, l, |F, V, G, W| Box::new(tb.add_packed::<F, V, G, W>(name, *cols[src].any.downcast_ref::<Col<F, V>>().expect("type"))));
			mk((l, sh.1 - (l - sh.0)), any, Def::Packed(src), false)
		}
		6 => {
			let src = pick(s, &|c| c.shape.1 > 0 && small(c))?;
			let sh = cols[src].shape;
			let index = s.index(1 << sh.1);
			let any: Box<dyn Any + Send + Sync> =
				shape!(sh, |F, V| Box::new(tb.add_selected::<F, V>(name, *cols[src].any.downcast_ref::<Col<F, V>>().expect("type"), index)));
			mk((sh.0, 0), any, Def::Selected(src, index), false)
		}
		7 => {
			let src = pick(s, &|c| c.shape.1 > 0 && small(c))?;
			let (l, w) = cols[src].shape;
			let v = s.index(w);
			let index = s.index(1 << (w - v));
			let any: Box<dyn Any + Send + Sync> =
				grow!(l, v, w, |F, V, W| Box::new(tb.add_selected_block::<F, W, V>(name, *cols[src].any.downcast_ref::<Col<F, W>>().expect("type"), index)));
			mk((l, v), any, Def::Block(src, index), false)
		}
		8 => {
			let src = pick(s, &|c| small(c) && SHAPES.contains(&(c.shape.0, c.shape.1 + 1)))?;
			let (l, v) = cols[src].shape;
			let more: Vec<usize> = SHAPES.iter().filter(|x| x.0 == l && x.1 > v).map(|x| x.1).collect();
			let w = *s.pick(&more);
			let index = s.index(1 << (w - v));
			if s.chance(1, 3) {
				let any: Box<dyn Any + Send + Sync> =
					grow!(l, v, w, |F, V, W| Box::new(tb.add_zero_pad_upcast::<F, V, W>(name, *cols[src].any.downcast_ref::<Col<F, V>>().expect("type"))));
				mk((l, w), any, Def::Pad(src, (1 << (w - v)) - 1), false)
			} else {
				let any: Box<dyn Any + Send + Sync> =
					grow!(l, v, w, |F, V, W| Box::new(tb.add_zero_pad::<F, V, W>(name, *cols[src].any.downcast_ref::<Col<F, V>>().expect("type"), index)));
				mk((l, w), any, Def::Pad(src, index), false)
			}
		}
		9 | 10 => {
			let base = pick(s, &|_| true)?;
			let v = cols[base].shape.1;
			let levels: Vec<usize> = SHAPES.iter().filter(|x| x.1 == v && x.0 >= cols[base].shape.0).map(|x| x.0).collect();
			let level = *s.pick(&levels);
			let use_from: Vec<usize> = (0..cols.len()).filter(|i| cols[*i].shape.1 == v && cols[*i].shape.0 <= level).collect();
			let linear = s.chance(2, 3);
			let depth = s_depth(s);
			let a = ast(s, &use_from, level, depth, linear);
			let exp = !a.all(&|i| !cols[i].exp && !matches!(cols[i].def, Def::Static(..) | Def::Dynamic(..)));
			let any: Box<dyn Any + Send + Sync> = shape!((level, v), |F, V| {
				let e = expr_of::<F, V>(&a, cols).expr();
				// a constant in disguise is no column
				let c = ArithCircuit::from(e.expr());
				let mut c = c.clone();
				c.optimize_in_place();
				if c.vars_usage().iter().all(|u| !u) || e.degree() == 0 {
					return None;
				}
				Box::new(tb.add_computed::<F, V>(name.to_string(), e))
			});
			mk((level, v), any, Def::Computed(a), exp)
		}
		11 if exps => {
			let bits: Vec<usize> = (0..cols.len()).filter(|i| cols[*i].shape == (0, 0) && matches!(cols[*i].def, Def::Committed { .. })).collect();
			if bits.is_empty() {
				return None;
			}
			let n = s.range(1, 8);
			let bits: Vec<usize> = (0..n).map(|_| *s.pick(&bits)).collect();
			let handles: Vec<Col<B1>> = bits.iter().map(|i| *cols[*i].any.downcast_ref::<Col<B1>>().expect("type")).collect();
			let level = *s.pick(&[3, 4, 5, 6, 7]);
			let base = pick(s, &|c| c.shape == (level, 0) && matches!(c.def, Def::Committed { .. }));
			match base {
				Some(b) if s.bool() => {
					let any: Box<dyn Any + Send + Sync> = shape!((level, 0), |F, V| {
						let _ = V;
						Box::new(tb.add_dynamic_exp::<F>(name, &handles, *cols[b].any.downcast_ref::<Col<F>>().expect("type")))
					});
					mk((level, 0), any, Def::Dynamic(bits, b), true)
				}
				_ => {
					let mut x = scalar(s, level);
					if x == B128::ZERO || x == B128::ONE {
						x = B128::new(2);
					}
					let any: Box<dyn Any + Send + Sync> = shape!((level, 0), |F, V| {
						let _ = V;
						Box::new(tb.add_static_exp::<F>(name, &handles, F::of(x.val())))
					});
					mk((level, 0), any, Def::Static(bits, x), true)
				}
			}
		}
		_ => {
			if !t.po2 {
				return None;
			}
			let level = *s.pick(&[3, 4, 5, 6, 7]);
			let log = t.n.ilog2() as usize;
			if fixed_size(t) {
				let n_terms = s.range(1, 4);
				let mut terms: Vec<(B128, usize)> = vec![];
				for _ in 0..n_terms {
					terms.push((scalar(s, level), s.index(1 << log)));
				}
				let mut e = ArithExpr::Const(B128::ZERO);
				for (c, vars) in &terms {
					let mut m = ArithExpr::Const(*c);
					for b in 0..log {
						if vars >> b & 1 == 1 {
							m = m * ArithExpr::Var(b);
						}
					}
					e = e + m;
				}
				let c = ArithCircuit::from(e);
				if c.n_vars() != log {
					return None;
				}
				let any: Box<dyn Any + Send + Sync> = shape!((level, 0), |F, V| {
					let _ = V;
					Box::new(tb.add_fixed::<F>(name, c))
				});
				mk((level, 0), any, Def::Fixed(terms), false)
			} else {
				let max = s.range(log, 8.max(log));
				let any: Box<dyn Any + Send + Sync> = shape!((level, 0), |F, V| {
					let _ = V;
					Box::new(tb.add_structured::<F>(name, StructuredDynSize::Incrementing { max_size_log: max }))
				});
				mk((level, 0), any, Def::Incr, false)
			}
		}
	})
}
fn s_depth(s: &mut Src) -> usize {
	s.range(1, 3)
}
fn fixed_size(t: &T) -> bool {
	t.po2 && t.id % 2 == 1
}

/// The value of column `i` in row `r`, given the columns before it.
fn value(t: &T, i: usize, row: &Row, r: usize) -> Option<Vec<B128>> {
	let c = &t.cols[i];
	let n = 1usize << c.shape.1;
	if let Some(a) = &c.forced {
		return Some((0..n).map(|l| a.eval(&|k| row[k][l])).collect());
	}
	Some(match &c.def {
		Def::Committed { .. } => return None,
		Def::Shifted { src, block, offset, variant } => (0..n)
			.map(|l| {
				let m = 1usize << block;
				let at = l / m * m;
				let j = l % m;
				match variant {
					ShiftVariant::CircularLeft => row[*src][at + (j + m - offset) % m],
					ShiftVariant::LogicalLeft => if j < *offset { B128::ZERO } else { row[*src][l - offset] },
					ShiftVariant::LogicalRight => if j + offset >= m { B128::ZERO } else { row[*src][l + offset] },
				}
			})
			.collect(),
		Def::Packed(src) => {
			let from = &row[*src];
			let k = from.len() / n;
			let w = bits_of(t.cols[*src].shape.0);
			(0..n).map(|l| B128::new((0..k).fold(0, |x, j| x | from[l * k + j].val() << (j * w)))).collect()
		}
		Def::Computed(a) => (0..n).map(|l| a.eval(&|k| row[k][l])).collect(),
		Def::Selected(src, k) => vec![row[*src][*k]],
		Def::Block(src, k) => row[*src][k * n..(k + 1) * n].to_vec(),
		Def::Pad(src, k) => {
			let m = row[*src].len();
			(0..n).map(|l| if l / m == *k { row[*src][l % m] } else { B128::ZERO }).collect()
		}
		Def::Constant(v) => v.clone(),
		Def::Static(bits, x) => vec![pow(*x, bits.iter().enumerate().map(|(k, b)| row[*b][0].val() << k).sum())],
		Def::Dynamic(bits, x) => vec![pow(row[*x][0], bits.iter().enumerate().map(|(k, b)| row[*b][0].val() << k).sum())],
		Def::Incr => vec![B128::new(r as u128)],
		Def::Fixed(terms) => vec![terms.iter().filter(|(_, v)| r & v == *v).fold(B128::ZERO, |x, (c, _)| x + *c)],
	})
}

/// What the calls said; the error names what does not hold.
fn holds(ts: &[T], rows: &[Vec<Row>], bounds: &[Boundary<B128>]) -> Res {
	let mut net: BTreeMap<(usize, Vec<u128>), i64> = BTreeMap::new();
	for (t, rows) in ts.iter().zip(rows) {
		for (r, row) in rows.iter().enumerate() {
			for i in 0..t.cols.len() {
				if matches!(t.cols[i].def, Def::Static(..) | Def::Dynamic(..)) {
					continue;
				}
				if let Some(x) = value(t, i, row, r) {
					ck!(x == row[i], "table {} row {r} column {i}", t.id);
				}
				ck!(!t.cols[i].nonzero || row[i].iter().all(|x| *x != B128::ZERO), "table {} row {r} column {i} is zero", t.id);
			}
			for (sh, a) in &t.zeros {
				for l in 0..1 << sh.1 {
					ck!(a.eval(&|k| row[k][l]) == B128::ZERO, "table {} row {r} lane {l} assertion {a:?}", t.id);
				}
			}
			for f in &t.flushes {
				if r >= t.n || f.sel.iter().any(|k| row[*k][0] == B128::ZERO) {
					continue;
				}
				for l in 0..1 << f.logv {
					let v: Vec<u128> = f.cols.iter().map(|k| row[*k][l].val()).collect();
					*net.entry((f.chan, v)).or_default() += if f.push { f.mult as i64 } else { -(f.mult as i64) };
				}
			}
		}
	}
	for b in bounds {
		let v: Vec<u128> = b.values.iter().map(|x| x.val()).collect();
		*net.entry((b.channel_id, v)).or_default() += match b.direction {
			FlushDirection::Push => b.multiplicity as i64,
			FlushDirection::Pull => -(b.multiplicity as i64),
		};
	}
	if let Some((k, _)) = net.iter().find(|(_, n)| **n != 0) {
		return Err(format!("channel {} at {:x?}", k.0, k.1));
	}
	Ok(())
}

struct Sys {
	cs: ConstraintSystem<B128>,
	ts: Vec<T>,
	widths: Vec<usize>,
}

fn system(s: &mut Src, exps: bool) -> Sys {
	let mut cs = ConstraintSystem::<B128>::new();
	let mut widths = vec![];
	for k in 0..s.range(1, 2) {
		cs.add_channel(format!("channel {k}"));
		widths.push(s.range(1, 3));
	}
	let mut ts: Vec<T> = vec![];
	for k in 0..s.range(1, 3) {
		let po2 = s.chance(1, 3);
		let n = if po2 { 1 << s.range(0, 4) } else { s.range(1, 20) };
		let mut tb = cs.add_table(format!("table {k}"));
		let mut t = T { id: tb.id(), cols: vec![], zeros: vec![], flushes: vec![], n, po2 };
		if po2 {
			if fixed_size(&t) { tb.require_fixed_size(n.ilog2() as usize) } else { tb.require_power_of_two_size() }
		}
		let mut tb = if s.bool() { tb.with_namespace("space") } else { tb };
		for c in 0..s.range(2, 10) {
			if let Some(c) = add(s, &mut tb, &t, &format!("c{c}"), exps) {
				t.cols.push(c);
			}
		}
		if t.cols.is_empty() {
			t.cols.push(C { shape: (0, 0), any: Box::new(tb.add_committed::<B1, 1>("c")), def: Def::Committed { zero_after: None, nonzero: false }, forced: None, nonzero: false, exp: false });
		}
		// assertions: an expression and a committed column that holds its value
		for z in 0..s.index(3) {
			let Some(v) = Some(t.cols[s.index(t.cols.len())].shape.1) else { continue };
			let levels: Vec<usize> = SHAPES.iter().filter(|x| x.1 == v).map(|x| x.0).collect();
			let level = *s.pick(&levels);
			let from: Vec<usize> = (0..t.cols.len()).filter(|i| t.cols[*i].shape.1 == v && t.cols[*i].shape.0 <= level).collect();
			if from.is_empty() {
				continue;
			}
			let depth = s_depth(s);
			let a = ast(s, &from, level, depth, false);
			let any: Box<dyn Any + Send + Sync> = shape!((level, v), |F, V| Box::new(tb.add_committed::<F, V>(format!("z{z}"))));
			let i = t.cols.len();
			let exp = !a.all(&|i| !t.cols[i].exp);
			t.cols.push(C { shape: (level, v), any, def: Def::Committed { zero_after: None, nonzero: false }, forced: Some(a.clone()), nonzero: false, exp });
			let zero = Ast::Sub(Box::new(a), Box::new(Ast::Col(i)));
			shape!((level, v), |F, V| tb.assert_zero(format!("zero {z}"), expr_of::<F, V>(&zero, &t.cols).expr()));
			t.zeros.push(((level, v), zero));
		}
		for i in 0..t.cols.len() {
			if matches!(t.cols[i].def, Def::Committed { nonzero: true, .. }) && t.cols[i].forced.is_none() {
				shape!(t.cols[i].shape, |F, V| tb.assert_nonzero(*t.cols[i].any.downcast_ref::<Col<F, V>>().expect("type")));
				t.cols[i].nonzero = true;
			}
		}
		// selectors
		let mut sels = vec![];
		for z in 0..s.index(3) {
			let any: Box<dyn Any + Send + Sync> = Box::new(tb.add_committed::<B1, 1>(format!("s{z}")));
			sels.push(t.cols.len());
			t.cols.push(C { shape: (0, 0), any, def: Def::Committed { zero_after: Some(n), nonzero: false }, forced: None, nonzero: false, exp: false });
		}
		for _ in 0..s.index(4) {
			let chan = s.index(widths.len());
			let read = s.chance(1, 3);
			let logv = if read { t.cols[s.index(t.cols.len())].shape.1 } else { 0 };
			let from: Vec<usize> = (0..t.cols.len()).filter(|i| t.cols[*i].shape.1 == logv).collect();
			if from.is_empty() {
				continue;
			}
			let cols: Vec<usize> = (0..widths[chan]).map(|_| *s.pick(&from)).collect();
			// constants alone say nothing
			if cols.iter().all(|i| matches!(t.cols[*i].def, Def::Constant(_))) {
				continue;
			}
			if read {
				shape!((7.min(top(logv)), logv), |F, V| {
					let h: Vec<Col<F, V>> = cols.iter().map(|i| F::up(&*t.cols[*i].any, t.cols[*i].shape.0)).collect();
					tb.read(chan, h)
				});
				t.flushes.push(Fl { chan, push: false, cols, mult: 1, sel: vec![], logv });
			} else {
				let push = s.bool();
				let h: Vec<Col<B128>> = cols.iter().map(|i| B128::up(&*t.cols[*i].any, t.cols[*i].shape.0)).collect();
				let plain = s.bool();
				let mult = if plain { 1 } else { s.range(1, 3) as u32 };
				let sel: Vec<usize> = if plain { vec![] } else { sels.iter().copied().filter(|_| s.bool()).collect() };
				let opts = FlushOpts { multiplicity: mult, selectors: sel.iter().map(|i| *t.cols[*i].any.downcast_ref::<Col<B1>>().expect("type")).collect() };
				match (plain, push) {
					(true, true) => tb.push(chan, h),
					(true, false) => tb.pull(chan, h),
					(false, true) => tb.push_with_opts(chan, h, opts),
					(false, false) => tb.pull_with_opts(chan, h, opts),
				}
				t.flushes.push(Fl { chan, push, cols, mult, sel, logv: 0 });
			}
		}
		ts.push(t);
	}
	Sys { cs, ts, widths }
}
/// The highest level of a column with so many stacked values.
fn top(logv: usize) -> usize {
	SHAPES.iter().filter(|x| x.1 == logv).map(|x| x.0).max().expect("a shape")
}

fn honest_row(s: &mut Src, t: &T, r: usize) -> Row {
	let mut b = s.bulk();
	let mut row: Row = vec![];
	for i in 0..t.cols.len() {
		let c = &t.cols[i];
		let x = value(t, i, &row, r).unwrap_or_else(|| {
			(0..1usize << c.shape.1)
				.map(|_| {
					let x = B128::new(b.u128() & mask(c.shape.0));
					match &c.def {
						Def::Committed { nonzero: true, .. } if x == B128::ZERO => B128::ONE,
						Def::Committed { zero_after: Some(n), .. } if r >= *n => B128::ZERO,
						_ => x,
					}
				})
				.collect()
		});
		row.push(x);
	}
	row
}

fn balance(s: &mut Src, ts: &[T], rows: &[Vec<Row>]) -> Vec<Boundary<B128>> {
	let mut net: BTreeMap<(usize, Vec<u128>), i64> = BTreeMap::new();
	for (t, rows) in ts.iter().zip(rows) {
		for row in &rows[..t.n] {
			for f in t.flushes.iter().filter(|f| f.sel.iter().all(|k| row[*k][0] != B128::ZERO)) {
				for l in 0..1 << f.logv {
					let v: Vec<u128> = f.cols.iter().map(|k| row[*k][l].val()).collect();
					*net.entry((f.chan, v)).or_default() += if f.push { f.mult as i64 } else { -(f.mult as i64) };
				}
			}
		}
	}
	let mut out = vec![];
	for ((chan, v), n) in net {
		if n == 0 {
			continue;
		}
		let direction = if n > 0 { FlushDirection::Pull } else { FlushDirection::Push };
		let values: Vec<B128> = v.into_iter().map(B128::new).collect();
		let n = n.unsigned_abs();
		let parts = if n > 1 && s.chance(1, 4) { vec![1, n - 1] } else { vec![n] };
		for multiplicity in parts {
			out.push(Boundary { values: values.clone(), channel_id: chan, direction, multiplicity });
		}
	}
	out
}

fn witness<T2, P: Pm>(sys: &Sys, f: impl FnOnce(WitnessIndex<P>) -> Result<T2, String>) -> Result<T2, String> {
	let sizes: Vec<(usize, usize)> = sys.ts.iter().map(|t| (t.id, t.n)).collect();
	let mut a = CpuComputeAllocator::<P>::new(alloc_size(&sys.cs, &sizes));
	let bump = a.into_bump_allocator();
	f(WitnessIndex::<P>::new(&sys.cs, &bump))
}

fn meaning<P: Pm>(s: &mut Src) -> Res {
	let sys = system(s, true);
	let ccs = sys.cs.compile().map_err(|e| format!("compile: {e}"))?;
	let mut tabs = vec![];
	for t in &sys.ts {
		let tab = Tab::new(&sys.cs, &ccs, t.id)?;
		ck_eq!(tab.cols.len(), t.cols.len(), "number of columns");
		for (a, b) in tab.cols.iter().zip(&t.cols) {
			ck_eq!((a.level, a.v), (b.shape.0, 1usize << b.shape.1), "the shape of column {}", a.name);
		}
		tabs.push(tab);
	}
	s.desc(format!("tables {:?}", sys.ts.iter().map(|t| (t.n, t.cols.iter().map(|c| (c.shape, &c.def, &c.forced)).collect::<Vec<_>>(), t.flushes.len())).collect::<Vec<_>>()).chars().take(3000).collect::<String>());
	let mut rows: Vec<Vec<Row>> = sys
		.ts
		.iter()
		.map(|t| {
			let cap = t.n.next_power_of_two();
			let mut rows: Vec<Row> = (0..t.n).map(|r| honest_row(s, t, r)).collect();
			for r in t.n..cap {
				let row = if s.bool() && t.cols.iter().all(|c| !matches!(c.def, Def::Committed { zero_after: Some(_), .. })) { rows[s.index(t.n)].clone() } else { honest_row(s, t, r) };
				rows.push(row);
			}
			rows
		})
		.collect();
	let mut bounds = balance(s, &sys.ts, &rows);
	let accept = |rows: &[Vec<Row>], bounds: &[Boundary<B128>]| -> Res {
		witness::<_, P>(&sys, |mut w| {
			for ((t, tab), rows) in sys.ts.iter().zip(&tabs).zip(rows) {
				w.init_table(t.id, t.n).map_err(|e| format!("{e}"))?;
				restore(&mut w, tab, t.id, rows)?;
			}
			validated(&ccs, w, bounds)
		})
	};
	holds(&sys.ts, &rows, &bounds).map_err(|e| format!("harness: {e}"))?;
	s.nontrivial_if(sys.ts.iter().any(|t| t.n > 1 && t.cols.len() > 2));
	for t in &sys.ts {
		for c in &t.cols {
			let d = format!("{:?}", c.def);
			s.label(d.split(['(', ' ']).next().expect("a word").to_string());
		}
	}
	accept(&rows, &bounds).map_err(|e| format!("an honest witness is refused: {e}"))?;
	// one thing altered
	for _ in 0..6 {
		let (old_rows, old_bounds) = (rows.clone(), bounds.clone());
		match s.index(8) {
			0 if !bounds.is_empty() => {
				let k = s.index(bounds.len());
				match s.index(4) {
					0 => {
						let c = s.index(bounds[k].values.len());
						bounds[k].values[c] += B128::new(1 << s.index(128));
					}
					1 => bounds[k].multiplicity += 1,
					2 => {
						bounds.remove(k);
					}
					_ => bounds[k].direction = if bounds[k].direction == FlushDirection::Push { FlushDirection::Pull } else { FlushDirection::Push },
				}
			}
			1 => {
				let chan = s.index(sys.widths.len());
				let values = (0..sys.widths[chan]).map(|_| scalar(s, 3)).collect();
				bounds.push(Boundary { values, channel_id: chan, direction: FlushDirection::Push, multiplicity: 1 });
			}
			k => {
				let ti = s.index(sys.ts.len());
				let t = &sys.ts[ti];
				let mut i = s.index(t.cols.len());
				let r = s.index(rows[ti].len());
				// a packed column is the same memory as the one it packs
				while let Def::Packed(src) = t.cols[i].def {
					i = src;
				}
				let l = s.index(1 << t.cols[i].shape.1);
				if let Def::Committed { zero_after: Some(n), .. } = t.cols[i].def
					&& r >= n
				{
					continue;
				}
				let bit = s.index(bits_of(t.cols[i].shape.0));
				if k == 2 { rows[ti][r][i][l] = B128::ZERO } else { rows[ti][r][i][l] += B128::new(1 << bit) }
				// what follows is computed again, or not
				let again = s.bool();
				for j in 0..t.cols.len() {
					if j != i && (again && t.cols[j].forced.is_none() || matches!(t.cols[j].def, Def::Packed(_) | Def::Static(..) | Def::Dynamic(..))) {
						if let Some(x) = value(t, j, &rows[ti][r], r) {
							rows[ti][r][j] = x;
						}
					}
				}
				// a constant column that is filled wrongly is another constant
				if matches!(t.cols[i].def, Def::Constant(_)) {
					rows = old_rows;
					continue;
				}
			}
		}
		let want = holds(&sys.ts, &rows, &bounds);
		let got = accept(&rows, &bounds);
		s.label(if want.is_ok() { "altered, still holds" } else { "altered, does not hold" });
		match (&want, &got) {
			(Ok(()), Err(e)) => return Err(format!("refused although everything asked for holds: {e}")),
			(Err(e), Ok(())) => return Err(format!("accepted although this does not hold: {e}")),
			_ => {}
		}
		(rows, bounds) = (old_rows, old_bounds);
	}
	Ok(())
}

/// Filling a table through segments of any size gives the same rows.
fn filling<P: Pm>(s: &mut Src) -> Res {
	let sys = system(s, false);
	let ccs = sys.cs.compile().map_err(|e| format!("compile: {e}"))?;
	let t = &sys.ts[0];
	let tab = Tab::new(&sys.cs, &ccs, t.id)?;
	let n = if t.po2 { t.n } else { s.range(1, 300) };
	let rows: Vec<Row> = (0..n).map(|r| honest_row(s, t, r)).collect();
	let events: Vec<usize> = (0..n).collect();
	// expressions over columns of one level
	let mut probes: Vec<((usize, usize), Ast)> = vec![];
	for _ in 0..3 {
		let sh = t.cols[s.index(t.cols.len())].shape;
		let from: Vec<usize> = (0..t.cols.len()).filter(|i| t.cols[*i].shape == sh).collect();
		let a = ast(s, &from, sh.0, 2, false);
		if a.has_col() {
			probes.push((sh, a));
		}
	}
	let h = how(s);
	let threads = s.range(1, 4);
	s.desc(format!("rows {n} fill {h:?} threads {threads} columns {:?}", t.cols.iter().map(|c| c.shape).collect::<Vec<_>>()));
	s.label(format!("{h:?}").chars().take(6).collect::<String>());
	s.nontrivial_if(n > 1);
	let dirty = s.bool();
	let fill_one = |ev: &[usize], w: &mut binius_m3::builder::TableWitnessSegment<P>| -> anyhow::Result<()> {
		anyhow::ensure!(ev.len() <= w.size(), "{} events for a segment of {} rows", ev.len(), w.size());
		anyhow::ensure!(ev.windows(2).all(|p| p[1] == p[0] + 1 || (p[1] == p[0] && p[0] == n - 1)), "events {ev:?} are not in order");
		for (i, c) in tab.cols.iter().enumerate() {
			if matches!(t.cols[i].def, Def::Packed(_)) {
				continue;
			}
			let mut view = w.get_dyn_mut(c.id)?;
			if dirty {
				// rows without an event may hold anything
				for k in 0..w.size() * c.v {
					view.set(k, B128::ONE)?;
				}
			}
			for (k, r) in ev.iter().enumerate() {
				for l in 0..c.v {
					view.set(k * c.v + l, rows[*r][i][l])?;
				}
			}
		}
		for (sh, a) in &probes {
			shape!(*sh, |F, V| {
				let e = expr_of::<F, V>(a, &t.cols).expr();
				let got: Vec<_> = w.eval_expr(&e)?.collect();
				for (k, r) in ev.iter().enumerate() {
					for l in 0..V {
						let x: B128 = get_packed_slice(&got, k * V + l).into();
						anyhow::ensure!(x == a.eval(&|i| rows[*r][i][l]), "eval_expr of {a:?} in row {r} lane {l}");
					}
				}
			});
		}
		for (i, c) in t.cols.iter().enumerate() {
			shape!(c.shape, |F, V| {
				let col = *c.any.downcast_ref::<Col<F, V>>().expect("type");
				let got = w.get(col)?;
				for (k, r) in ev.iter().enumerate() {
					for l in 0..V {
						let x: B128 = get_packed_slice(&got, k * V + l).into();
						anyhow::ensure!(x == rows[*r][i][l], "get of column {i} in row {r} lane {l}");
					}
				}
			});
		}
		Ok(())
	};
	let pool = rayon::ThreadPoolBuilder::new().num_threads(threads).build().map_err(|e| format!("{e}"))?;
	let got = {
		let mut a = CpuComputeAllocator::<P>::new(alloc_size(&sys.cs, &[(t.id, n)]));
		let bump = a.into_bump_allocator();
		let mut w = WitnessIndex::<P>::new(&sys.cs, &bump);
		let f: &FillFn<P, usize> = &fill_one;
		match h {
			How::Par | How::ParSeg(_) => {
				// the witness does not leave this thread: the pool runs what it starts
				let table_err = std::sync::Mutex::new(Ok(()));
				{
					let wr = std::panic::AssertUnwindSafe(&mut w);
					let cell = Send0(wr);
					pool.install(|| {
						let c = cell;
						let r = fill(c.0.0, h, &Fill { id: t.id, f }, &events);
						*table_err.lock().expect("lock") = r;
					});
				}
				table_err.into_inner().expect("lock")?;
			}
			_ => fill(&mut w, h, &Fill { id: t.id, f }, &events)?,
		}
		ck_eq!(w.table_sizes()[t.id], n, "the size of the table");
		snapshot(&mut w, &tab, t.id)?
	};
	ck_eq!(got.len(), n.next_power_of_two(), "the capacity");
	for (r, row) in got.iter().enumerate() {
		if r < n {
			for i in 0..row.len() {
				ck!(row[i] == rows[r][i], "row {r} column {i} holds {:?}, filled with {:?}", row[i], rows[r][i]);
			}
		} else {
			ck!(rows.contains(row), "padding row {r} is no copy of a row: {row:?}");
		}
	}
	Ok(())
}
struct Send0<T>(T);
// SAFETY: the value is only used by the closure the pool runs while this thread waits.
unsafe impl<T> Send for Send0<T> {}

fn both(s: &mut Src, a: fn(&mut Src) -> Res, b: fn(&mut Src) -> Res) -> Res {
	if s.bool() { a(s) } else { b(s) }
}
fn meanings(s: &mut Src) -> Res {
	both(s, meaning::<P1>, meaning::<P2>)
}
fn fillings(s: &mut Src) -> Res {
	both(s, filling::<P1>, filling::<P2>)
}

/// The channel that emulates a trace outside of tables.
fn emulate(s: &mut Src) -> Res {
	let mut ch = binius_m3::emulate::Channel::<(u64, u64)>::default();
	let mut net: std::collections::BTreeMap<(u64, u64), i64> = Default::default();
	let n = s.range(0, 16);
	let close = s.bool();
	let mut log = vec![];
	for _ in 0..n {
		let v = (s.draw(2), s.draw(1));
		let push = s.bool();
		log.push((v, push));
	}
	if close {
		let mut back: Vec<_> = log.iter().map(|(v, p)| (*v, !p)).collect();
		back.reverse();
		let k = s.index(back.len() + 1);
		back.rotate_left(k);
		if s.chance(1, 3) {
			back.pop();
		}
		log.extend(back);
	}
	s.desc(format!("{log:?}"));
	s.nontrivial_if(log.len() > 2);
	for (v, push) in log {
		if push { ch.push(v) } else { ch.pull(v) }
		*net.entry(v).or_default() += if push { 1 } else { -1 };
		let want = net.values().all(|x| *x == 0);
		ck_eq!(ch.is_balanced(), want, "balance");
		ck_eq!(no_panic(|| ch.assert_balanced()).is_ok(), want, "assert_balanced");
	}
	Ok(())
}

fn main() {
	run(Prop {
		id: "C23",
		rule: "a table has more than one row and more than two columns",
		assumptions: &[],
		subs: vec![
			Sub { name: "emulate", quick: 20000, thorough: 1000000, threads: 0, f: emulate },
			Sub { name: "meaning", quick: 6000, thorough: 200000, threads: 0, f: meanings },
			Sub { name: "filling", quick: 8000, thorough: 200000, threads: 0, f: fillings },
		],
	});
}
