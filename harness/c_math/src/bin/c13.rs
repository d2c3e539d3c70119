//! Arithmetic expressions, circuits and compiled composition polynomials against naive evaluation.
use std::sync::Arc;

use binius_fast_compute::arith_circuit::ArithCircuitPoly;
use binius_field::{
	ExtensionField, Field, PackedField, TowerField,
	arch::{packed_128::*, packed_256::*, packed_512::*, packed_64::*, packed_aes_128::*},
	*,
};
use binius_math::{ArithCircuit, ArithExpr, CompositionPoly, Error, RowsBatch, RowsBatchRef};
use c_math::*;

/// One node of a generated expression graph; operands are earlier nodes.
#[derive(Clone, Debug)]
enum Node<F> {
	Const(F),
	Var(usize),
	Add(usize, usize),
	Mul(usize, usize),
	Pow(usize, u64),
}
struct Dag<F> {
	nodes: Vec<Node<F>>,
	deg: Vec<u64>,
	n_vars: usize,
}
fn pw<F: Field>(x: F, mut e: u64) -> F {
	let (mut r, mut b) = (F::ONE, x);
	while e > 0 {
		if e & 1 == 1 {
			r *= b;
		}
		b = b * b;
		e >>= 1;
	}
	r
}
impl<F: Fd> Dag<F> {
	fn generate(s: &mut Src, max_nodes: usize, max_deg: u64, pow0: bool) -> Self {
		let n_vars = s.range(1, 5);
		let n = s.range(1, max_nodes);
		let mut nodes = vec![];
		let mut deg: Vec<u64> = vec![];
		for i in 0..n {
			let kind = if i == 0 { s.weighted(&[3, 1]) } else { s.weighted(&[3, 2, 5, 5, 3]) };
			// operands are biased to recent nodes but anything earlier may be shared
			let mut op = |s: &mut Src| if s.bool() { i - 1 } else { s.index(i) };
			let (nd, d) = match kind {
				0 => (Node::Var(s.index(n_vars)), 1),
				1 => {
					let c = match s.weighted(&[2, 2, 3]) {
						0 => F::ONE,
						1 => F::ZERO,
						_ => F::draw(s),
					};
					(Node::Const(c), 0)
				}
				2 => {
					let (a, b) = (op(s), op(s));
					(Node::Add(a, b), deg[a].max(deg[b]))
				}
				3 => {
					let (a, b) = (op(s), op(s));
					(Node::Mul(a, b), deg[a] + deg[b])
				}
				_ => {
					let a = op(s);
					let e = match s.weighted(&[6, 2, if pow0 { 1 } else { 0 }]) {
						0 => s.range(1, 9) as u64,
						1 => 1 << s.range(0, 5),
						_ => 0,
					};
					(Node::Pow(a, e), deg[a] * e)
				}
			};
			if d > max_deg {
				// keep the degree in bounds: fall back to a variable
				nodes.push(Node::Var(s.index(n_vars)));
				deg.push(1);
			} else {
				nodes.push(nd);
				deg.push(d);
			}
		}
		Dag { nodes, deg, n_vars }
	}
	fn eval<E: ExtensionField<F>>(&self, x: &[E]) -> E {
		let mut v: Vec<E> = vec![];
		for n in &self.nodes {
			let r = match n {
				Node::Const(c) => E::from(*c),
				Node::Var(i) => x[*i],
				Node::Add(a, b) => v[*a] + v[*b],
				Node::Mul(a, b) => v[*a] * v[*b],
				Node::Pow(a, e) => pw(v[*a], *e),
			};
			v.push(r);
		}
		*v.last().unwrap()
	}
	fn expr(&self) -> ArithExpr<F> {
		let mut v: Vec<Arc<ArithExpr<F>>> = vec![];
		for n in &self.nodes {
			let e = match n {
				Node::Const(c) => ArithExpr::Const(*c),
				Node::Var(i) => ArithExpr::Var(*i),
				Node::Add(a, b) => ArithExpr::Add(v[*a].clone(), v[*b].clone()),
				Node::Mul(a, b) => ArithExpr::Mul(v[*a].clone(), v[*b].clone()),
				Node::Pow(a, e) => ArithExpr::Pow(v[*a].clone(), *e),
			};
			v.push(Arc::new(e));
		}
		(**v.last().unwrap()).clone()
	}
	/// The same polynomial put together with the operators of `ArithCircuit` (no sharing).
	fn circuit(&self) -> ArithCircuit<F> {
		fn go<F: Fd>(d: &Dag<F>, i: usize) -> ArithCircuit<F> {
			match &d.nodes[i] {
				Node::Const(c) => ArithCircuit::constant(*c),
				Node::Var(i) => ArithCircuit::var(*i),
				Node::Add(a, b) => go(d, *a) + go(d, *b),
				Node::Mul(a, b) => go(d, *a) * go(d, *b),
				Node::Pow(a, e) => go(d, *a).pow(*e),
			}
		}
		go(self, self.nodes.len() - 1)
	}
	/// The same with the operators of `ArithExpr`.
	fn expr_ops(&self) -> ArithExpr<F> {
		fn go<F: Fd>(d: &Dag<F>, i: usize) -> ArithExpr<F> {
			match &d.nodes[i] {
				Node::Const(c) => ArithExpr::Const(*c),
				Node::Var(i) => ArithExpr::Var(*i),
				Node::Add(a, b) if a % 2 == 0 => go(d, *a) + go(d, *b),
				Node::Add(a, b) => go(d, *a) - go(d, *b),
				Node::Mul(a, b) => go(d, *a) * go(d, *b),
				Node::Pow(a, e) => go(d, *a).pow(*e),
			}
		}
		go(self, self.nodes.len() - 1)
	}
	fn tree_size(&self) -> u64 {
		let mut v: Vec<u64> = vec![];
		for n in &self.nodes {
			v.push(match n {
				Node::Add(a, b) | Node::Mul(a, b) => (1 + v[*a] + v[*b]).min(1 << 40),
				Node::Pow(a, _) => 1 + v[*a],
				_ => 1,
			});
		}
		*v.last().unwrap()
	}
	fn used(&self) -> Vec<bool> {
		let mut u = vec![false; self.nodes.len()];
		*u.last_mut().unwrap() = true;
		for i in (0..self.nodes.len()).rev() {
			if u[i] {
				match &self.nodes[i] {
					Node::Add(a, b) | Node::Mul(a, b) => {
						u[*a] = true;
						u[*b] = true;
					}
					Node::Pow(a, _) => u[*a] = true,
					_ => {}
				}
			}
		}
		u
	}
}

fn same<F: Fd>(s: &mut Src, c: &ArithCircuit<F>, d: &Dag<F>, what: &str) -> Res {
	for _ in 0..3 {
		let x: Vec<F> = (0..d.n_vars).map(|_| F::draw(s)).collect();
		ck_eq!(c.evaluate(&x).ok(), Some(d.eval(&x)), "{what} at {x:?}");
	}
	Ok(())
}

fn circuits<F: Fd + TowerField, G: Fd>(s: &mut Src) -> Res
where
	F: ExtensionField<G>,
	G: TryFrom<F> + TowerField,
{
	let d = Dag::<F>::generate(s, 14, 300, true);
	s.desc(format!("{}: {:?}", F::NAME, d.nodes));
	let used = d.used();
	s.nontrivial_if(d.nodes.iter().zip(&used).any(|(n, u)| *u && matches!(n, Node::Mul(..) | Node::Pow(..))));
	let e = d.expr();
	let c = ArithCircuit::from(&e);
	same(s, &c, &d, "circuit of the expression")?;
	same(s, &ArithCircuit::from(ArithExpr::from(&c)), &d, "circuit -> expression -> circuit")?;
	same(s, &c.clone().optimize_constants(), &d, "optimize_constants")?;
	let o = c.clone().optimize();
	same(s, &o, &d, "optimize")?;
	same(s, &o.clone().optimize(), &d, "optimize twice")?;
	ck!(o.steps().len() <= c.steps().len(), "optimize made the circuit longer");
	if let Some(k) = o.get_constant() {
		let x: Vec<F> = (0..d.n_vars).map(|_| F::draw(s)).collect();
		ck_eq!(k, d.eval(&x), "get_constant");
	}
	// names of variables
	let vars: Vec<bool> = (0..d.n_vars).map(|v| d.nodes.iter().zip(&used).any(|(n, u)| *u && matches!(n, Node::Var(i) if *i == v))).collect();
	let n = vars.iter().rposition(|v| *v).map_or(0, |p| p + 1);
	ck_eq!(c.n_vars(), n, "n_vars");
	ck_eq!(c.vars_usage(), vars[..n].to_vec(), "vars_usage");
	ck_eq!(c.degree() as u64, *d.deg.last().unwrap(), "degree");
	ck!(o.degree() <= c.degree(), "optimize raised the degree");
	let lvl = d.nodes.iter().zip(&used).filter(|(_, u)| **u).map(|(n, _)| if let Node::Const(k) = n { k.min_tower_level() } else { 0 }).max().unwrap_or(0);
	ck_eq!(c.binary_tower_level(), lvl, "binary_tower_level");
	// substitution and renaming
	let v = s.index(d.n_vars);
	let k = F::draw(s);
	let sub = c.clone().const_subst(v, k);
	let map: Vec<usize> = (0..d.n_vars).map(|_| s.index(7)).collect();
	let ren = c.remap_vars(&map).map_err(|e| format!("remap_vars: {e}"))?;
	for _ in 0..2 {
		let mut x: Vec<F> = (0..d.n_vars).map(|_| F::draw(s)).collect();
		let y: Vec<F> = (0..7).map(|_| F::draw(s)).collect();
		let got = sub.evaluate(&x).ok();
		x[v] = k;
		ck_eq!(got, Some(d.eval(&x)), "const_subst of x{v}");
		let z: Vec<F> = map.iter().map(|i| y[*i]).collect();
		ck_eq!(ren.evaluate(&y).ok(), Some(d.eval(&z)), "remap_vars {map:?}");
	}
	if n > 0 {
		ck!(c.remap_vars(&map[..n - 1]).is_err(), "remap_vars accepted too few indices");
	}
	// change of field
	let consts: Vec<F> = d.nodes.iter().zip(&used).filter(|(_, u)| **u).filter_map(|(n, _)| if let Node::Const(k) = n { Some(*k) } else { None }).collect();
	let fits = consts.iter().all(|k| G::try_from(*k).is_ok());
	match c.try_convert_field::<G>() {
		Ok(g) => {
			ck!(fits, "constants outside the smaller field were converted");
			let x: Vec<G> = (0..d.n_vars).map(|_| G::draw(s)).collect();
			let xe: Vec<F> = x.iter().map(|v| F::from(*v)).collect();
			ck_eq!(g.evaluate(&x).ok().map(F::from), Some(d.eval(&xe)), "try_convert_field");
			let back: ArithCircuit<F> = g.convert_field();
			same(s, &back, &d, "convert_field")?;
			ck!(back == c, "convert_field changed the circuit");
		}
		Err(_) => ck!(!fits, "constants of the smaller field were refused"),
	}
	// expressions built with operators, without sharing
	if d.tree_size() < 3000 {
		same(s, &d.circuit(), &d, "circuit operators")?;
		same(s, &ArithCircuit::from(d.expr_ops()), &d, "expression operators")?;
		ck!(d.circuit() == c, "equality of circuits does not see through sharing");
		// linear forms
		if let Ok(l) = c.linear_normal_form() {
			s.label("linear");
			for _ in 0..2 {
				let x: Vec<F> = (0..d.n_vars).map(|_| F::draw(s)).collect();
				let v: F = l.var_coeffs.iter().enumerate().map(|(i, k)| *k * x[i]).sum::<F>() + l.constant;
				ck_eq!(v, d.eval(&x), "linear_normal_form");
			}
		} else {
			let lin = d.nodes.iter().zip(&used).all(|(n, u)| {
				!*u || match n {
					Node::Mul(a, b) => d.deg[*a] == 0 || d.deg[*b] == 0,
					Node::Pow(a, e) => d.deg[*a] == 0 || *e <= 1,
					_ => true,
				}
			});
			// a product with a power to the zero has degree 0 but is still read as a variable
			let p0 = d.nodes.iter().any(|n| matches!(n, Node::Pow(_, 0)));
			ck!(!lin || p0, "a linear expression has no linear normal form");
		}
	}
	// sums and products of circuits
	let d2 = Dag::<F>::generate(s, 6, 20, false);
	let parts = [c.clone(), ArithCircuit::from(d2.expr()), c.clone()];
	let sum: ArithCircuit<F> = parts.iter().cloned().sum();
	let prod: ArithCircuit<F> = parts.iter().cloned().product();
	let diff = parts[0].clone() - parts[1].clone();
	let x: Vec<F> = (0..5).map(|_| F::draw(s)).collect();
	let (a, b) = (d.eval(&x), d2.eval(&x));
	ck_eq!(sum.evaluate(&x).ok(), Some(b), "sum of three circuits");
	ck_eq!(prod.evaluate(&x).ok(), Some(a * a * b), "product of three circuits");
	ck_eq!(diff.evaluate(&x).ok(), Some(a + b), "difference of two circuits");
	Ok(())
}

/// The leading term is the top coefficient along every line.
fn leading(s: &mut Src) -> Res {
	type F = BinaryField64b;
	let d = Dag::<F>::generate(s, 10, 9, false);
	s.desc(format!("{:?}", d.nodes));
	let c = ArithCircuit::from(d.expr());
	let deg = c.degree();
	s.nontrivial_if(deg > 1);
	s.label(format!("degree {deg}"));
	let (a, b): (Vec<F>, Vec<F>) = ((0..d.n_vars).map(|_| F::draw(s)).collect(), (0..d.n_vars).map(|_| F::draw(s)).collect());
	// top coefficient of t -> f(a + t b) by divided differences on deg + 1 points
	let ts: Vec<F> = (0..=deg).map(|i| F::of(i as u128)).collect();
	let f = |t: F| -> F { d.eval(&a.iter().zip(&b).map(|(a, b)| *a + *b * t).collect::<Vec<_>>()) };
	let mut top = F::ZERO;
	for i in 0..=deg {
		let den: F = (0..=deg).filter(|j| *j != i).map(|j| ts[i] + ts[j]).product();
		top += f(ts[i]) * den.invert().unwrap();
	}
	let lead = c.leading_term();
	ck_eq!(lead.evaluate(&b).ok(), Some(top), "leading term of degree {deg}");
	// and the degree bounds the polynomial: one point more is consistent
	let mut zero = F::ZERO;
	let ts: Vec<F> = (0..=deg + 1).map(|i| F::of(i as u128)).collect();
	for i in 0..=deg + 1 {
		let den: F = (0..=deg + 1).filter(|j| *j != i).map(|j| ts[i] + ts[j]).product();
		zero += f(ts[i]) * den.invert().unwrap();
	}
	ck_eq!(zero, F::ZERO, "degree is a bound");
	let o = c.optimize();
	if o.degree() == deg {
		ck_eq!(o.leading_term().evaluate(&b).ok(), Some(top), "leading term after optimize");
	}
	Ok(())
}

/// A composition that relies on the provided `batch_evaluate`.
#[derive(Debug, Clone)]
struct Plain<F: Field>(ArithCircuitPoly<F>);
impl<F: TowerField, P: PackedField<Scalar: ExtensionField<F>>> CompositionPoly<P> for Plain<F> {
	fn n_vars(&self) -> usize {
		CompositionPoly::<P>::n_vars(&self.0)
	}
	fn degree(&self) -> usize {
		CompositionPoly::<P>::degree(&self.0)
	}
	fn binary_tower_level(&self) -> usize {
		CompositionPoly::<P>::binary_tower_level(&self.0)
	}
	fn expression(&self) -> ArithCircuit<P::Scalar> {
		CompositionPoly::<P>::expression(&self.0)
	}
	fn evaluate(&self, query: &[P]) -> Result<P, Error> {
		self.0.evaluate(query)
	}
}

fn compiled<F, P>(s: &mut Src) -> Res
where
	F: Fd + TowerField,
	P: PackedField<Scalar: Fd + ExtensionField<F>>,
{
	type E<P> = <P as PackedField>::Scalar;
	let big = s.thorough && s.chance(1, 4);
	let d = Dag::<F>::generate(s, if big { 60 } else { 18 }, 3000, false);
	let extra = s.range(0, 2);
	s.desc(format!("{} on {}x{}: {:?}", F::NAME, P::WIDTH, E::<P>::NAME, d.nodes));
	let used = d.used();
	s.nontrivial_if(d.nodes.iter().zip(&used).any(|(n, u)| *u && matches!(n, Node::Mul(..) | Node::Pow(..))));
	let c = ArithCircuit::from(d.expr());
	let nv = d.n_vars + extra;
	let poly = ArithCircuitPoly::with_n_vars(nv, c.clone()).map_err(|e| format!("with_n_vars: {e}"))?;
	ck_eq!(CompositionPoly::<P>::n_vars(&poly), nv, "n_vars");
	let on = c.clone().optimize().n_vars();
	ck_eq!(CompositionPoly::<P>::n_vars(&ArithCircuitPoly::new(c.clone())), on, "n_vars of new");
	if on > 0 {
		ck!(ArithCircuitPoly::with_n_vars(on - 1, c.clone()).is_err(), "with_n_vars accepted too few variables");
	}
	ck!(CompositionPoly::<P>::degree(&poly) <= c.degree(), "degree of the compiled polynomial");
	let ex: ArithCircuit<E<P>> = CompositionPoly::<P>::expression(&poly);
	// a batch in the middle of longer rows
	let (off, len, tail) = (s.range(0, 3), s.range(1, 4), s.range(0, 2));
	let rows: Vec<Vec<P>> = (0..nv).map(|_| (0..off + len + tail).map(|_| packed::<P>(&vals::<E<P>>(s, P::WIDTH))[0]).collect()).collect();
	let want: Vec<Vec<E<P>>> = (0..len)
		.map(|j| (0..P::WIDTH).map(|l| d.eval(&(0..nv).map(|v| rows[v][off + j].get(l)).collect::<Vec<E<P>>>())).collect())
		.collect();
	let q: Vec<P> = rows.iter().map(|r| r[off]).collect();
	let got = poly.evaluate(&q).map_err(|e| format!("evaluate: {e}"))?;
	ck_eq!(scalars(&[got]), want[0].clone(), "evaluate");
	let xs: Vec<E<P>> = q.iter().map(|p| p.get(0)).collect();
	ck_eq!(ex.evaluate(&xs).ok(), Some(want[0][0]), "expression of the compiled polynomial");
	ck!(poly.evaluate(&q[..nv - 1]).is_err(), "evaluate accepted a short query");
	let refs: Vec<&[P]> = rows.iter().map(|r| &r[..]).collect();
	let full = RowsBatchRef::new(&refs, off + len + tail);
	let part = full.columns_subrange(off..off + len);
	ck_eq!(part.row_len(), len, "row_len of a subrange");
	let flat = |o: &[P]| -> Vec<Vec<E<P>>> { o.iter().map(|p| p.iter().collect()).collect() };
	let mut out: Vec<P> = packed(&vals::<E<P>>(s, len << P::LOG_WIDTH));
	poly.batch_evaluate(&part, &mut out).map_err(|e| format!("batch_evaluate: {e}"))?;
	ck_eq!(flat(&out), want.clone(), "batch_evaluate on columns {off}..{}", off + len);
	let mut out: Vec<P> = packed(&vals::<E<P>>(s, len << P::LOG_WIDTH));
	Plain(poly.clone()).batch_evaluate(&part, &mut out).map_err(|e| format!("default batch_evaluate: {e}"))?;
	ck_eq!(flat(&out), want.clone(), "default batch_evaluate on columns {off}..{}", off + len);
	let mut long = vec![P::zero(); len + 1];
	ck!(poly.batch_evaluate(&part, &mut long).is_err(), "batch_evaluate accepted a longer output");
	// rows picked by index, as composed polynomials do
	let idx: Vec<usize> = (0..s.range(1, 4)).map(|_| s.index(nv)).collect();
	let picked: RowsBatch<P> = part.map(&idx);
	for (k, i) in idx.iter().enumerate() {
		ck_eq!(picked.get_ref().row(k), &rows[*i][off..off + len], "row {k} of map");
	}
	for (i, r) in part.iter().enumerate() {
		ck_eq!(r, &rows[i][off..off + len], "row {i} of iter");
		ck_eq!(part.row(i), r, "row({i})");
	}
	Ok(())
}

fn circuits_all(s: &mut Src) -> Res {
	let fs: &[fn(&mut Src) -> Res] = &[
		circuits::<BinaryField8b, BinaryField1b>,
		circuits::<BinaryField8b, BinaryField4b>,
		circuits::<BinaryField32b, BinaryField8b>,
		circuits::<BinaryField128b, BinaryField1b>,
		circuits::<BinaryField128b, BinaryField64b>,
		circuits::<AESTowerField128b, AESTowerField8b>,
		circuits::<BinaryField1b, BinaryField1b>,
	];
	let i = s.index(fs.len());
	fs[i](s)
}
fn compiled_all(s: &mut Src) -> Res {
	let fs: &[fn(&mut Src) -> Res] = &[
		compiled::<BinaryField1b, PackedBinaryField128x1b>,
		compiled::<BinaryField1b, PackedBinaryField1x128b>,
		compiled::<BinaryField8b, PackedBinaryField16x8b>,
		compiled::<BinaryField8b, PackedBinaryField2x128b>,
		compiled::<BinaryField8b, BinaryField8b>,
		compiled::<BinaryField16b, PackedBinaryField2x32b>,
		compiled::<BinaryField128b, PackedBinaryField1x128b>,
		compiled::<BinaryField128b, PackedBinaryField4x128b>,
		compiled::<AESTowerField8b, PackedAESBinaryField4x32b>,
	];
	let i = s.index(fs.len());
	fs[i](s)
}

fn main() {
	run(Prop {
		id: "C13",
		rule: "the value of the generated expression graph depends on a product or power node",
		assumptions: &["scalar field arithmetic (C06)", "graphs of up to 18 nodes (60 in the thorough tier), total degree up to 3000", "no power to the zero in compiled polynomials"],
		subs: vec![
			Sub { name: "circuits", quick: 150000, thorough: 3000000, threads: 0, f: circuits_all },
			Sub { name: "leading", quick: 200000, thorough: 2000000, threads: 0, f: leading },
			Sub { name: "compiled", quick: 600000, thorough: 4000000, threads: 0, f: compiled_all },
		],
	})
}
