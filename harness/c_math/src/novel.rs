//! Direct evaluation of novel-basis polynomials over binary subspaces (the oracle for the additive NTT).
use binius_field::BinaryField;

/// Bases of the domains S^(0), S^(1), ...: each is the image of the one before under the
/// normalised vanishing polynomial of {0, first basis element}.
pub fn domains<F: BinaryField>(basis: &[F]) -> Vec<Vec<F>> {
	let mut out = vec![];
	let mut b = basis.to_vec();
	while !b.is_empty() {
		// W(X) = X (X + b_0), normalised at b_1
		let norm = if b.len() > 1 { (b[1] * (b[1] + b[0])).invert().unwrap() } else { F::ONE };
		let next: Vec<F> = b[1..].iter().map(|x| *x * (*x + b[0]) * norm).collect();
		out.push(b);
		b = next;
	}
	out.push(vec![]);
	out
}

pub fn point<F: BinaryField>(basis: &[F], i: usize) -> F {
	basis.iter().enumerate().filter(|(k, _)| i >> k & 1 == 1).map(|(_, b)| *b).sum()
}

/// The novel basis of the space spanned by `basis`: W_i(b_i) and its inverse for every i.
pub struct Novel<F>(pub Vec<(F, F)>);
impl<F: BinaryField> Novel<F> {
	pub fn new(basis: &[F]) -> Self {
		let mut w: Vec<F> = basis.to_vec();
		let mut out = vec![];
		for i in 0..w.len() {
			let wi = w[i];
			out.push((wi, wi.invert().unwrap()));
			for v in &mut w {
				*v = *v * (*v + wi);
			}
		}
		Novel(out)
	}
	/// Values at `x` of the first 2^k novel basis polynomials.
	pub fn at(&self, k: usize, x: F) -> Vec<F> {
		let mut out = Vec::with_capacity(1 << k);
		out.push(F::ONE);
		let mut wx = x;
		for (w, inv) in &self.0[..k] {
			let h = wx * *inv;
			for j in 0..out.len() {
				let v = out[j] * h;
				out.push(v);
			}
			wx = wx * (wx + *w);
		}
		out
	}
}

pub struct Ref<F> {
	pub doms: Vec<Vec<F>>,
	pub nov: Vec<Novel<F>>,
}
impl<F: BinaryField> Ref<F> {
	pub fn new(basis: &[F]) -> Self {
		let doms = domains(basis);
		let nov = doms.iter().map(|d| Novel::new(d)).collect();
		Ref { doms, nov }
	}
	pub fn nov(&self, dim: usize) -> &Novel<F> {
		&self.nov[self.nov.len() - 1 - dim]
	}
	pub fn dom(&self, dim: usize) -> &[F] {
		&self.doms[self.doms.len() - 1 - dim]
	}
	/// Output `y` of the transform of `coef` (of length 2^log_y) on a coset.
	pub fn at(&self, coef: &[F], log_y: usize, coset: usize, coset_bits: usize, y: usize) -> F {
		let b = self.dom(log_y + coset_bits);
		let x = point(b, coset << log_y | y);
		self.nov(log_y + coset_bits).at(log_y, x).into_iter().zip(coef).map(|(a, c)| a * *c).sum()
	}
}
