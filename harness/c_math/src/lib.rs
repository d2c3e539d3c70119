pub mod novel;
pub use c_field::{Bulk, Fd, Mix, Prop, Res, Src, Sub, ck, ck_eq, no_panic, run};

use binius_field::{PackedField, packed::set_packed_slice};

/// Scalars of a slice of packed elements, in order.
pub fn scalars<P: PackedField>(xs: &[P]) -> Vec<P::Scalar> {
	xs.iter().flat_map(|p| p.iter()).collect()
}
/// `vals` packed, zero-filled to a whole number of packed elements.
pub fn packed<P: PackedField>(vals: &[P::Scalar]) -> Vec<P> {
	let mut out = vec![P::zero(); vals.len().div_ceil(P::WIDTH)];
	for (i, v) in vals.iter().enumerate() {
		set_packed_slice(&mut out, i, *v);
	}
	out
}
pub fn vals<F: Fd>(s: &mut Src, n: usize) -> Vec<F> {
	let mut b = s.bulk();
	(0..n).map(|_| F::next(&mut b)).collect()
}
