//! Reference models, written from the mathematical definitions only.

/// Multiplication in the Fan-Paar tower level `k` (field with 2^k bits), schoolbook recursion:
/// T_0 = GF(2), T_k = T_{k-1}[X] / (X^2 + X * a + 1) with a = 1 for k = 1 and a = X_{k-2}, the
/// generator of T_{k-1} over T_{k-2}, otherwise.
pub fn tower_mul(a: u128, b: u128, k: usize) -> u128 {
	if k == 0 {
		return a & b & 1;
	}
	if a == 0 || b == 0 {
		return 0;
	}
	let h = 1u32 << (k - 1);
	let m = (1u128 << h) - 1;
	let (a0, a1, b0, b1) = (a & m, a >> h, b & m, b >> h);
	let z0 = tower_mul(a0, b0, k - 1);
	let z2 = tower_mul(a1, b1, k - 1);
	let z1 = tower_mul(a0 ^ a1, b0 ^ b1, k - 1) ^ z0 ^ z2;
	let alpha = if k == 1 { 1 } else { 1u128 << (1u32 << (k - 2)) };
	let z2a = tower_mul(z2, alpha, k - 1);
	(z0 ^ z2) | ((z1 ^ z2a) << h)
}

/// GF(2)[x] / (x^8+x^4+x^3+x+1), shift-and-add.
pub fn aes8_mul(mut a: u128, b: u128) -> u128 {
	let mut r = 0;
	for i in 0..8 {
		if b >> i & 1 == 1 {
			r ^= a;
		}
		a <<= 1;
		if a & 0x100 != 0 {
			a ^= 0x11b;
		}
	}
	r
}

/// a * x^-1 modulo x^128 + x^127 + x^126 + x^121 + 1
fn polyval_div_x(a: u128) -> u128 {
	if a & 1 == 1 {
		// (a + p) / x
		(a >> 1) ^ (1 << 127) ^ (1 << 126) ^ (1 << 125) ^ (1 << 120)
	} else {
		a >> 1
	}
}

/// POLYVAL's dot(a, b) = a * b * x^-128.
pub fn polyval_dot(a: u128, b: u128) -> u128 {
	// Horner from the low coefficient of b: acc = (acc + a*b_i) / x, for i = 0..127.
	let mut acc = 0u128;
	for i in 0..128 {
		if b >> i & 1 == 1 {
			acc ^= a;
		}
		acc = polyval_div_x(acc);
	}
	acc
}

/// Applies a GF(2)-linear map on bytes to each of the `n` bytes.
pub fn bytewise(a: u128, n: usize, f: impl Fn(u8) -> u8) -> u128 {
	let mut r = 0;
	for i in 0..n {
		r |= (f((a >> (8 * i)) as u8) as u128) << (8 * i);
	}
	r
}

pub fn mask(bits: usize) -> u128 {
	if bits >= 128 { u128::MAX } else { (1u128 << bits) - 1 }
}
