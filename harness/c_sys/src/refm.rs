//! Independent tower arithmetic on bit patterns (no repository code).
use std::sync::OnceLock;

fn slow(a: u128, b: u128, k: usize) -> u128 {
	if k == 0 {
		return a & b & 1;
	}
	let h = 1u32 << (k - 1);
	let m = (1u128 << h) - 1;
	let (a0, a1, b0, b1) = (a & m, a >> h, b & m, b >> h);
	let z0 = slow(a0, b0, k - 1);
	let z2 = slow(a1, b1, k - 1);
	let z1 = slow(a0 ^ a1, b0 ^ b1, k - 1) ^ z0 ^ z2;
	let alpha = if k == 1 { 1 } else { 1u128 << (1u32 << (k - 2)) };
	(z0 ^ z2) | ((z1 ^ slow(z2, alpha, k - 1)) << h)
}

fn table() -> &'static [u8] {
	static T: OnceLock<Vec<u8>> = OnceLock::new();
	T.get_or_init(|| {
		(0..1u128 << 16).map(|i| slow(i & 255, i >> 8, 3) as u8).collect()
	})
}

fn mul_k(a: u128, b: u128, k: usize) -> u128 {
	if a == 0 || b == 0 {
		return 0;
	}
	if k == 3 {
		return table()[(a | b << 8) as usize] as u128;
	}
	let h = 1u32 << (k - 1);
	let m = (1u128 << h) - 1;
	let (a0, a1, b0, b1) = (a & m, a >> h, b & m, b >> h);
	let z0 = mul_k(a0, b0, k - 1);
	let z2 = mul_k(a1, b1, k - 1);
	let z1 = mul_k(a0 ^ a1, b0 ^ b1, k - 1) ^ z0 ^ z2;
	let alpha = 1u128 << (1u32 << (k - 2));
	(z0 ^ z2) | ((z1 ^ mul_k(z2, alpha, k - 1)) << h)
}

/// Multiplication in GF(2^128), the canonical tower; subfields are closed under it.
pub fn mul(a: u128, b: u128) -> u128 {
	let w = a | b;
	let k = if w < 1 << 8 {
		3
	} else if w < 1 << 16 {
		4
	} else if w < 1 << 32 {
		5
	} else if w < 1 << 64 {
		6
	} else {
		7
	};
	mul_k(a, b, k)
}

pub fn pow(mut b: u128, mut e: u128) -> u128 {
	let mut r = 1;
	while e != 0 {
		if e & 1 == 1 {
			r = mul(r, b);
		}
		b = mul(b, b);
		e >>= 1;
	}
	r
}

pub fn mask(level: usize) -> u128 {
	if level >= 7 { u128::MAX } else { (1u128 << (1u32 << level)) - 1 }
}

/// The smallest tower level containing v.
pub fn min_level(v: u128) -> usize {
	(0..8).find(|&k| v & !mask(k) == 0).unwrap()
}
