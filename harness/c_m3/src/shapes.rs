//! Dispatch from run-time column shapes to the types of the builder: (tower level, log2 of the stacked values).

pub const SHAPES: &[(usize, usize)] = &[(0, 0), (0, 1), (0, 2), (0, 3), (0, 4), (0, 5), (0, 6), (0, 7), (0, 8), (3, 0), (3, 1), (3, 2), (3, 3), (3, 4), (3, 5), (4, 0), (4, 1), (4, 2), (4, 3), (5, 0), (5, 1), (5, 2), (5, 3), (6, 0), (6, 1), (6, 2), (7, 0), (7, 1)];

#[macro_export]
macro_rules! shape {
	($s:expr, |$F:ident, $V:ident| $b:expr) => {
		match $s {
			(0, 0) => { type $F = B1; const $V: usize = 1; $b }
			(0, 1) => { type $F = B1; const $V: usize = 2; $b }
			(0, 2) => { type $F = B1; const $V: usize = 4; $b }
			(0, 3) => { type $F = B1; const $V: usize = 8; $b }
			(0, 4) => { type $F = B1; const $V: usize = 16; $b }
			(0, 5) => { type $F = B1; const $V: usize = 32; $b }
			(0, 6) => { type $F = B1; const $V: usize = 64; $b }
			(0, 7) => { type $F = B1; const $V: usize = 128; $b }
			(0, 8) => { type $F = B1; const $V: usize = 256; $b }
			(3, 0) => { type $F = B8; const $V: usize = 1; $b }
			(3, 1) => { type $F = B8; const $V: usize = 2; $b }
			(3, 2) => { type $F = B8; const $V: usize = 4; $b }
			(3, 3) => { type $F = B8; const $V: usize = 8; $b }
			(3, 4) => { type $F = B8; const $V: usize = 16; $b }
			(3, 5) => { type $F = B8; const $V: usize = 32; $b }
			(4, 0) => { type $F = B16; const $V: usize = 1; $b }
			(4, 1) => { type $F = B16; const $V: usize = 2; $b }
			(4, 2) => { type $F = B16; const $V: usize = 4; $b }
			(4, 3) => { type $F = B16; const $V: usize = 8; $b }
			(5, 0) => { type $F = B32; const $V: usize = 1; $b }
			(5, 1) => { type $F = B32; const $V: usize = 2; $b }
			(5, 2) => { type $F = B32; const $V: usize = 4; $b }
			(5, 3) => { type $F = B32; const $V: usize = 8; $b }
			(6, 0) => { type $F = B64; const $V: usize = 1; $b }
			(6, 1) => { type $F = B64; const $V: usize = 2; $b }
			(6, 2) => { type $F = B64; const $V: usize = 4; $b }
			(7, 0) => { type $F = B128; const $V: usize = 1; $b }
			(7, 1) => { type $F = B128; const $V: usize = 2; $b }
			_ => unreachable!(),
		}
	};
}

/// Columns of the same level, the second with more stacked values.
#[macro_export]
macro_rules! grow {
	($l:expr, $a:expr, $b:expr, |$F:ident, $V:ident, $W:ident| $e:expr) => {
		match ($l, $a, $b) {
			(0, 0, 1) => { type $F = B1; const $V: usize = 1; const $W: usize = 2; $e }
			(0, 0, 2) => { type $F = B1; const $V: usize = 1; const $W: usize = 4; $e }
			(0, 0, 3) => { type $F = B1; const $V: usize = 1; const $W: usize = 8; $e }
			(0, 0, 4) => { type $F = B1; const $V: usize = 1; const $W: usize = 16; $e }
			(0, 0, 5) => { type $F = B1; const $V: usize = 1; const $W: usize = 32; $e }
			(0, 0, 6) => { type $F = B1; const $V: usize = 1; const $W: usize = 64; $e }
			(0, 0, 7) => { type $F = B1; const $V: usize = 1; const $W: usize = 128; $e }
			(0, 0, 8) => { type $F = B1; const $V: usize = 1; const $W: usize = 256; $e }
			(0, 1, 2) => { type $F = B1; const $V: usize = 2; const $W: usize = 4; $e }
			(0, 1, 3) => { type $F = B1; const $V: usize = 2; const $W: usize = 8; $e }
			(0, 1, 4) => { type $F = B1; const $V: usize = 2; const $W: usize = 16; $e }
			(0, 1, 5) => { type $F = B1; const $V: usize = 2; const $W: usize = 32; $e }
			(0, 1, 6) => { type $F = B1; const $V: usize = 2; const $W: usize = 64; $e }
			(0, 1, 7) => { type $F = B1; const $V: usize = 2; const $W: usize = 128; $e }
			(0, 1, 8) => { type $F = B1; const $V: usize = 2; const $W: usize = 256; $e }
			(0, 2, 3) => { type $F = B1; const $V: usize = 4; const $W: usize = 8; $e }
			(0, 2, 4) => { type $F = B1; const $V: usize = 4; const $W: usize = 16; $e }
			(0, 2, 5) => { type $F = B1; const $V: usize = 4; const $W: usize = 32; $e }
			(0, 2, 6) => { type $F = B1; const $V: usize = 4; const $W: usize = 64; $e }
			(0, 2, 7) => { type $F = B1; const $V: usize = 4; const $W: usize = 128; $e }
			(0, 2, 8) => { type $F = B1; const $V: usize = 4; const $W: usize = 256; $e }
			(0, 3, 4) => { type $F = B1; const $V: usize = 8; const $W: usize = 16; $e }
			(0, 3, 5) => { type $F = B1; const $V: usize = 8; const $W: usize = 32; $e }
			(0, 3, 6) => { type $F = B1; const $V: usize = 8; const $W: usize = 64; $e }
			(0, 3, 7) => { type $F = B1; const $V: usize = 8; const $W: usize = 128; $e }
			(0, 3, 8) => { type $F = B1; const $V: usize = 8; const $W: usize = 256; $e }
			(0, 4, 5) => { type $F = B1; const $V: usize = 16; const $W: usize = 32; $e }
			(0, 4, 6) => { type $F = B1; const $V: usize = 16; const $W: usize = 64; $e }
			(0, 4, 7) => { type $F = B1; const $V: usize = 16; const $W: usize = 128; $e }
			(0, 4, 8) => { type $F = B1; const $V: usize = 16; const $W: usize = 256; $e }
			(0, 5, 6) => { type $F = B1; const $V: usize = 32; const $W: usize = 64; $e }
			(0, 5, 7) => { type $F = B1; const $V: usize = 32; const $W: usize = 128; $e }
			(0, 5, 8) => { type $F = B1; const $V: usize = 32; const $W: usize = 256; $e }
			(0, 6, 7) => { type $F = B1; const $V: usize = 64; const $W: usize = 128; $e }
			(0, 6, 8) => { type $F = B1; const $V: usize = 64; const $W: usize = 256; $e }
			(0, 7, 8) => { type $F = B1; const $V: usize = 128; const $W: usize = 256; $e }
			(3, 0, 1) => { type $F = B8; const $V: usize = 1; const $W: usize = 2; $e }
			(3, 0, 2) => { type $F = B8; const $V: usize = 1; const $W: usize = 4; $e }
			(3, 0, 3) => { type $F = B8; const $V: usize = 1; const $W: usize = 8; $e }
			(3, 0, 4) => { type $F = B8; const $V: usize = 1; const $W: usize = 16; $e }
			(3, 0, 5) => { type $F = B8; const $V: usize = 1; const $W: usize = 32; $e }
			(3, 1, 2) => { type $F = B8; const $V: usize = 2; const $W: usize = 4; $e }
			(3, 1, 3) => { type $F = B8; const $V: usize = 2; const $W: usize = 8; $e }
			(3, 1, 4) => { type $F = B8; const $V: usize = 2; const $W: usize = 16; $e }
			(3, 1, 5) => { type $F = B8; const $V: usize = 2; const $W: usize = 32; $e }
			(3, 2, 3) => { type $F = B8; const $V: usize = 4; const $W: usize = 8; $e }
			(3, 2, 4) => { type $F = B8; const $V: usize = 4; const $W: usize = 16; $e }
			(3, 2, 5) => { type $F = B8; const $V: usize = 4; const $W: usize = 32; $e }
			(3, 3, 4) => { type $F = B8; const $V: usize = 8; const $W: usize = 16; $e }
			(3, 3, 5) => { type $F = B8; const $V: usize = 8; const $W: usize = 32; $e }
			(3, 4, 5) => { type $F = B8; const $V: usize = 16; const $W: usize = 32; $e }
			(4, 0, 1) => { type $F = B16; const $V: usize = 1; const $W: usize = 2; $e }
			(4, 0, 2) => { type $F = B16; const $V: usize = 1; const $W: usize = 4; $e }
			(4, 0, 3) => { type $F = B16; const $V: usize = 1; const $W: usize = 8; $e }
			(4, 1, 2) => { type $F = B16; const $V: usize = 2; const $W: usize = 4; $e }
			(4, 1, 3) => { type $F = B16; const $V: usize = 2; const $W: usize = 8; $e }
			(4, 2, 3) => { type $F = B16; const $V: usize = 4; const $W: usize = 8; $e }
			(5, 0, 1) => { type $F = B32; const $V: usize = 1; const $W: usize = 2; $e }
			(5, 0, 2) => { type $F = B32; const $V: usize = 1; const $W: usize = 4; $e }
			(5, 0, 3) => { type $F = B32; const $V: usize = 1; const $W: usize = 8; $e }
			(5, 1, 2) => { type $F = B32; const $V: usize = 2; const $W: usize = 4; $e }
			(5, 1, 3) => { type $F = B32; const $V: usize = 2; const $W: usize = 8; $e }
			(5, 2, 3) => { type $F = B32; const $V: usize = 4; const $W: usize = 8; $e }
			(6, 0, 1) => { type $F = B64; const $V: usize = 1; const $W: usize = 2; $e }
			(6, 0, 2) => { type $F = B64; const $V: usize = 1; const $W: usize = 4; $e }
			(6, 1, 2) => { type $F = B64; const $V: usize = 2; const $W: usize = 4; $e }
			(7, 0, 1) => { type $F = B128; const $V: usize = 1; const $W: usize = 2; $e }
			_ => unreachable!(),
		}
	};
}

/// Columns of the same cell size, the second of a higher level.
#[macro_export]
macro_rules! packing {
	($a:expr, $l:expr, |$F:ident, $V:ident, $G:ident, $W:ident| $e:expr) => {
		match ($a, $l) {
			((0, 3), 3) => { type $F = B1; const $V: usize = 8; type $G = B8; const $W: usize = 1; $e }
			((0, 4), 3) => { type $F = B1; const $V: usize = 16; type $G = B8; const $W: usize = 2; $e }
			((0, 4), 4) => { type $F = B1; const $V: usize = 16; type $G = B16; const $W: usize = 1; $e }
			((0, 5), 3) => { type $F = B1; const $V: usize = 32; type $G = B8; const $W: usize = 4; $e }
			((0, 5), 4) => { type $F = B1; const $V: usize = 32; type $G = B16; const $W: usize = 2; $e }
			((0, 5), 5) => { type $F = B1; const $V: usize = 32; type $G = B32; const $W: usize = 1; $e }
			((0, 6), 3) => { type $F = B1; const $V: usize = 64; type $G = B8; const $W: usize = 8; $e }
			((0, 6), 4) => { type $F = B1; const $V: usize = 64; type $G = B16; const $W: usize = 4; $e }
			((0, 6), 5) => { type $F = B1; const $V: usize = 64; type $G = B32; const $W: usize = 2; $e }
			((0, 6), 6) => { type $F = B1; const $V: usize = 64; type $G = B64; const $W: usize = 1; $e }
			((0, 7), 3) => { type $F = B1; const $V: usize = 128; type $G = B8; const $W: usize = 16; $e }
			((0, 7), 4) => { type $F = B1; const $V: usize = 128; type $G = B16; const $W: usize = 8; $e }
			((0, 7), 5) => { type $F = B1; const $V: usize = 128; type $G = B32; const $W: usize = 4; $e }
			((0, 7), 6) => { type $F = B1; const $V: usize = 128; type $G = B64; const $W: usize = 2; $e }
			((0, 7), 7) => { type $F = B1; const $V: usize = 128; type $G = B128; const $W: usize = 1; $e }
			((0, 8), 3) => { type $F = B1; const $V: usize = 256; type $G = B8; const $W: usize = 32; $e }
			((0, 8), 5) => { type $F = B1; const $V: usize = 256; type $G = B32; const $W: usize = 8; $e }
			((0, 8), 6) => { type $F = B1; const $V: usize = 256; type $G = B64; const $W: usize = 4; $e }
			((0, 8), 7) => { type $F = B1; const $V: usize = 256; type $G = B128; const $W: usize = 2; $e }
			((3, 1), 4) => { type $F = B8; const $V: usize = 2; type $G = B16; const $W: usize = 1; $e }
			((3, 2), 4) => { type $F = B8; const $V: usize = 4; type $G = B16; const $W: usize = 2; $e }
			((3, 2), 5) => { type $F = B8; const $V: usize = 4; type $G = B32; const $W: usize = 1; $e }
			((3, 3), 4) => { type $F = B8; const $V: usize = 8; type $G = B16; const $W: usize = 4; $e }
			((3, 3), 5) => { type $F = B8; const $V: usize = 8; type $G = B32; const $W: usize = 2; $e }
			((3, 3), 6) => { type $F = B8; const $V: usize = 8; type $G = B64; const $W: usize = 1; $e }
			((3, 4), 4) => { type $F = B8; const $V: usize = 16; type $G = B16; const $W: usize = 8; $e }
			((3, 4), 5) => { type $F = B8; const $V: usize = 16; type $G = B32; const $W: usize = 4; $e }
			((3, 4), 6) => { type $F = B8; const $V: usize = 16; type $G = B64; const $W: usize = 2; $e }
			((3, 4), 7) => { type $F = B8; const $V: usize = 16; type $G = B128; const $W: usize = 1; $e }
			((3, 5), 5) => { type $F = B8; const $V: usize = 32; type $G = B32; const $W: usize = 8; $e }
			((3, 5), 6) => { type $F = B8; const $V: usize = 32; type $G = B64; const $W: usize = 4; $e }
			((3, 5), 7) => { type $F = B8; const $V: usize = 32; type $G = B128; const $W: usize = 2; $e }
			((4, 1), 5) => { type $F = B16; const $V: usize = 2; type $G = B32; const $W: usize = 1; $e }
			((4, 2), 5) => { type $F = B16; const $V: usize = 4; type $G = B32; const $W: usize = 2; $e }
			((4, 2), 6) => { type $F = B16; const $V: usize = 4; type $G = B64; const $W: usize = 1; $e }
			((4, 3), 5) => { type $F = B16; const $V: usize = 8; type $G = B32; const $W: usize = 4; $e }
			((4, 3), 6) => { type $F = B16; const $V: usize = 8; type $G = B64; const $W: usize = 2; $e }
			((4, 3), 7) => { type $F = B16; const $V: usize = 8; type $G = B128; const $W: usize = 1; $e }
			((5, 1), 6) => { type $F = B32; const $V: usize = 2; type $G = B64; const $W: usize = 1; $e }
			((5, 2), 6) => { type $F = B32; const $V: usize = 4; type $G = B64; const $W: usize = 2; $e }
			((5, 2), 7) => { type $F = B32; const $V: usize = 4; type $G = B128; const $W: usize = 1; $e }
			((5, 3), 6) => { type $F = B32; const $V: usize = 8; type $G = B64; const $W: usize = 4; $e }
			((5, 3), 7) => { type $F = B32; const $V: usize = 8; type $G = B128; const $W: usize = 2; $e }
			((6, 1), 7) => { type $F = B64; const $V: usize = 2; type $G = B128; const $W: usize = 1; $e }
			((6, 2), 7) => { type $F = B64; const $V: usize = 4; type $G = B128; const $W: usize = 2; $e }
			_ => unreachable!(),
		}
	};
}

pub const PACKINGS: &[(usize, usize, usize)] = &[(0, 3, 3), (0, 4, 3), (0, 4, 4), (0, 5, 3), (0, 5, 4), (0, 5, 5), (0, 6, 3), (0, 6, 4), (0, 6, 5), (0, 6, 6), (0, 7, 3), (0, 7, 4), (0, 7, 5), (0, 7, 6), (0, 7, 7), (0, 8, 3), (0, 8, 5), (0, 8, 6), (0, 8, 7), (3, 1, 4), (3, 2, 4), (3, 2, 5), (3, 3, 4), (3, 3, 5), (3, 3, 6), (3, 4, 4), (3, 4, 5), (3, 4, 6), (3, 4, 7), (3, 5, 5), (3, 5, 6), (3, 5, 7), (4, 1, 5), (4, 2, 5), (4, 2, 6), (4, 3, 5), (4, 3, 6), (4, 3, 7), (5, 1, 6), (5, 2, 6), (5, 2, 7), (5, 3, 6), (5, 3, 7), (6, 1, 7), (6, 2, 7)];
