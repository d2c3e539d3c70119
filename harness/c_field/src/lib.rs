pub mod refm;
use std::sync::OnceLock;

pub use binius_field::{
	arch::{
		byte_sliced::*, packed_1::*, packed_2::*, packed_4::*, packed_8::*, packed_16::*,
		packed_32::*, packed_64::*, packed_128::*, packed_256::*, packed_512::*, packed_aes_8::*,
		packed_aes_16::*, packed_aes_32::*, packed_aes_64::*, packed_aes_128::*,
		packed_aes_256::*, packed_aes_512::*, packed_polyval_128::*, packed_polyval_256::*,
		packed_polyval_512::*,
	},
	*,
};
pub use vp::*;

pub struct AesIso {
	pub to: [u8; 256],
	pub from: [u8; 256],
}

/// The isomorphism from the AES byte field to the canonical tower's bytes, rebuilt from the image of
/// the single generator x = 0x02; `None` if that image is not a root of the AES polynomial.
pub fn aes_iso() -> Option<&'static AesIso> {
	static T: OnceLock<Option<AesIso>> = OnceLock::new();
	T.get_or_init(|| {
		let r = BinaryField8b::from(AESTowerField8b::new(2)).val() as u128;
		let mut pows = vec![1u128];
		for _ in 0..8 {
			pows.push(refm::tower_mul(*pows.last().unwrap(), r, 3));
		}
		if pows[8] ^ pows[4] ^ pows[3] ^ pows[1] ^ pows[0] != 0 {
			return None;
		}
		let mut to = [0u8; 256];
		let mut from = [0u8; 256];
		for v in 0..256usize {
			let mut y = 0u128;
			for (i, p) in pows.iter().take(8).enumerate() {
				if v >> i & 1 == 1 {
					y ^= p;
				}
			}
			to[v] = y as u8;
			from[y as usize] = v as u8;
		}
		Some(AesIso { to, from })
	})
	.as_ref()
}

/// A scalar field under test, with its reference multiplication on raw bit patterns.
pub trait Fd: TowerField {
	const NAME: &'static str;
	const BITS: usize;
	fn of(v: u128) -> Self;
	fn raw(self) -> u128;
	fn ref_mul(a: u128, b: u128) -> u128;
	fn ref_one() -> u128 {
		1
	}
	fn draw(s: &mut Src) -> Self {
		Self::of(s.special_u128() & refm::mask(Self::BITS))
	}
	fn next(b: &mut Bulk) -> Self {
		Self::of(b.u128() & refm::mask(Self::BITS))
	}
}

macro_rules! fd_tower {
	($($t:ident $bits:literal $lvl:literal $u:ty, $conv:expr;)*) => {$(
		impl Fd for $t {
			const NAME: &'static str = stringify!($t);
			const BITS: usize = $bits;
			fn of(v: u128) -> Self { let c: fn(u128) -> $t = $conv; c(v) }
			fn raw(self) -> u128 { u128::from(self.val()) }
			fn ref_mul(a: u128, b: u128) -> u128 { refm::tower_mul(a, b, $lvl) }
		}
	)*}
}
use binius_field::underlier::{U1, U2, U4};
fd_tower! {
	BinaryField1b 1 0 U1, |v| BinaryField1b::new(U1::new(v as u8));
	BinaryField2b 2 1 U2, |v| BinaryField2b::new(U2::new(v as u8));
	BinaryField4b 4 2 U4, |v| BinaryField4b::new(U4::new(v as u8));
	BinaryField8b 8 3 u8, |v| BinaryField8b::new(v as u8);
	BinaryField16b 16 4 u16, |v| BinaryField16b::new(v as u16);
	BinaryField32b 32 5 u32, |v| BinaryField32b::new(v as u32);
	BinaryField64b 64 6 u64, |v| BinaryField64b::new(v as u64);
	BinaryField128b 128 7 u128, |v| BinaryField128b::new(v);
}
macro_rules! fd_aes {
	($($t:ident $bits:literal $lvl:literal $u:ty;)*) => {$(
		impl Fd for $t {
			const NAME: &'static str = stringify!($t);
			const BITS: usize = $bits;
			fn of(v: u128) -> Self { $t::new(v as $u) }
			fn raw(self) -> u128 { self.val() as u128 }
			fn ref_mul(a: u128, b: u128) -> u128 {
				if $bits == 8 { return refm::aes8_mul(a, b); }
				let iso = aes_iso().expect("image of the AES generator is a root of the AES polynomial");
				let n = $bits / 8;
				let (x, y) = (refm::bytewise(a, n, |v| iso.to[v as usize]), refm::bytewise(b, n, |v| iso.to[v as usize]));
				refm::bytewise(refm::tower_mul(x, y, $lvl), n, |v| iso.from[v as usize])
			}
		}
	)*}
}
fd_aes! {
	AESTowerField8b 8 3 u8;
	AESTowerField16b 16 4 u16;
	AESTowerField32b 32 5 u32;
	AESTowerField64b 64 6 u64;
	AESTowerField128b 128 7 u128;
}
impl Fd for BinaryField128bPolyval {
	const NAME: &'static str = "BinaryField128bPolyval";
	const BITS: usize = 128;
	fn of(v: u128) -> Self {
		Self::from(v)
	}
	fn raw(self) -> u128 {
		self.into()
	}
	fn ref_mul(a: u128, b: u128) -> u128 {
		refm::polyval_dot(a, b)
	}
	fn ref_one() -> u128 {
		0xc2000000000000000000000000000001
	}
}

/// Calls `$m!{ T }` for each scalar type.
#[macro_export]
macro_rules! scalar_list {
	($m:ident) => {
		$m! { BinaryField1b BinaryField2b BinaryField4b BinaryField8b BinaryField16b BinaryField32b BinaryField64b
			BinaryField128b AESTowerField8b AESTowerField16b AESTowerField32b AESTowerField64b AESTowerField128b
			BinaryField128bPolyval }
	};
}

#[macro_export]
macro_rules! packed_list {
	($m:ident) => {
		$m! {
			PackedBinaryField1x1b PackedBinaryField2x1b PackedBinaryField1x2b PackedBinaryField4x1b
			PackedBinaryField2x2b PackedBinaryField1x4b PackedBinaryField8x1b PackedBinaryField4x2b
			PackedBinaryField2x4b PackedBinaryField1x8b PackedBinaryField16x1b PackedBinaryField8x2b
			PackedBinaryField4x4b PackedBinaryField2x8b PackedBinaryField1x16b PackedBinaryField32x1b
			PackedBinaryField16x2b PackedBinaryField8x4b PackedBinaryField4x8b PackedBinaryField2x16b
			PackedBinaryField1x32b PackedBinaryField64x1b PackedBinaryField32x2b PackedBinaryField16x4b
			PackedBinaryField8x8b PackedBinaryField4x16b PackedBinaryField2x32b PackedBinaryField1x64b
			PackedBinaryField128x1b PackedBinaryField64x2b PackedBinaryField32x4b PackedBinaryField16x8b
			PackedBinaryField8x16b PackedBinaryField4x32b PackedBinaryField2x64b PackedBinaryField1x128b
			PackedBinaryField256x1b PackedBinaryField128x2b PackedBinaryField64x4b PackedBinaryField32x8b
			PackedBinaryField16x16b PackedBinaryField8x32b PackedBinaryField4x64b PackedBinaryField2x128b
			PackedBinaryField512x1b PackedBinaryField256x2b PackedBinaryField128x4b PackedBinaryField64x8b
			PackedBinaryField32x16b PackedBinaryField16x32b PackedBinaryField8x64b PackedBinaryField4x128b
			PackedAESBinaryField1x8b PackedAESBinaryField2x8b PackedAESBinaryField1x16b
			PackedAESBinaryField4x8b PackedAESBinaryField2x16b PackedAESBinaryField1x32b
			PackedAESBinaryField8x8b PackedAESBinaryField4x16b PackedAESBinaryField2x32b
			PackedAESBinaryField1x64b PackedAESBinaryField16x8b PackedAESBinaryField8x16b
			PackedAESBinaryField4x32b PackedAESBinaryField2x64b PackedAESBinaryField1x128b
			PackedAESBinaryField32x8b PackedAESBinaryField16x16b PackedAESBinaryField8x32b
			PackedAESBinaryField4x64b PackedAESBinaryField2x128b PackedAESBinaryField64x8b
			PackedAESBinaryField32x16b PackedAESBinaryField16x32b PackedAESBinaryField8x64b
			PackedAESBinaryField4x128b
			ByteSlicedAES16x128b ByteSlicedAES16x64b ByteSlicedAES2x16x64b ByteSlicedAES16x32b
			ByteSlicedAES4x16x32b ByteSlicedAES16x16b ByteSlicedAES8x16x16b ByteSlicedAES16x8b
			ByteSlicedAES16x16x8b ByteSliced16x128x1b ByteSliced8x128x1b ByteSliced4x128x1b
			ByteSliced2x128x1b ByteSliced1x128x1b ByteSlicedAES32x128b ByteSlicedAES32x64b
			ByteSlicedAES2x32x64b ByteSlicedAES32x32b ByteSlicedAES4x32x32b ByteSlicedAES32x16b
			ByteSlicedAES8x32x16b ByteSlicedAES32x8b ByteSlicedAES16x32x8b ByteSliced16x256x1b
			ByteSliced8x256x1b ByteSliced4x256x1b ByteSliced2x256x1b ByteSliced1x256x1b
			ByteSlicedAES64x128b ByteSlicedAES64x64b ByteSlicedAES2x64x64b ByteSlicedAES64x32b
			ByteSlicedAES4x64x32b ByteSlicedAES64x16b ByteSlicedAES8x64x16b ByteSlicedAES64x8b
			ByteSlicedAES16x64x8b ByteSliced16x512x1b ByteSliced8x512x1b ByteSliced4x512x1b
			ByteSliced2x512x1b ByteSliced1x512x1b
			PackedBinaryPolyval1x128b PackedBinaryPolyval2x128b PackedBinaryPolyval4x128b
		}
	};
}

pub type CaseFn = fn(&mut Src) -> Res;

/// A packed element of generated scalars, and the scalars.
pub fn draw_packed<P: PackedField<Scalar: Fd>>(s: &mut Src) -> (P, Vec<P::Scalar>) {
	let mut b = s.bulk();
	let mut v: Vec<P::Scalar> = (0..P::WIDTH).map(|_| P::Scalar::next(&mut b)).collect();
	// a special value in one lane
	if s.chance(1, 2) {
		let i = s.index(P::WIDTH);
		v[i] = P::Scalar::draw(s);
	}
	let mut p = P::default();
	for (i, x) in v.iter().enumerate() {
		p.set(i, *x);
	}
	(p, v)
}
pub fn lanes<P: PackedField>(p: &P) -> Vec<P::Scalar> {
	(0..P::WIDTH).map(|i| p.get(i)).collect()
}
