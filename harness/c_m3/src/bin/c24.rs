//! Arithmetic gadgets: a satisfying row computes the function, populated rows satisfy.
use std::array;

use binius_core::oracle::ShiftVariant;
use binius_field::{arch::OptimalUnderlier, as_packed_field::PackedType, packed::set_packed_slice};
use binius_m3::{
	builder::{B1, B8, B32, B64, B128, Col, ConstraintSystem, FlushOpts, IndexedLookup, TableFiller, TableWitnessSegment, WitnessIndex, tally},
	gadgets::{
		add::{Incr, U32Add, U32AddFlags, U32AddStacked, UnsignedAddPrimitives, WideAdd},
		barrel_shifter::BarrelShifter,
		div::{DivSS32, DivUU32},
		indexed_lookup::{and::{BitAnd, BitAndIndexedLookup, BitAndLookup, merge_bitand_vals}, incr::{Incr as LIncr, IncrIndexedLookup, IncrLookup}},
		lookup::LookupProducer,
		mul::{MulSS32, MulSU32, MulUU32, MulUU64, SignConverter},
		sub::{U32Sub, U32SubFlags, WideSub},
	},
};
use binius_core::constraint_system::channel::{Boundary, FlushDirection};
use c_m3::*;
use vp::*;

type E = (u64, u64, u64);
type Pd = PackedType<OptimalUnderlier, B128>;

fn operand(s: &mut Src, bits: u32) -> u64 {
	let m = if bits == 64 { u64::MAX } else { (1 << bits) - 1 };
	let x = match s.index(6) {
		0 => s.special_u64(),
		1 => s.u64(),
		2 => s.u64() >> s.index(64),
		3 => (s.u64() >> s.index(64)).wrapping_neg(),
		4 => 1u64 << s.index(bits as usize),
		_ => m >> s.index(bits as usize),
	};
	x & m
}
fn events(s: &mut Src, bits: u32) -> Vec<E> {
	let n = match s.index(4) {
		0 => 1 << s.range(0, 4),
		_ => s.range(1, 20),
	};
	(0..n)
		.map(|_| {
			let a = operand(s, bits);
			let b = match s.index(8) {
				0 => a,
				1 => a.wrapping_neg() & if bits == 64 { u64::MAX } else { (1 << bits) - 1 },
				2 => 0,
				_ => operand(s, bits),
			};
			(a, b, s.draw(u64::MAX))
		})
		.collect()
}

fn set_bits<P: Pm, const N: usize>(w: &TableWitnessSegment<P>, cols: &[Col<B1>; N], v: impl Iterator<Item = u64> + Clone) -> anyhow::Result<()> {
	for (k, c) in cols.iter().enumerate() {
		let mut d = w.get_mut(*c)?;
		for (i, x) in v.clone().enumerate() {
			set_packed_slice(&mut d, i, B1::from(x >> k & 1 == 1));
		}
	}
	Ok(())
}
fn set_word<P: Pm>(w: &TableWitnessSegment<P>, c: Col<B1, 32>, v: impl Iterator<Item = u64>) -> anyhow::Result<()> {
	let mut d = w.get_mut_as::<u32, _, 32>(c)?;
	for (i, x) in v.enumerate() {
		d[i] = x as u32;
	}
	Ok(())
}
fn wide(row: &Row, cols: &[usize]) -> u64 {
	cols.iter().enumerate().map(|(k, c)| (row[*c][0].val() as u64 & 1) << k).sum()
}
fn one(row: &Row, c: usize) -> u64 {
	row[c][0].val() as u64
}
fn no_more<P: Pm>(_: &mut WitnessIndex<P>) -> Res {
	Ok(())
}

/// The pieces of a gadget check that differ.
struct G<'a, P: Pm> {
	name: String,
	rows: Vec<E>,
	fill: &'a FillFn<'a, P, E>,
	inputs: Vec<usize>,
	check: &'a dyn Fn(&Row) -> Res,
	given: &'a dyn Fn(&Row, &E) -> Res,
	hint: &'a dyn Fn(&mut Src, &Row) -> Vec<(usize, usize, B128)>,
}
fn no_hint(_: &mut Src, _: &Row) -> Vec<(usize, usize, B128)> {
	vec![]
}
impl<P: Pm> G<'_, P> {
	fn go(self, s: &mut Src, cs: &ConstraintSystem<B128>, tab: &Tab, id: usize) -> Res {
		let ccs = cs.compile().map_err(|e| format!("{e}"))?;
		Gad {
			name: self.name,
			cs,
			id,
			rows: self.rows,
			fill: self.fill,
			inputs: self.inputs,
			check: self.check,
			given: self.given,
			more: &no_more::<P>,
			sizes: vec![],
			hint: self.hint,
			attacks: 150,
			steps: 200,
			plan: [5, 2, 1],
			lookups: false,
		}
		.run(s, &ccs, tab)
	}
}
fn tab_of(cs: &ConstraintSystem<B128>, id: usize) -> Result<Tab, String> {
	Tab::new(cs, &cs.compile().map_err(|e| format!("{e}"))?, id)
}

// ---- stacked 32-bit addition and subtraction

fn u32_add<P: Pm>(s: &mut Src) -> Res {
	let mut cs = ConstraintSystem::new();
	let mut t = cs.add_table("t");
	let id = t.id();
	let x = t.add_committed::<B1, 32>("x");
	let y = t.add_committed::<B1, 32>("y");
	let sub = s.bool();
	let (carry, commit, expose) = (s.bool(), s.bool(), s.bool());
	// the carry column holds the carry in its bit 0 and zeros elsewhere
	let cbit = carry.then(|| t.add_committed::<B1, 1>("c"));
	let ccol = cbit.map(|c| t.add_zero_pad::<_, 1, 32>("c32", c, 0));
	enum O {
		A(U32Add),
		S(U32Sub),
	}
	let g = if sub {
		O::S(U32Sub::new(&mut t, x, y, U32SubFlags { borrow_in_bit: ccol, expose_final_borrow: expose, commit_zout: commit }))
	} else {
		O::A(U32Add::new(&mut t, x, y, U32AddFlags { carry_in_bit: ccol, commit_zout: commit, expose_final_carry: expose }))
	};
	let (zout, fin) = match &g {
		O::A(g) => (g.zout, g.final_carry),
		O::S(g) => (g.zout, g.final_borrow),
	};
	ck_eq!(fin.is_some(), expose, "the final carry is exposed");
	let tab = tab_of(&cs, id)?;
	let (xi, yi, zi) = (tab.at(x), tab.at(y), tab.at(zout));
	let ci = cbit.map(|c| tab.at(c));
	let fi = fin.map(|c| tab.at(c));
	G::<P> {
		name: format!("U32{} carry {carry} commit {commit} expose {expose}", if sub { "Sub" } else { "Add" }),
		rows: events(s, 32),
		fill: &|e: &[E], w: &mut TableWitnessSegment<P>| {
			set_word(w, x, e.iter().map(|e| e.0))?;
			set_word(w, y, e.iter().map(|e| e.1))?;
			if let (Some(b), Some(c)) = (cbit, ccol) {
				set_bits(w, &[b], e.iter().map(|e| e.2))?;
				set_word(w, c, e.iter().map(|e| e.2 & 1))?;
			}
			match &g {
				O::A(g) => g.populate(w),
				O::S(g) => g.populate(w),
			}
		},
		inputs: [xi, yi].into_iter().chain(ci).collect(),
		check: &|r| {
			let (a, b) = (word(r, xi) as i64, word(r, yi) as i64);
			let c = ci.map_or(0, |c| one(r, c)) as i64;
			let z = if sub { a - b - c } else { a + b + c };
			ck!(word(r, zi) as u32 == z as u32, "{a:x} and {b:x}, carry {c}: the result is {:x}, not {:x}", word(r, zi), z as u32);
			if let Some(f) = fi {
				let want = u64::from(if sub { z < 0 } else { z >> 32 != 0 });
				ck!(one(r, f) == want, "{a:x} and {b:x}, carry {c}: the final carry is {}", one(r, f));
			}
			Ok(())
		},
		given: &|r, e| {
			ck!(word(r, xi) as u64 == e.0 && word(r, yi) as u64 == e.1, "operands {:x} {:x}", e.0, e.1);
			if let Some(c) = ci {
				ck!(one(r, c) == e.2 & 1, "carry");
			}
			Ok(())
		},
		hint: &no_hint,
	}
	.go(s, &cs, &tab, id)
}

fn stacked<P: Pm, const V: usize>(s: &mut Src) -> Res {
	let mut cs = ConstraintSystem::new();
	let mut t = cs.add_table("t");
	let id = t.id();
	let x = t.add_committed::<B1, V>("x");
	let y = t.add_committed::<B1, V>("y");
	let (carry, commit) = (s.bool(), s.bool());
	let c = carry.then(|| t.add_committed::<B1, V>("c"));
	// only bit 0 of each word may be set
	if let Some(c) = c {
		let mask: [B1; V] = array::from_fn(|i| B1::from(i % 32 != 0));
		let m = t.add_constant("mask", mask);
		t.assert_zero("carry bits", m * c);
	}
	let g = U32AddStacked::<V>::new(&mut t, x, y, commit, c);
	let zout = g.zout;
	let tab = tab_of(&cs, id)?;
	let (xi, yi, zi) = (tab.at(x), tab.at(y), tab.at(zout));
	let ci = c.map(|c| tab.at(c));
	let k = V / 32;
	let words = move |e: &E, which: usize| -> Vec<u32> {
		let mut m = Mix(e.2 ^ which as u64);
		(0..k)
			.map(|i| {
				let base = if which == 0 { e.0 } else { e.1 } as u32;
				match which {
					2 => (m.next() & 1) as u32,
					_ if i == 0 => base,
					_ => match m.below(4) {
						0 => base,
						1 => u32::MAX - base,
						_ => m.next() as u32,
					},
				}
			})
			.collect()
	};
	let w32 = |r: &Row, c: usize, j: usize| -> u32 { (0..32).map(|b| ((r[c][32 * j + b].val() & 1) as u32) << b).sum() };
	G::<P> {
		name: format!("U32AddStacked<{V}> carry {carry} commit {commit}"),
		rows: events(s, 32),
		fill: &|e: &[E], w: &mut TableWitnessSegment<P>| {
			for (col, which) in [(Some(x), 0), (Some(y), 1), (c, 2)] {
				if let Some(col) = col {
					let mut d = w.get_mut_as::<u32, _, V>(col)?;
					for (i, e) in e.iter().enumerate() {
						d[i * k..(i + 1) * k].copy_from_slice(&words(e, which));
					}
				}
			}
			g.populate(w)
		},
		inputs: [xi, yi].into_iter().chain(ci).collect(),
		check: &|r| {
			for j in 0..k {
				let (a, b, c) = (w32(r, xi, j), w32(r, yi, j), ci.map_or(0, |c| w32(r, c, j)));
				let want = a.wrapping_add(b).wrapping_add(c);
				ck!(w32(r, zi, j) == want, "word {j}: {a:x}+{b:x}+{c}: the sum is {:x}", w32(r, zi, j));
			}
			Ok(())
		},
		given: &|r, e| {
			for j in 0..k {
				ck!(w32(r, xi, j) == words(e, 0)[j] && w32(r, yi, j) == words(e, 1)[j], "word {j}");
				if let Some(c) = ci {
					ck!(w32(r, c, j) == words(e, 2)[j], "carry {j}");
				}
			}
			Ok(())
		},
		hint: &no_hint,
	}
	.go(s, &cs, &tab, id)
}

// ---- one column per bit

fn wide_op<P: Pm, U: UnsignedAddPrimitives + Sync, const N: usize>(s: &mut Src) -> Res {
	let mut cs = ConstraintSystem::new();
	let mut t = cs.add_table("t");
	let id = t.id();
	let x: [Col<B1>; N] = t.add_committed_multiple("x");
	let y: [Col<B1>; N] = t.add_committed_multiple("y");
	let sub = s.bool();
	let (carry, commit, expose) = (s.chance(1, 3), s.bool(), s.bool());
	let cbit = carry.then(|| t.add_committed::<B1, 1>("c"));
	let ccol = cbit.map(|c| t.add_zero_pad::<_, 1, 32>("c32", c, 0));
	enum O<U: UnsignedAddPrimitives, const N: usize> {
		A(WideAdd<U, N>),
		S(WideSub<U, N>),
	}
	let g: O<U, N> = if sub {
		O::S(WideSub::new(&mut t, x, y, U32SubFlags { borrow_in_bit: ccol, expose_final_borrow: expose, commit_zout: commit }))
	} else {
		O::A(WideAdd::new(&mut t, x, y, U32AddFlags { carry_in_bit: ccol, commit_zout: commit, expose_final_carry: expose }))
	};
	let (zout, fin) = match &g {
		O::A(g) => (g.z_out, Some(g.final_carry_out)),
		O::S(g) => (g.zout, g.final_borrow),
	};
	let tab = tab_of(&cs, id)?;
	let (xi, yi, zi) = (col_ids(&tab, &x), col_ids(&tab, &y), col_ids(&tab, &zout));
	let ci = cbit.map(|c| tab.at(c));
	let fi = fin.map(|c| tab.at(c));
	let mask = if N == 64 { u64::MAX } else { (1 << N) - 1 };
	G::<P> {
		name: format!("Wide{}<{N}> carry {carry} commit {commit} expose {expose}", if sub { "Sub" } else { "Add" }),
		rows: events(s, N as u32),
		fill: &|e: &[E], w: &mut TableWitnessSegment<P>| {
			set_bits(w, &x, e.iter().map(|e| e.0))?;
			set_bits(w, &y, e.iter().map(|e| e.1))?;
			if let (Some(b), Some(c)) = (cbit, ccol) {
				set_bits(w, &[b], e.iter().map(|e| e.2))?;
				set_word(w, c, e.iter().map(|e| e.2 & 1))?;
			}
			match &g {
				O::A(g) => g.populate(w),
				O::S(g) => g.populate(w),
			}
		},
		inputs: xi.iter().chain(&yi).copied().chain(ci).collect(),
		check: &|r| {
			let (a, b, c) = (wide(r, &xi), wide(r, &yi), ci.map_or(0, |c| one(r, c)));
			let z = if sub { a as i128 - b as i128 - c as i128 } else { a as i128 + b as i128 + c as i128 };
			ck!(wide(r, &zi) == z as u64 & mask, "{a:x} and {b:x}, carry {c}: the result is {:x}", wide(r, &zi));
			if let Some(f) = fi {
				let want = u64::from(if sub { z < 0 } else { z >> N != 0 });
				ck!(one(r, f) == want, "{a:x} and {b:x}, carry {c}: the final carry is {}", one(r, f));
			}
			Ok(())
		},
		given: &|r, e| {
			ck!(wide(r, &xi) == e.0 && wide(r, &yi) == e.1, "operands {:x} {:x}", e.0, e.1);
			if let Some(c) = ci {
				ck!(one(r, c) == e.2 & 1, "carry");
			}
			Ok(())
		},
		hint: &no_hint,
	}
	.go(s, &cs, &tab, id)
}

fn incr<P: Pm, U: UnsignedAddPrimitives + Sync, const N: usize>(s: &mut Src) -> Res {
	let mut cs = ConstraintSystem::new();
	let mut t = cs.add_table("t");
	let id = t.id();
	let x: [Col<B1>; N] = t.add_committed_multiple("x");
	let c: Col<B1> = t.add_committed("cond");
	let neg = s.bool();
	enum O<U: UnsignedAddPrimitives, const N: usize> {
		I(Incr<U, N>),
		S(SignConverter<U, N>),
	}
	let g: O<U, N> = if neg { O::S(SignConverter::new(&mut t, x, c.into())) } else { O::I(Incr::new(&mut t, x)) };
	let zout = match &g {
		O::I(g) => g.zout,
		O::S(g) => g.converted_bits,
	};
	let fin = match &g {
		O::I(g) => Some(g.final_carry_out),
		O::S(_) => None,
	};
	let tab = tab_of(&cs, id)?;
	let (xi, zi, ci) = (col_ids(&tab, &x), col_ids(&tab, &zout), tab.at(c));
	let fi = fin.map(|c| tab.at(c));
	let mask = if N == 64 { u64::MAX } else { (1 << N) - 1 };
	G::<P> {
		name: format!("{}<{N}>", if neg { "SignConverter" } else { "Incr" }),
		rows: events(s, N as u32),
		fill: &|e: &[E], w: &mut TableWitnessSegment<P>| {
			set_bits(w, &x, e.iter().map(|e| e.0))?;
			set_bits(w, &[c], e.iter().map(|e| e.2))?;
			match &g {
				O::I(g) => g.populate(w),
				O::S(g) => {
					g.populate(w)?;
					// the converted bits are the caller's to fill
					set_bits(w, &g.converted_bits, e.iter().map(|e| if e.2 & 1 == 1 { e.0.wrapping_neg() } else { e.0 }))
				}
			}
		},
		inputs: xi.iter().copied().chain([ci]).collect(),
		check: &|r| {
			let (a, c) = (wide(r, &xi), one(r, ci));
			let want = if !neg { a.wrapping_add(1) } else if c == 1 { a.wrapping_neg() } else { a } & mask;
			ck!(wide(r, &zi) == want, "{a:x} (condition {c}): the result is {:x}", wide(r, &zi));
			if let Some(f) = fi {
				ck!(one(r, f) == u64::from(a == mask), "{a:x}: the final carry is {}", one(r, f));
			}
			Ok(())
		},
		given: &|r, e| {
			ck!(wide(r, &xi) == e.0 && one(r, ci) == e.2 & 1, "operand {:x}", e.0);
			Ok(())
		},
		hint: &no_hint,
	}
	.go(s, &cs, &tab, id)
}

// ---- multiplication and division

fn mul<P: Pm>(s: &mut Src) -> Res {
	let mut cs = ConstraintSystem::new();
	let mut t = cs.add_table("t");
	let id = t.id();
	enum O {
		UU(MulUU32),
		SS(MulSS32),
		SU(MulSU32),
		D(DivUU32),
		DS(DivSS32),
	}
	let own = s.bool();
	let kind = s.index(5);
	let mut outer: Option<([Col<B1>; 32], [Col<B1>; 32])> = None;
	let g = match kind {
		0 if own => {
			let (a, b) = (t.add_committed_multiple("a"), t.add_committed_multiple("b"));
			outer = Some((a, b));
			O::UU(MulUU32::with_inputs(&mut t, a, b))
		}
		0 => O::UU(MulUU32::new(&mut t)),
		1 if own => {
			let (a, b) = (t.add_committed_multiple("a"), t.add_committed_multiple("b"));
			outer = Some((a, b));
			O::SS(MulSS32::with_input(&mut t, a, b))
		}
		1 => O::SS(MulSS32::new(&mut t)),
		2 => O::SU(MulSU32::new(&mut t)),
		3 => O::D(DivUU32::new(&mut t)),
		_ => O::DS(DivSS32::new(&mut t)),
	};
	let (x, y, hi, lo) = match &g {
		O::UU(g) => (g.xin, g.yin, g.out_high, g.out_low),
		O::SS(g) => (g.xin, g.yin, g.out_high, g.out_low),
		O::SU(g) => (g.xin, g.yin, g.out_high, g.out_low),
		O::D(g) => (g.p_in, g.q_in, g.out_div, g.out_rem),
		O::DS(g) => (g.p_in, g.q_in, g.out_div, g.out_rem),
	};
	let tab = tab_of(&cs, id)?;
	let (xi, yi, hi, lo) = (tab.at(x), tab.at(y), tab.at(hi), tab.at(lo));
	let outer_i = outer.map(|(a, b)| (col_ids(&tab, &a), col_ids(&tab, &b)));
	let names = ["MulUU32", "MulSS32", "MulSU32", "DivUU32", "DivSS32"];
	let mut rows = events(s, 32);
	if kind >= 3 {
		for e in &mut rows {
			if e.1 == 0 {
				e.1 = 1 + (e.2 & 0xffff);
			}
			if kind == 4 && e.0 == 1 << 31 && e.1 == u32::MAX as u64 {
				e.1 = 1; // the quotient does not fit
			}
			// exact divisions
			if e.2 >> 60 & 3 == 0 {
				let k = e.2 as u32 >> 16;
				e.0 = if kind == 3 {
					(e.1 / (u64::from(k) + 1)).max(1).wrapping_mul(u64::from(k) >> 12) & 0xffff_ffff
				} else {
					let d = e.1 as u32 as i32;
					let m = (k >> 8) as i32 & 0x7fff;
					d.checked_mul(m).unwrap_or(d) as u32 as u64
				};
			}
		}
	}
	let inputs: Vec<usize> = {
		let mut v = vec![];
		for c in [xi, yi] {
			v.extend(tab.sources(c));
		}
		v
	};
	let outs = (tab.sources(hi), tab.sources(lo));
	let b32 = |v: &[E], k: usize| v.iter().map(|e| B32::new(if k == 0 { e.0 } else { e.1 } as u32)).collect::<Vec<_>>();
	G::<P> {
		name: format!("{}{}", names[kind], if own && kind < 2 { " with inputs" } else { "" }),
		rows,
		fill: &|e: &[E], w: &mut TableWitnessSegment<P>| {
			let (p, q) = (b32(e, 0), b32(e, 1));
			if let Some((a, b)) = &outer {
				set_bits(w, a, e.iter().map(|e| e.0))?;
				set_bits(w, b, e.iter().map(|e| e.1))?;
			}
			match &g {
				O::UU(g) => g.populate_with_inputs(w, p, q),
				O::SS(g) => g.populate_with_inputs(w, p, q),
				O::SU(g) => g.populate_with_inputs(w, p, q),
				O::D(g) => g.populate_with_inputs(w, p, q),
				O::DS(g) => g.populate_with_inputs(w, p, q),
			}
		},
		inputs,
		check: &|r| {
			let (a, b) = (one(r, xi) as u32, one(r, yi) as u32);
			if let Some((p, q)) = &outer_i {
				ck!(wide(r, p) == a as u64 && wide(r, q) == b as u64, "operands are not those given");
			}
			let (h, l) = match kind {
				0 => {
					let z = a as u64 * b as u64;
					((z >> 32) as u32, z as u32)
				}
				1 => {
					let z = a as i32 as i64 * b as i32 as i64;
					((z >> 32) as u32, z as u32)
				}
				2 => {
					let z = a as i32 as i64 * b as i64;
					((z >> 32) as u32, z as u32)
				}
				3 => {
					if b == 0 {
						return Ok(()); // refused by the non-zero check
					}
					(a / b, a % b)
				}
				_ => {
					if b == 0 {
						return Ok(());
					}
					let (a, b) = (a as i32 as i64, b as i32 as i64);
					((a / b) as u32, (a % b) as u32)
				}
			};
			ck!(one(r, hi) == h as u64 && one(r, lo) == l as u64, "{a:x}, {b:x}: the result is {:x} {:x}, not {h:x} {l:x}", one(r, hi), one(r, lo));
			Ok(())
		},
		given: &|r, e| {
			ck!(one(r, xi) == e.0 && one(r, yi) == e.1, "operands {:x} {:x}", e.0, e.1);
			Ok(())
		},
		hint: &|s, r| {
			// another quotient and remainder, or a product off by the order of the group
			let set = |bits: &[usize], v: u64| -> Vec<(usize, usize, B128)> { bits.iter().enumerate().map(|(k, c)| (*c, 0, B128::new((v >> k & 1) as u128))).collect() };
			let (h, l, b) = (one(r, hi), one(r, lo), one(r, yi));
			let (h, l) = if kind >= 3 {
				let k = [1, 2, 1 + s.draw(u64::MAX - 1) % 100, u64::MAX, u64::MAX - 1][s.index(5)];
				match s.index(5) {
					0 => (h, l.wrapping_add(1 << s.index(32))),
					1 => {
						// of another dividend
						let p = one(r, xi) as u32 ^ 1 << s.index(32);
						if kind == 3 {
							(p as u64 / b.max(1), p as u64 % b.max(1))
						} else {
							let (p, q) = (p as i32 as i64, if b == 0 { 1 } else { b as i32 as i64 });
							((p / q) as u64, (p % q) as u64)
						}
					}
					_ => (h.wrapping_sub(k), l.wrapping_add(b.wrapping_mul(k))),
				}
			} else {
				let z = (h << 32 | l).wrapping_add(s.range(0, 2) as u64).wrapping_sub(1);
				(z >> 32, z)
			};
			let mut v = set(&outs.0, h);
			v.extend(set(&outs.1, l));
			v
		},
	}
	.go(s, &cs, &tab, id)
}

fn mul64<P: Pm>(s: &mut Src) -> Res {
	let mut cs = ConstraintSystem::new();
	let mut t = cs.add_table("t");
	let id = t.id();
	let g = MulUU64::new(&mut t);
	let tab = tab_of(&cs, id)?;
	let (xi, yi, hi, lo) = (tab.at(g.xin), tab.at(g.yin), tab.at(g.out_high), tab.at(g.out_low));
	let mut inputs = tab.sources(xi);
	inputs.extend(tab.sources(yi));
	let mut rows = events(s, 64);
	rows.truncate(6);
	G::<P> {
		name: "MulUU64".into(),
		rows,
		fill: &|e: &[E], w: &mut TableWitnessSegment<P>| {
			g.populate_with_inputs(w, e.iter().map(|e| B64::new(e.0)).collect::<Vec<_>>(), e.iter().map(|e| B64::new(e.1)).collect::<Vec<_>>())
		},
		inputs,
		check: &|r| {
			let z = one(r, xi) as u128 * one(r, yi) as u128;
			ck!(one(r, hi) == (z >> 64) as u64 && one(r, lo) == z as u64, "{:x} * {:x} gives {:x} {:x}", one(r, xi), one(r, yi), one(r, hi), one(r, lo));
			Ok(())
		},
		given: &|r, e| {
			ck!(one(r, xi) == e.0 && one(r, yi) == e.1, "operands {:x} {:x}", e.0, e.1);
			Ok(())
		},
		hint: &no_hint,
	}
	.go(s, &cs, &tab, id)
}

fn barrel<P: Pm>(s: &mut Src) -> Res {
	let mut cs = ConstraintSystem::new();
	let mut t = cs.add_table("t");
	let id = t.id();
	let x = t.add_committed::<B1, 32>("x");
	let n = t.add_committed::<B1, 16>("n");
	let v = *s.pick(&[ShiftVariant::LogicalLeft, ShiftVariant::LogicalRight, ShiftVariant::CircularLeft]);
	let g = BarrelShifter::new(&mut t, x, n, v);
	let tab = tab_of(&cs, id)?;
	let (xi, ni, zi) = (tab.at(x), tab.at(n), tab.at(g.output));
	G::<P> {
		name: format!("BarrelShifter {v:?}"),
		rows: events(s, 32),
		fill: &|e: &[E], w: &mut TableWitnessSegment<P>| {
			set_word(w, x, e.iter().map(|e| e.0))?;
			{
				let mut d = w.get_mut_as::<u16, _, 16>(n)?;
				for (i, e) in e.iter().enumerate() {
					d[i] = e.2 as u16;
				}
			}
			g.populate(w)?;
			// packed columns are views of the columns they pack
			Ok(())
		},
		inputs: vec![xi, ni],
		check: &|r| {
			let a = word(r, xi) as u32;
			let k = word(r, ni) as u32 & 31;
			let want = match v {
				ShiftVariant::LogicalLeft => a << k,
				ShiftVariant::LogicalRight => a >> k,
				ShiftVariant::CircularLeft => a.rotate_left(k),
			};
			ck!(word(r, zi) as u32 == want, "{a:x} by {k}: the result is {:x}", word(r, zi));
			Ok(())
		},
		given: &|r, e| {
			ck!(word(r, xi) as u64 == e.0 && word(r, ni) as u16 == e.2 as u16, "operands");
			Ok(())
		},
		hint: &no_hint,
	}
	.go(s, &cs, &tab, id)
}

fn both(s: &mut Src, a: fn(&mut Src) -> Res, b: fn(&mut Src) -> Res) -> Res {
	if s.bool() { b(s) } else { a(s) }
}
fn packed(s: &mut Src) -> Res {
	match s.index(3) {
		0 => both(s, u32_add::<P1>, u32_add::<P2>),
		1 => match s.index(3) {
			0 => both(s, stacked::<P1, 32>, stacked::<P2, 32>),
			1 => both(s, stacked::<P1, 64>, stacked::<P2, 128>),
			_ => both(s, stacked::<P1, 512>, stacked::<P2, 256>),
		},
		_ => both(s, barrel::<P1>, barrel::<P2>),
	}
}
fn bitwise(s: &mut Src) -> Res {
	match s.index(4) {
		0 => both(s, wide_op::<P1, u32, 32>, wide_op::<P2, u32, 32>),
		1 => both(s, wide_op::<P1, u64, 64>, wide_op::<P2, u64, 64>),
		2 => both(s, incr::<P1, u32, 32>, incr::<P2, u32, 32>),
		_ => both(s, incr::<P1, u64, 64>, incr::<P2, u64, 64>),
	}
}
fn muldiv(s: &mut Src) -> Res {
	if s.chance(1, 8) { both(s, mul64::<P1>, mul64::<P2>) } else { both(s, mul::<P1>, mul::<P2>) }
}

// ---- lookups

enum Lt {
	And(BitAndLookup),
	Inc(IncrLookup),
}
enum Lk {
	A1(BitAnd<1>, Col<B8>, Col<B8>),
	A4(BitAnd<4>, Col<B8, 4>, Col<B8, 4>),
	A16(BitAnd<16>, Col<B8, 16>, Col<B8, 16>),
	I(LIncr),
	/// reads of entries made elsewhere, with a multiplicity
	M(Col<B32>, u32),
}
fn entry_and(a: u8, b: u8) -> u32 {
	a as u32 | (b as u32) << 8 | ((a & b) as u32) << 16
}
fn entry_inc(a: u8, c: bool) -> u32 {
	let z = a as u32 + c as u32;
	a as u32 | (z & 0xff) << 8 | (c as u32) << 16 | (z >> 8) << 17
}
/// Looked up operations: the table of all results, the readers, and the counting of reads.
fn lookups(s: &mut Src) -> Res {
	let and = s.chance(1, 12);
	let mut cs = ConstraintSystem::new();
	let chan = cs.add_channel("lookup");
	let perm = cs.add_channel("permutation");
	let bits = s.range(4, 12);
	let first = s.bool();
	let make = |cs: &mut ConstraintSystem<B128>| {
		let mut t = cs.add_table("all");
		if and { Lt::And(BitAndLookup::new(&mut t, chan, perm, bits)) } else { Lt::Inc(IncrLookup::new(&mut t, chan, perm, bits)) }
	};
	let mut lt = first.then(|| make(&mut cs));
	let n = s.range(1, 3);
	let mut readers = vec![];
	for i in 0..n {
		let mut t = cs.add_table(format!("reader {i}"));
		let id = t.id();
		let mut ops = vec![];
		for j in 0..s.range(1, 2) {
			ops.push(match (and, s.index(4)) {
				(_, 0) => {
					let c = t.add_committed::<B32, 1>(format!("m{j}"));
					let m = s.range(1, 3) as u32;
					t.pull_with_opts(chan, [c], FlushOpts { multiplicity: m, selectors: vec![] });
					Lk::M(c, m)
				}
				(false, _) => {
					let a = t.add_committed(format!("a{j}"));
					let c = t.add_committed(format!("c{j}"));
					Lk::I(LIncr::new(&mut t, chan, a, c))
				}
				(true, 1) => {
					let (a, b) = (t.add_committed(format!("a{j}")), t.add_committed(format!("b{j}")));
					Lk::A1(BitAnd::<1>::new(&mut t, chan, a, b), a, b)
				}
				(true, 2) => {
					let (a, b) = (t.add_committed(format!("a{j}")), t.add_committed(format!("b{j}")));
					Lk::A4(BitAnd::new(&mut t, chan, a, b), a, b)
				}
				(true, _) => {
					let (a, b) = (t.add_committed(format!("a{j}")), t.add_committed(format!("b{j}")));
					Lk::A16(BitAnd::new(&mut t, chan, a, b), a, b)
				}
			});
		}
		readers.push((id, ops, s.range(1, 9)));
	}
	if lt.is_none() {
		lt = Some(make(&mut cs));
	}
	let lt = lt.expect("a table");
	let log = if and { 16 } else { 9 };
	let lt_id = cs.tables.iter().find(|t| t.name == "all").expect("the table").id();
	let mut model = vec![0u64; 1 << log];
	let seed = s.stream().next();
	let narrow = s.bool();
	// the operands of operation j of row r of reader i
	let args = move |i: usize, j: usize, r: usize, l: usize| -> (u8, u8) {
		let x = hash_u64(&[seed, i as u64, j as u64, r as u64, l as u64]);
		let x = if narrow { x & 0x0103 } else { x };
		(x as u8, (x >> 8) as u8)
	};
	let entry = move |(a, b): (u8, u8)| if and { entry_and(a, b) } else { entry_inc(a, b & 1 == 1) };
	let place = move |(a, b): (u8, u8)| if and { a as usize | (b as usize) << 8 } else { a as usize | ((b & 1) as usize) << 8 };
	let bounds: Vec<(u8, u8, u64)> = (0..s.range(0, 4)).map(|k| { let (a, b) = args(99, 0, k, 0); (a, b, s.range(1, 3) as u64) }).collect();
	let boundaries: Vec<Boundary<B128>> = bounds
		.iter()
		.map(|(a, b, m)| Boundary { values: vec![B128::new(entry((*a, *b)) as u128)], channel_id: chan, direction: FlushDirection::Pull, multiplicity: *m })
		.collect();
	for (a, b, m) in &bounds {
		model[place((*a, *b))] += m;
	}
	let ccs = cs.compile().map_err(|e| format!("{e}"))?;
	let mut sizes: Vec<(usize, usize)> = readers.iter().map(|r| (r.0, r.2)).collect();
	sizes.push((lt_id, 1 << log));
	let tabs: Vec<Tab> = readers.iter().map(|r| Tab::new(&cs, &ccs, r.0)).collect::<Result<_, _>>()?;
	// mode 0: everything as it should be; 1: a wrong result somewhere; 2: a wrong count; 3: the
	// table of results is not that of the function
	let mode = s.weighted(&[3, 3, 2, 2]);
	let hows: Vec<How> = (0..4).map(|_| how(s)).collect();
	s.desc(format!("{} readers {:?} bits {bits} mode {mode}", if and { "and" } else { "incr" }, readers.iter().map(|r| r.2).collect::<Vec<_>>()));
	s.label(format!("{} mode {mode}", if and { "and" } else { "incr" }));
	s.nontrivial_if(readers.iter().any(|r| r.2 > 1));
	let mut a = binius_compute::cpu::alloc::CpuComputeAllocator::<Pd>::new(alloc_size(&cs, &sizes));
	let bump = a.into_bump_allocator();
	let mut w = WitnessIndex::<Pd>::new(&cs, &bump);
	for (i, (id, ops, rows)) in readers.iter().enumerate() {
		let ev: Vec<usize> = (0..*rows).collect();
		let f = |e: &[usize], w: &mut TableWitnessSegment<Pd>| -> anyhow::Result<()> {
			for (j, op) in ops.iter().enumerate() {
				macro_rules! and {
					($g:ident, $a:ident, $b:ident, $v:expr) => {{
						{
							let mut x = w.get_scalars_mut(*$a)?;
							let mut y = w.get_scalars_mut(*$b)?;
							for (k, r) in e.iter().enumerate() {
								for l in 0..$v {
									let (p, q) = args(i, j, *r, l);
									x[k * $v + l] = B8::new(p);
									y[k * $v + l] = B8::new(q);
								}
							}
						}
						$g.populate(w)?;
					}};
				}
				match op {
					Lk::A1(g, a, b) => and!(g, a, b, 1),
					Lk::A4(g, a, b) => and!(g, a, b, 4),
					Lk::A16(g, a, b) => and!(g, a, b, 16),
					Lk::I(g) => {
						{
							let mut x = w.get_mut_as::<u8, _, 1>(g.input)?;
							let mut y = w.get_mut(g.carry_in)?;
							for (k, r) in e.iter().enumerate() {
								let (p, q) = args(i, j, *r, 0);
								x[k] = p;
								set_packed_slice(&mut y, k, B1::from(q & 1 == 1));
							}
						}
						g.populate(w)?;
					}
					Lk::M(c, _) => {
						let mut x = w.get_scalars_mut(*c)?;
						for (k, r) in e.iter().enumerate() {
							x[k] = B32::new(entry(args(i, j, *r, 0)));
						}
					}
				}
			}
			Ok(())
		};
		fill(&mut w, hows[i], &Fill { id: *id, f: &f }, &ev)?;
		for (j, op) in ops.iter().enumerate() {
			let (v, m) = match op {
				Lk::A4(..) => (4, 1),
				Lk::A16(..) => (16, 1),
				Lk::M(_, m) => (1, *m as u64),
				_ => (1, 1),
			};
			for r in 0..*rows {
				for l in 0..v {
					model[place(args(i, j, r, l))] += m;
				}
			}
		}
		// the results
		let got = snapshot(&mut w, &tabs[i], *id)?;
		for (j, op) in ops.iter().enumerate() {
			for (r, row) in got.iter().enumerate().take(*rows) {
				let (out, v) = match op {
					Lk::A1(g, ..) => (tabs[i].at(g.output), 1),
					Lk::A4(g, ..) => (tabs[i].at(g.output), 4),
					Lk::A16(g, ..) => (tabs[i].at(g.output), 16),
					Lk::I(g) => (tabs[i].at(g.output), 1),
					Lk::M(..) => continue,
				};
				for l in 0..v {
					let (p, q) = args(i, j, r, l);
					let want = if and { p & q } else { p.wrapping_add(q & 1) };
					ck!(row[out][l].val() == want as u128, "reader {i} operation {j} row {r} lane {l}: {p:x}, {q:x} gives {:?}", row[out][l]);
				}
				if let Lk::I(g) = op {
					let (p, q) = args(i, j, r, 0);
					ck!(one(row, tabs[i].at(g.carry_out)) == u64::from(p == 255 && q & 1 == 1), "carry of {p:x}");
				}
			}
		}
	}
	let counts = if and { tally(&cs, &mut w, &boundaries, chan, &BitAndIndexedLookup) } else { tally(&cs, &mut w, &boundaries, chan, &IncrIndexedLookup) }.map_err(|e| format!("{e}"))?;
	for (k, (c, m)) in counts.iter().zip(&model).enumerate() {
		ck!(*c as u64 == *m, "entry {k} is read {m} times, counted {c}");
	}
	ck_eq!(counts.len(), model.len(), "number of counts");
	for _ in 0..8 {
		let k = s.index(1 << log);
		let mut e = [B128::new(0)];
		let (a, b) = (k as u8, (k >> 8) as u8);
		if and {
			BitAndIndexedLookup.index_to_entry(k, &mut e);
		} else {
			IncrIndexedLookup.index_to_entry(k, &mut e);
		}
		ck!(e[0].val() == entry((a, b)) as u128, "entry {k} is {:?}", e[0]);
		let back = if and { BitAndIndexedLookup.entry_to_index(&e) } else { IncrIndexedLookup.entry_to_index(&e) };
		ck_eq!(back, k, "index of entry {k}");
	}
	ck!(!and || merge_bitand_vals(1, 2, 3) >> 8 == 0x302, "merged value");
	let mut sorted: Vec<(usize, u32)> = counts.iter().copied().enumerate().collect();
	sorted.sort_by_key(|e| std::cmp::Reverse(e.1));
	if mode == 2 {
		let k = if s.bool() { 0 } else { s.index(sorted.len()) };
		sorted[k].1 = if s.bool() && sorted[k].1 > 0 { sorted[k].1 - 1 } else { sorted[k].1 + 1 };
		sorted.sort_by_key(|e| std::cmp::Reverse(e.1));
	}
	let over = sorted[0].1 >> bits != 0;
	let r = match &lt {
		Lt::And(t) => fill_lookup(&mut w, hows[3], t, &sorted),
		Lt::Inc(t) => fill_lookup(&mut w, hows[3], t, &sorted),
	};
	if over {
		ck!(r.is_err(), "a multiplicity of more than {bits} bits is accepted");
		s.label("multiplicity too large");
		return Ok(());
	}
	r?;
	w.fill_constant_cols().map_err(|e| format!("{e}"))?;
	if mode == 1 {
		// a result that is wrong; the count of the entry it claims to be goes with it
		let i = s.index(n);
		let cand: Vec<usize> = (0..tabs[i].cols.len()).filter(|c| tabs[i].committed(*c)).collect();
		let c = *s.pick(&cand);
		let r = s.index(readers[i].2);
		let mut rows = snapshot(&mut w, &tabs[i], readers[i].0)?;
		let l = s.index(tabs[i].cols[c].v);
		let old = rows[r].clone();
		rows[r][c][l] += B128::new(1 << s.index(bits_of(tabs[i].cols[c].level)));
		tabs[i].derive(&mut rows[r], r);
		ck!(old != rows[r], "the row changes");
		restore(&mut w, &tabs[i], readers[i].0, &rows)?;
	}
	if mode == 3 {
		// entries of the table are changed
		let tab = Tab::new(&cs, &ccs, lt_id)?;
		let mut rows = snapshot(&mut w, &tab, lt_id)?;
		let cand: Vec<usize> = (0..tab.cols.len()).filter(|c| tab.cols[*c].level == 5).collect();
		let both = s.bool();
		let k = if s.bool() { 0 } else { s.index(rows.len()) };
		let d = B128::new(1 << s.index(32));
		for c in cand.iter().take(if both { 2 } else { 1 }) {
			let k = if tab.committed(*c) { k } else { sorted[k].0 };
			rows[k][*c][0] += d;
		}
		restore(&mut w, &tab, lt_id, &rows)?;
	}
	let r = validated(&ccs, w, &boundaries);
	match mode {
		0 => r.map_err(|e| format!("the lookups are refused: {e}")),
		_ => {
			ck!(r.is_err(), "lookups that do not match are accepted");
			Ok(())
		}
	}
}
fn fill_lookup<T: TableFiller<Pd, Event = (usize, u32)> + Sync>(w: &mut WitnessIndex<Pd>, how: How, t: &T, rows: &[(usize, u32)]) -> Res {
	let e = |x: binius_m3::builder::Error| format!("filling the lookup table failed: {x}");
	match how {
		How::Seq => w.fill_table_sequential(t, rows).map_err(e),
		How::Par => w.fill_table_parallel(t, rows).map_err(e),
		How::SeqSeg(n) => {
			w.init_table(t.id(), rows.len()).map_err(e)?;
			w.get_table(t.id()).ok_or("no table")?.fill_sequential_with_segment_size(t, rows, n + 4).map_err(e)
		}
		How::ParSeg(n) => {
			w.init_table(t.id(), rows.len()).map_err(e)?;
			w.get_table(t.id()).ok_or("no table")?.fill_parallel_with_segment_size(t, rows, n + 4).map_err(e)
		}
	}
}

/// Rows offered some number of times, read elsewhere.
fn producer<P: Pm>(s: &mut Src) -> Res {
	let mut cs = ConstraintSystem::new();
	let chan = cs.add_channel("c");
	let k = s.range(1, 3);
	let bits = match s.index(6) { 0 => 31, 1 => 32, 2 => s.range(13, 30), _ => s.range(1, 12) };
	let (p_id, cols, lp) = {
		let mut t = cs.add_table("producer");
		let cols: Vec<Col<B32>> = (0..k).map(|i| t.add_committed(format!("v{i}"))).collect();
		let lp = LookupProducer::new(&mut t, chan, &cols, bits);
		(t.id(), cols, lp)
	};
	let (r_id, rcols) = {
		let mut t = cs.add_table("reader");
		let cols: Vec<Col<B32>> = (0..k).map(|i| t.add_committed(format!("v{i}"))).collect();
		t.pull(chan, cols.iter().copied());
		(t.id(), cols)
	};
	let n = s.range(1, 40);
	let distinct = s.bool();
	let seed = s.stream().next();
	let val = move |r: usize, c: usize| hash_u64(&[seed, if distinct { r } else { r / 3 } as u64, c as u64]) as u32;
	let mut counts: Vec<u32> = (0..n).map(|_| match s.index(4) { 0 => 0, 1 => s.range(0, (1usize << bits).min(40) - 1) as u32, _ => s.range(0, 1) as u32 }).collect();
	if s.bool() {
		counts.sort_by_key(|c| std::cmp::Reverse(*c));
	}
	if counts.iter().all(|c| *c == 0) {
		counts[0] = 1;
	}
	let mut reads: Vec<usize> = counts.iter().enumerate().flat_map(|(r, c)| std::iter::repeat_n(r, *c as usize)).collect();
	// shuffle
	for i in (1..reads.len()).rev() {
		let j = s.index(i + 1);
		reads.swap(i, j);
	}
	let over = bits < 32 && s.chance(1, 12);
	let mut given = counts.clone();
	// reads beyond what a table can make: the statement's boundaries
	let mut claimed: Vec<(usize, u32)> = vec![];
	for _ in 0..s.index(3) {
		let i = s.index(n);
		let top = (((1u64 << bits) - 1) as u32) - given[i];
		let m = match s.index(4) { 0 => top, 1 => 1u32 << s.index(bits), 2 => s.u64() as u32, _ => s.range(1, 40) as u32 };
		if m > 0 && m <= top {
			given[i] += m;
			claimed.push((i, m));
		}
	}
	if over {
		let i = s.index(n);
		given[i] |= 1u32.checked_shl(bits as u32).unwrap_or(0);
	}
	let mode = s.weighted(&[3, 1, 1]);
	let mut reads2 = reads.clone();
	if mode == 1 {
		let i = s.index(reads.len());
		reads2[i] = if s.bool() { n + 7 } else { (reads[i] + 3) % (n + 3) };
	}
	let mut bad_counts = given.clone();
	if mode == 2 {
		let i = s.index(n);
		bad_counts[i] ^= 1 << s.index(bits);
	}
	let ccs = cs.compile().map_err(|e| format!("{e}"))?;
	let mut a = binius_compute::cpu::alloc::CpuComputeAllocator::<P>::new(alloc_size(&cs, &[(p_id, n), (r_id, reads.len())]));
	let bump = a.into_bump_allocator();
	let mut w = WitnessIndex::<P>::new(&cs, &bump);
	s.desc(format!("producer of {k} columns, {n} rows, {bits} bits, {} reads, mode {mode} over {over}", reads.len()));
	s.nontrivial_if(n > 1);
	let put = |w: &TableWitnessSegment<P>, cols: &[Col<B32>], rows: &mut dyn Iterator<Item = usize>| -> anyhow::Result<()> {
		let mut d: Vec<_> = cols.iter().map(|c| w.get_mut_as::<u32, _, 1>(*c)).collect::<Result<_, _>>()?;
		for (i, r) in rows.enumerate() {
			for (c, d) in d.iter_mut().enumerate() {
				d[i] = val(r, c);
			}
		}
		Ok(())
	};
	let f = |e: &[(usize, u32)], w: &mut TableWitnessSegment<P>| -> anyhow::Result<()> {
		put(w, &cols, &mut e.iter().map(|e| e.0))?;
		lp.populate(w, e.iter().map(|e| e.1))
	};
	let ev: Vec<(usize, u32)> = bad_counts.iter().copied().enumerate().collect();
	let r = fill(&mut w, how(s), &Fill { id: p_id, f: &f }, &ev);
	if bad_counts.iter().any(|c| (*c as u64) >> bits != 0) {
		ck!(r.is_err(), "a multiplicity of more than {bits} bits is accepted");
		s.label("multiplicity too large");
		return Ok(());
	}
	r?;
	let f = |e: &[usize], w: &mut TableWitnessSegment<P>| -> anyhow::Result<()> { put(w, &rcols, &mut e.iter().copied()) };
	fill(&mut w, how(s), &Fill { id: r_id, f: &f }, &reads2)?;
	let mut sum: std::collections::BTreeMap<Vec<u32>, i64> = Default::default();
	for (r, c) in bad_counts.iter().enumerate() {
		*sum.entry((0..k).map(|i| val(r, i)).collect()).or_default() += *c as i64;
	}
	for r in &reads2 {
		*sum.entry((0..k).map(|i| val(*r, i)).collect()).or_default() -= 1;
	}
	for (r, m) in &claimed {
		*sum.entry((0..k).map(|i| val(*r, i)).collect()).or_default() -= *m as i64;
		s.label(format!("boundary of {} bits", u32::BITS - m.leading_zeros()));
	}
	let bounds: Vec<Boundary<B128>> = claimed
		.iter()
		.map(|(r, m)| Boundary {
			values: (0..k).map(|i| B128::new(val(*r, i) as u128)).collect(),
			channel_id: chan,
			direction: FlushDirection::Pull,
			multiplicity: *m as u64,
		})
		.collect();
	let want = sum.values().all(|x| *x == 0);
	s.label(format!("producer balanced {want}"));
	let got = validated(&ccs, w, &bounds);
	ck!(got.is_ok() == want, "balanced: {want}, but {got:?}");
	Ok(())
}
fn looked(s: &mut Src) -> Res {
	if s.chance(1, 3) { lookups(s) } else { both(s, producer::<P1>, producer::<P2>) }
}

fn main() {
	run(Prop {
		id: "C24",
		rule: "the table has more than one row",
		assumptions: &["what a compiled constraint means (C03, C23)"],
		subs: vec![
			Sub { name: "packed", quick: 1500, thorough: 60000, threads: 0, f: packed },
			Sub { name: "bitwise", quick: 2500, thorough: 120000, threads: 0, f: bitwise },
			Sub { name: "looked", quick: 3000, thorough: 120000, threads: 0, f: looked },
			Sub { name: "muldiv", quick: 600, thorough: 20000, threads: 0, f: muldiv },
		],
	});
}
