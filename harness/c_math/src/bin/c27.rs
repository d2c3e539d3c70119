//! The containers and helpers everything else is built on behave like their plain models.
use binius_utils::{
	array_2d::Array2D,
	checked_arithmetics::{checked_int_div, checked_log_2, log2_ceil_usize, log2_strict_usize, min_bits, strict_log_2},
	graph::connected_components,
	iter::IterExtensions,
	random_access_sequence::{
		RandomAccessSequence, RandomAccessSequenceMut, SequenceSubrange, SequenceSubrangeMut,
	},
	sorting::{is_sorted_ascending, stable_sort, unsort},
	sparse_index::SparseIndex,
	strided_array::StridedArray2DViewMut,
};
use binius_maybe_rayon::iter::ParallelIterator;
use std::collections::BTreeMap;
use vp::*;

fn graph(s: &mut Src) -> Res {
	let n = s.range(1, 12);
	let sets: Vec<Vec<usize>> = (0..s.range(0, 8))
		.map(|_| {
			let k = s.range(0, 4);
			(0..k).map(|_| s.index(n)).collect()
		})
		.collect();
	s.desc(format!("{sets:?}"));
	let got = connected_components(&sets);
	let top = sets.iter().flatten().max().copied();
	s.nontrivial_if(sets.iter().filter(|x| x.len() > 1).count() > 1);
	let len = match top {
		// sets without members: one node, or none when there are no sets
		None => got.len().min(1),
		Some(t) => t + 1,
	};
	ck_eq!(got.len(), len, "one entry per node {sets:?}");
	// reachability by repeated relaxation
	let mut want: Vec<usize> = (0..len).collect();
	for _ in 0..=len {
		for set in &sets {
			if let Some(m) = set.iter().map(|x| want[*x]).min() {
				for x in set {
					want[*x] = m;
				}
			}
		}
	}
	ck_eq!(got, want, "least member of each component {sets:?}");
	Ok(())
}

fn sorting(s: &mut Src) -> Res {
	let n = s.range(0, 12);
	let m = s.range(0, 5) as u64;
	let v: Vec<(u64, usize)> = (0..n).map(|i| (s.draw(m), i)).collect();
	let desc = s.bool();
	s.desc(format!("{v:?} {desc}"));
	s.nontrivial_if(n > 1);
	let (idx, sorted) = stable_sort(v.clone(), |x| x.0 as usize, desc);
	let mut want = v.clone();
	want.sort_by_key(|x| (if desc { u64::MAX - x.0 } else { x.0 }, x.1));
	ck_eq!(sorted.clone(), want.clone(), "sorted");
	ck_eq!(idx.clone(), want.iter().map(|x| x.1).collect::<Vec<_>>(), "indices");
	ck_eq!(unsort(idx, sorted), v.clone(), "unsort");
	let keys: Vec<u64> = v.iter().map(|x| x.0).collect();
	ck_eq!(is_sorted_ascending(keys.iter()), keys.windows(2).all(|w| w[0] <= w[1]), "is_sorted_ascending {keys:?}");
	Ok(())
}

fn sparse(s: &mut Src) -> Res {
	let mut m: BTreeMap<usize, u64> = BTreeMap::new();
	let mut x: SparseIndex<u64> = match s.range(0, 2) {
		0 => SparseIndex::new(),
		1 => SparseIndex::with_capacity(s.range(0, 6)),
		_ => {
			let k = s.range(0, 5);
			let v: Vec<(usize, u64)> = (0..k).map(|_| (s.range(0, 9), s.draw(99))).collect();
			m.extend(v.iter().copied());
			v.into_iter().collect()
		}
	};
	let ops = s.range(1, 14);
	s.nontrivial_if(ops > 2);
	for _ in 0..ops {
		let id = s.range(0, 12);
		let val = s.draw(99);
		match s.range(0, 8) {
			0 | 1 => {
				x.set(id, val);
				m.insert(id, val);
			}
			2 => {
				let got = *x.entry(id).or_insert(val);
				ck_eq!(got, *m.entry(id).or_insert(val), "entry {id}");
			}
			3 => {
				let got = x.entry(id).or_insert_with(|| val);
				*got += 1;
				*m.entry(id).or_insert(val) += 1;
			}
			4 => {
				if let Some(v) = x.get_mut(id) {
					*v ^= 7;
				}
				if let Some(v) = m.get_mut(&id) {
					*v ^= 7;
				}
			}
			5 => {
				for (i, v) in x.iter_mut() {
					*v = v.wrapping_add(i as u64);
				}
				for (i, v) in m.iter_mut() {
					*v = v.wrapping_add(*i as u64);
				}
			}
			6 => {
				for v in x.values_mut() {
					*v += 1;
				}
				for v in m.values_mut() {
					*v += 1;
				}
			}
			7 => {
				let got = no_panic(|| x[id]).ok();
				ck_eq!(got, m.get(&id).copied(), "index {id}");
				if m.contains_key(&id) {
					x[id] = val;
					m.insert(id, val);
				}
			}
			_ => {
				x = x.into_iter().collect();
			}
		}
		ck_eq!(x.get(id), m.get(&id), "get {id}");
		ck_eq!(x.contains_key(id), m.contains_key(&id), "contains_key {id}");
		ck_eq!(x.len(), m.len(), "len");
		ck_eq!(x.is_empty(), m.is_empty(), "is_empty");
		ck_eq!(x.iter().map(|(i, v)| (i, *v)).collect::<Vec<_>>(), m.iter().map(|(i, v)| (*i, *v)).collect::<Vec<_>>(), "iter");
		ck_eq!(x.iter().rev().map(|(i, v)| (i, *v)).collect::<Vec<_>>(), m.iter().rev().map(|(i, v)| (*i, *v)).collect::<Vec<_>>(), "iter backwards");
		ck_eq!(x.keys().collect::<Vec<_>>(), m.keys().copied().collect::<Vec<_>>(), "keys");
		ck_eq!(x.values().copied().collect::<Vec<_>>(), m.values().copied().collect::<Vec<_>>(), "values");
	}
	Ok(())
}

fn strided(s: &mut Src) -> Res {
	let h = s.range(0, 9);
	let w = s.range(1, 16);
	let mut data: Vec<u64> = (0..h * w).map(|i| i as u64).collect();
	let mut model = data.clone();
	let wrong = s.range(1, 3);
	ck!(StridedArray2DViewMut::without_stride(&mut data, h, w + wrong).is_err() || h == 0, "wrong dimensions accepted");
	let stride = s.range(1, w + 1);
	let stride2 = s.range(1, 4);
	let par = s.bool();
	s.desc(format!("{h}x{w} stride {stride}, {stride2} parallel {par}"));
	s.nontrivial_if(h > 1 && stride < w);
	let view = StridedArray2DViewMut::without_stride(&mut data, h, w).map_err(|e| e.to_string())?;
	ck_eq!((view.height(), view.width()), (h, w), "shape");
	// each piece is marked with its number; the pieces are split again
	let mark = |k: usize, v: &mut StridedArray2DViewMut<u64>, m: &dyn Fn(usize, usize) -> u64| -> Vec<u64> {
		let mut seen = vec![];
		for j in 0..v.width() {
			for i in 0..v.height() {
				seen.push(v[(i, j)]);
				v[(i, j)] = m(i, j) ^ ((k as u64) << 32);
			}
			for x in v.iter_column_mut(j) {
				*x ^= 1 << 20;
			}
		}
		seen
	};
	let val = |i: usize, j: usize| (i * 100 + j) as u64;
	let pieces: Vec<(usize, Vec<u64>)> = if par {
		view.into_par_strides(stride).map(|mut v| (v.width(), mark(v.width(), &mut v, &val))).collect()
	} else {
		view.into_strides(stride)
			.flat_map(|v| v.into_strides(stride2).collect::<Vec<_>>())
			.map(|mut v| (v.width(), mark(v.width(), &mut v, &val)))
			.collect()
	};
	// the same on the model
	let mut cuts = vec![];
	let mut c = 0;
	while c < w {
		let e = (c + stride).min(w);
		if par {
			cuts.push((c, e));
		} else {
			let mut d = c;
			while d < e {
				cuts.push((d, (d + stride2).min(e)));
				d += stride2;
			}
		}
		c = e;
	}
	let mut want = vec![];
	for (c, e) in cuts {
		let mut seen = vec![];
		for j in c..e {
			for i in 0..h {
				seen.push(model[i * w + j]);
				model[i * w + j] = val(i, j - c) ^ (((e - c) as u64) << 32) ^ (1 << 20);
			}
		}
		want.push((e - c, seen));
	}
	ck_eq!(pieces, want, "pieces and what they showed");
	ck_eq!(data, model, "array afterwards");
	Ok(())
}

fn array(s: &mut Src) -> Res {
	let (r, c) = (s.range(0, 6), s.range(1, 6));
	let mut a: Array2D<u64> = if s.bool() { Array2D::new(r, c) } else { Array2D::zeroes(r, c) };
	let mut m = vec![vec![0u64; c]; r];
	s.nontrivial_if(r > 1 && c > 1);
	ck_eq!((a.rows(), a.cols()), (r, c), "shape");
	if r > 0 {
		for _ in 0..s.range(0, 12) {
			let (i, j, v) = (s.index(r), s.index(c), s.draw(1 << 20));
			match s.range(0, 2) {
				0 => a[(i, j)] = v,
				1 => a.get_row_mut(i)[j] = v,
				_ => unsafe { *a.get_unchecked_mut(i, j) = v },
			}
			m[i][j] = v;
			ck_eq!(a[(i, j)], v, "element");
			ck_eq!(unsafe { *a.get_unchecked(i, j) }, v, "element, unchecked");
			ck_eq!(a.get_row(i).to_vec(), m[i].clone(), "row");
		}
	}
	ck_eq!(a.iter_rows().map(|r| r.to_vec()).collect::<Vec<_>>(), m.clone(), "rows");
	let sums: Vec<u64> = (0..c).map(|j| m.iter().map(|r| r[j]).sum()).collect();
	ck_eq!(a.sum_rows(), sums, "sum of the rows");
	// other shapes
	let c2 = s.range(1, 8);
	let r2 = if s.chance(2, 3) { r * c / c2 } else { s.range(0, 8) };
	let fits = r2 * c2 == r * c;
	let flat: Vec<u64> = m.concat();
	match a.reshape(r2, c2) {
		None => ck!(!fits, "reshape to {r2}x{c2} refused"),
		Some(b) => {
			ck!(fits, "reshape to {r2}x{c2} of {r}x{c}");
			ck_eq!((b.rows(), b.cols()), (r2, c2), "shape after reshape");
			ck_eq!(b.iter_rows().flatten().copied().collect::<Vec<_>>(), flat.clone(), "reshape");
		}
	}
	if let Some(mut b) = a.reshape_mut(r2, c2) {
		if r2 > 0 {
			let (i, j) = (s.index(r2), s.index(c2));
			b[(i, j)] = 12345;
			m[(i * c2 + j) / c][(i * c2 + j) % c] = 12345;
		}
	}
	ck_eq!(a.iter_rows().map(|r| r.to_vec()).collect::<Vec<_>>(), m, "rows after writing through reshape_mut");
	Ok(())
}

fn sequences(s: &mut Src) -> Res {
	let n = s.range(0, 12);
	let mut v: Vec<u64> = (0..n).map(|_| s.draw(999)).collect();
	let (o, l) = (s.range(0, 13), s.range(0, 13));
	s.desc(format!("{n} {o} {l}"));
	s.nontrivial_if(n > 1 && l > 1);
	fn look<R: RandomAccessSequence<u64>>(r: &R, want: &[u64]) -> Res {
		ck_eq!(r.len(), want.len(), "length");
		ck_eq!(r.is_empty(), want.is_empty(), "is_empty");
		for (i, w) in want.iter().enumerate() {
			ck_eq!(r.get(i), *w, "element {i}");
			ck_eq!(unsafe { r.get_unchecked(i) }, *w, "element {i}, unchecked");
		}
		for i in [want.len(), want.len() + 1] {
			ck!(no_panic(|| r.get(i)).is_err(), "read past the end at {i}");
		}
		Ok(())
	}
	{
		let sl = &v[..];
		look(&sl, &v)?;
		let sub = no_panic(|| SequenceSubrange::new(&sl, o, l));
		ck_eq!(sub.is_ok(), o + l <= n, "subrange {o}+{l} of {n}");
		if let Ok(sub) = sub {
			look(&sub, &v[o..o + l])?;
			let (o2, l2) = (s.range(0, l), s.range(0, l + 1));
			let ss = no_panic(|| SequenceSubrange::new(&sub, o2, l2));
			ck_eq!(ss.is_ok(), o2 + l2 <= l, "subrange of a subrange");
			if let Ok(ss) = ss {
				look(&ss, &v[o + o2..o + o2 + l2])?;
			}
		}
	}
	let mut model = v.clone();
	let mut sl = &mut v[..];
	let sub = no_panic(|| SequenceSubrangeMut::new(&mut sl, o, l));
	ck_eq!(sub.is_ok(), o + l <= n, "mutable subrange {o}+{l} of {n}");
	if let Ok(mut sub) = sub {
		for _ in 0..s.range(0, 5) {
			let (i, x) = (s.range(0, l + 1), s.draw(999));
			let r = no_panic(|| sub.set(i, x));
			ck_eq!(r.is_ok(), i < l, "write at {i} of {l}");
			if i < l {
				model[o + i] = x;
			}
		}
		look(&sub, &model[o..o + l])?;
	}
	look(&sl, &model)?;
	ck_eq!(v, model, "after writes");
	Ok(())
}

fn numbers(s: &mut Src) -> Res {
	let n = s.special_u64() as usize;
	s.desc(format!("{n}"));
	s.nontrivial_if(n > 1);
	let pow = n != 0 && (0..64).any(|k| n == 1 << k);
	let bits = (0..=64usize).find(|b| *b == 64 || n < 1 << b).unwrap();
	ck_eq!(min_bits(n), bits, "min_bits {n}");
	let ceil = (0..=64usize).find(|b| *b == 64 || n <= 1 << b).unwrap();
	ck_eq!(log2_ceil_usize(n), ceil, "log2_ceil {n}");
	ck_eq!(strict_log_2(n), pow.then_some(bits.wrapping_sub(1)), "strict_log_2 {n}");
	ck_eq!(no_panic(|| checked_log_2(n)).ok(), pow.then_some(bits.wrapping_sub(1)), "checked_log_2 {n}");
	ck_eq!(no_panic(|| log2_strict_usize(n)).ok(), pow.then_some(bits.wrapping_sub(1)), "log2_strict {n}");
	let d = s.range(1, 9);
	let m = if s.bool() { n / d * d } else { n };
	ck_eq!(no_panic(|| checked_int_div(m, d)).ok(), (m % d == 0).then_some(m / d), "checked_int_div {m} {d}");
	Ok(())
}

fn iterators(s: &mut Src) -> Res {
	let n = s.range(0, 10);
	let v: Vec<u64> = (0..n).map(|_| s.draw(99)).collect();
	let f = |x: &u64| x * 3 + 1;
	let want: Vec<u64> = v.iter().map(f).collect();
	let mut it = v.iter().map_skippable(f);
	let mut pos = 0;
	s.nontrivial_if(n > 1);
	for _ in 0..s.range(0, 6) {
		ck_eq!(it.len(), n - pos, "length");
		ck_eq!(it.size_hint(), (n - pos, Some(n - pos)), "size hint");
		if s.bool() {
			ck_eq!(it.next(), want.get(pos).copied(), "next");
			pos = (pos + 1).min(n);
		} else {
			let k = s.range(0, 4);
			ck_eq!(it.nth(k), want.get(pos + k).copied(), "nth {k}");
			pos = (pos + k + 1).min(n);
		}
	}
	ck_eq!(it.clone().collect::<Vec<_>>(), want[pos..].to_vec(), "rest");
	ck_eq!(it.fold(7u64, |a, x| a * 31 + x), want[pos..].iter().fold(7u64, |a, x| a * 31 + x), "fold");
	Ok(())
}

fn main() {
	run(Prop {
		id: "C27",
		rule: "at least two elements, sets or operations",
		assumptions: &["containers of up to 13 entries"],
		subs: vec![
			Sub { name: "graph", quick: 300000, thorough: 20000000, threads: 0, f: graph },
			Sub { name: "sorting", quick: 200000, thorough: 20000000, threads: 0, f: sorting },
			Sub { name: "sparse", quick: 200000, thorough: 20000000, threads: 0, f: sparse },
			Sub { name: "strided", quick: 200000, thorough: 20000000, threads: 0, f: strided },
			Sub { name: "array", quick: 200000, thorough: 20000000, threads: 0, f: array },
			Sub { name: "sequences", quick: 200000, thorough: 20000000, threads: 0, f: sequences },
			Sub { name: "numbers", quick: 200000, thorough: 20000000, threads: 0, f: numbers },
			Sub { name: "iterators", quick: 200000, thorough: 20000000, threads: 0, f: iterators },
		],
	})
}
