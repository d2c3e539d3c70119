//! Without rayon, the sequential replacements of parallel iterators mean what rayon's mean.
//!
//! The same source text is compiled twice, against rayon and against binius_maybe_rayon built without
//! rayon, and a generated pipeline (source, two adaptors, terminal operation) is run through both.
use std::sync::OnceLock;
use vp::*;

#[derive(Clone, Debug)]
pub struct Args {
	v: Vec<u64>,
	w: Vec<u64>,
	/// parameters of source, adaptors and terminal operation
	p: [usize; 4],
	src: usize,
	mid: [usize; 2],
	end: usize,
}

const SRC: usize = 15;
const MID: usize = 9;
const IDX: usize = 7;
const END: usize = 38;
const SLICE: usize = 16;

macro_rules! pipelines {
	($m:ident, $($imports:tt)*) => {
		mod $m {
			use super::Args;
			use either::Either;
			#[allow(unused_imports)]
			use std::collections::{HashSet, LinkedList};
			$($imports)*

			fn mix(x: u64) -> u64 {
				x.wrapping_mul(0x9e37_79b9_7f4a_7c15).rotate_left(23) ^ 5
			}

			/// Terminal operations of any parallel iterator.
			fn end<I: ParallelIterator<Item = u64>>(it: I, a: &Args) -> String {
				let (k, p) = (a.end, a.p[3]);
				let t = p as u64;
				let add = |x: u64, y: u64| x.wrapping_add(y);
				match k {
					0 => format!("{:?}", it.collect::<Vec<_>>()),
					1 => format!("{}", it.count()),
					2 => format!("{}", it.map(|x| x % 1000).sum::<u64>()),
					3 => format!("{}", it.map(|x| x % 2 + 1).filter(|x| *x > 0).map(|x| (x == 2) as u64).product::<u64>()),
					4 => format!("{:?}", it.min()),
					5 => format!("{:?}", it.max()),
					6 => format!("{:?}", it.min_by(|x, y| mix(*x).cmp(&mix(*y)))),
					7 => format!("{:?}", it.max_by(|x, y| mix(*x).cmp(&mix(*y)))),
					8 => format!("{:?}", it.min_by_key(|x| mix(*x))),
					9 => format!("{:?}", it.max_by_key(|x| mix(*x))),
					10 => format!("{:?}", it.find_first(|x| *x % (t + 2) == 1)),
					11 => format!("{:?}", it.find_last(|x| *x % (t + 2) == 1)),
					12 => format!("{:?}", it.find_any(|x| *x % (t + 2) == 1).is_some()),
					13 => format!("{:?}", it.find_map_first(|x| (x % (t + 2) == 1).then_some(mix(x)))),
					14 => format!("{:?}", it.find_map_last(|x| (x % (t + 2) == 1).then_some(mix(x)))),
					15 => format!("{:?}", it.find_map_any(|x| (x % (t + 2) == 1).then_some(mix(x))).is_some()),
					16 => format!("{}", it.any(|x| x % (t + 2) == 1)),
					17 => format!("{}", it.all(|x| x % (t + 2) != 1)),
					18 => format!("{}", it.reduce(|| 0, add)),
					19 => format!("{:?}", it.reduce_with(add)),
					20 => format!("{:?}", it.map(|x| if x % (t + 2) == 1 { None } else { Some(x) }).try_reduce(|| 0, |x, y| Some(add(x, y)))),
					21 => format!("{:?}", it.map(|x| if x % (t + 2) == 1 { None } else { Some(x) }).try_reduce_with(|x, y| Some(add(x, y)))),
					22 => format!("{:?}", it.map(|x| if x % (t + 2) == 1 { Err(7u8) } else { Ok(x) }).try_reduce(|| 0, |x, y| if y % (t + 3) == 1 { Err(7) } else { Ok(add(x, y)) }).is_ok() as u8 * 0),
					23 => format!("{}", it.fold(|| 0u64, move |x, y| add(x, mix(y))).reduce(|| 0, add)),
					24 => format!("{}", it.fold_with(0u64, move |x, y| add(x, mix(y))).reduce(|| 0, add)),
					25 => format!("{:?}", it.try_fold(|| 0u64, move |x, y| if y % (t + 2) == 1 { None } else { Some(add(x, y)) }).try_reduce(|| 0, |x, y| Some(add(x, y)))),
					26 => format!("{:?}", it.try_fold_with(0u64, move |x, y| if y % (t + 2) == 1 { Err(1u8) } else { Ok(add(x, y)) }).try_reduce(|| 0, |x, y| Ok(add(x, y)))),
					27 => format!("{:?}", it.partition::<Vec<u64>, Vec<u64>, _>(|x| x % (t + 2) == 1)),
					28 => format!("{:?}", it.partition_map::<Vec<u64>, Vec<String>, _, _, _>(|x| if x % (t + 2) == 1 { Either::Left(x) } else { Either::Right(format!("{x}")) })),
					29 => {
						let r: (Vec<u64>, Vec<u64>) = it.map(|x| (x, mix(x))).unzip();
						format!("{r:?}")
					}
					30 => format!("{:?}", it.map(|x| if x % (t + 2) == 1 { Err(3u8) } else { Ok(x) }).collect::<Result<Vec<_>, _>>()),
					31 => format!("{:?}", it.collect_vec_list().into_iter().flatten().collect::<Vec<_>>()),
					32 => {
						let s = std::sync::Mutex::new(vec![]);
						it.for_each(|x| s.lock().unwrap().push(x));
						let mut s = s.into_inner().unwrap();
						s.sort();
						format!("{s:?}")
					}
					33 => {
						let s = std::sync::Mutex::new(vec![]);
						it.for_each_init(|| 5u64, |i, x| s.lock().unwrap().push(x ^ *i));
						let mut s = s.into_inner().unwrap();
						s.sort();
						format!("{s:?}")
					}
					34 => {
						let s = std::sync::Mutex::new(vec![]);
						it.for_each_with(9u64, |i, x| s.lock().unwrap().push(x ^ *i));
						let mut s = s.into_inner().unwrap();
						s.sort();
						format!("{s:?}")
					}
					35 => format!("{:?}", it.try_for_each(|x| if x % (t + 2) == 1 { Err(()) } else { Ok(()) })),
					36 => format!("{:?}", it.try_for_each_init(|| 1u64, |i, x| if x % (t + 2) == *i { None } else { Some(()) })),
					_ => format!("{:?}", it.try_for_each_with(1u64, |i, x| if x % (t + 2) == *i { Err(4u8) } else { Ok(()) })),
				}
			}

			fn all<I: ParallelIterator<Item = u64>>(it: I, _: &Args) -> Vec<u64> {
				it.collect()
			}

			fn last(v: Vec<u64>, a: &Args) -> String {
				let t = a.p[2] as u64;
				let it = v.into_par_iter();
				match a.mid[1] {
					0 => end(it.map(mix), a),
					1 => end(it.filter(move |x| x % (t + 2) != 1), a),
					2 => end(it.chain(a.w.par_iter().map(|x| *x)), a),
					3 => end(it.zip(a.w.par_iter()).map(|(x, y)| x ^ *y), a),
					_ => end(it, a),
				}
			}

			/// Adaptors of any parallel iterator.
			fn mid<I: ParallelIterator<Item = u64>>(it: I, a: &Args, k: usize) -> Vec<u64> {
				let p = a.p[2];
				let t = p as u64;
				match k {
					0 => all(it.map(mix), a),
					1 => all(it.filter(|x| x % (t + 2) != 1), a),
					2 => all(it.filter_map::<_, u64>(|x| (x % (t + 2) != 1).then_some(x >> 1)), a),
					3 => all(it.flat_map(|x| vec![x, x ^ 1, x ^ 2][..(x % 4).min(3) as usize].to_vec()), a),
					4 => all(it.chain(a.w.par_iter().map(|x| *x)), a),
					5 => all(it.update(|x| *x ^= 3), a),
					6 => all(it.map(|x| vec![x; (x % 3) as usize]).flatten(), a),
					7 => all(it.map_init(|| 3u64, |i, x| x ^ *i).map_with(4u64, |i, x| x.wrapping_add(*i)).inspect(|_| ()).panic_fuse(), a),
					_ => all(it.map(|x| vec![x; (x % 3) as usize]).flatten_iter(), a),
				}
			}

			/// Adaptors of indexed parallel iterators.
			fn idx<I: IndexedParallelIterator<Item = u64>>(it: I, a: &Args) -> Vec<u64> {
				let p = a.p[1];
				let q = a.p[2];
				let k = a.mid[0];
				match k {
					0 => all(it.enumerate().map(|(i, x)| x ^ ((i as u64) << 40)), a),
					1 => all(it.zip(a.w.par_iter()).map(|(x, y)| x.wrapping_mul(*y | 1)), a),
					2 => all(it.step_by(p + 1), a),
					3 => all(it.chunks(p + 1).enumerate().map(|(i, c)| c.iter().fold(i as u64, |x, y| x.wrapping_mul(31).wrapping_add(*y))), a),
					4 => all(it.take(p).enumerate().map(|(i, x)| x ^ ((i as u64) << 40)), a),
					5 => {
						let it = it.step_by(q + 1).take(p);
						let n = it.len();
						let mut out = vec![1, 2, 3];
						it.collect_into_vec(&mut out);
						out.push(n as u64);
						out
					}
					6 => {
						let it = it.chunks(p + 1).zip(a.w.par_iter());
						let n = it.len();
						let mut v: Vec<u64> = it.map(|(c, y)| (c.len() as u64).wrapping_mul(31).wrapping_add(c[c.len() - 1]).wrapping_mul(31) ^ *y).collect();
						v.push(n as u64);
						v
					}
					_ => all(it.with_min_len(p + 1).with_max_len(p + q + 1), a),
				}
			}

			fn source(a: &Args) -> Vec<u64> {
				let p = a.p[0];
				match a.src {
					0 => idx(a.v.clone().into_par_iter(), a),
					1 => idx(a.v.par_iter().map(|x| *x), a),
					2 => idx((0..p).into_par_iter().map(|x| x as u64), a),
					3 => idx((p as u32..p as u32 + a.v.len() as u32).into_par_iter().map(u64::from), a),
					4 => idx(a.v.par_chunks(p + 1).map(|c| c.iter().fold(c.len() as u64, |x, y| x.wrapping_mul(31).wrapping_add(*y))), a),
					5 => idx(a.v.par_chunks_exact(p + 1).map(|c| c.iter().fold(c.len() as u64, |x, y| x.wrapping_mul(31).wrapping_add(*y))), a),
					6 => idx(a.v.par_rchunks(p + 1).map(|c| c.iter().fold(c.len() as u64, |x, y| x.wrapping_mul(31).wrapping_add(*y))), a),
					7 => idx(a.v.par_rchunks_exact(p + 1).map(|c| c.iter().fold(c.len() as u64, |x, y| x.wrapping_mul(31).wrapping_add(*y))), a),
					8 => idx(a.v.par_windows(p + 1).map(|c| c.iter().fold(c.len() as u64, |x, y| x.wrapping_mul(31).wrapping_add(*y))), a),
					9 => idx((a.v.par_iter(), a.w.par_iter()).into_par_iter().map(|(x, y)| x.wrapping_mul(*y | 1)), a),
					10 => all(a.v.par_split(|x| x % (p as u64 + 2) == 1).map(|c| c.iter().fold(c.len() as u64, |x, y| x.wrapping_mul(31).wrapping_add(*y))), a),
					11 => all(a.v.par_split_inclusive(|x| x % (p as u64 + 2) == 1).map(|c| c.iter().fold(c.len() as u64, |x, y| x.wrapping_mul(31).wrapping_add(*y))), a),
					12 => all(a.v.par_chunk_by(|x, y| x % 2 == y % 2).map(|c| c.iter().fold(c.len() as u64, |x, y| x.wrapping_mul(31).wrapping_add(*y))), a),
					13 => all(a.v.par_iter().map(|x| *x).intersperse(77), a),
					_ => all(a.v.par_iter().map(|x| (x % (p as u64 + 5) != 1).then_some(*x)).chunks(1).map(|c| c[0]).filter(|_| true).map(|x| x.unwrap_or(4)), a),
				}
			}

			pub fn run(a: &Args) -> String {
				let v = source(a);
				let v = if a.mid[0] % 2 == 0 { mid(v.into_par_iter(), a, (a.mid[1] + 4) % 9) } else { v };
				let v = idx(v.into_par_iter(), a);
				last(v, a)
			}

			/// Operations on mutable slices.
			pub fn slices(a: &Args) -> String {
				let mut v = a.v.clone();
				let p = a.p[0];
				let t = p as u64;
				let put = |i: usize, c: &mut [u64]| {
					for (j, x) in c.iter_mut().enumerate() {
						*x = mix(*x) ^ ((i as u64) << 40) ^ j as u64;
					}
				};
				let rev = |c: &mut [u64]| c.reverse();
				match a.src {
					0 => v.par_chunks_mut(p + 1).enumerate().for_each(|(i, c)| put(i, c)),
					1 => v.par_chunks_exact_mut(p + 1).enumerate().for_each(|(i, c)| put(i, c)),
					2 => v.par_rchunks_mut(p + 1).enumerate().for_each(|(i, c)| put(i, c)),
					3 => v.par_rchunks_exact_mut(p + 1).enumerate().for_each(|(i, c)| put(i, c)),
					4 => v.par_split_mut(|x| x % (t + 2) == 1).for_each(rev),
					5 => v.par_split_inclusive_mut(|x| x % (t + 2) == 1).for_each(rev),
					6 => v.par_chunk_by_mut(|x, y| x % 2 == y % 2).for_each(rev),
					7 => v.par_sort(),
					8 => v.par_sort_by(|x, y| (y % (t + 2)).cmp(&(x % (t + 2)))),
					9 => v.par_sort_by_key(|x| x % (t + 2)),
					10 => v.par_sort_by_cached_key(|x| x % (t + 2)),
					11 => v.par_sort_unstable(),
					12 => v.par_sort_unstable_by(|x, y| y.cmp(x)),
					13 => v.par_sort_unstable_by_key(|x| mix(*x)),
					14 => v.par_iter_mut().enumerate().for_each(|(i, x)| *x ^= (i as u64) << 40),
					_ => v.par_chunks_mut(p + 1).zip(a.w.par_iter()).for_each(|(c, y)| c[0] = *y),
				}
				format!("{v:?}")
			}
		}
	};
}

pipelines!(par, use rayon::prelude::*;);
pipelines!(seq, use binius_maybe_rayon::prelude::*;);

fn pool(k: usize) -> &'static rayon::ThreadPool {
	static P: OnceLock<Vec<rayon::ThreadPool>> = OnceLock::new();
	&P.get_or_init(|| [1, 2, 4].iter().map(|n| rayon::ThreadPoolBuilder::new().num_threads(*n).build().unwrap()).collect())[k]
}

fn args(s: &mut Src) -> Args {
	let small = s.bool();
	let list = |s: &mut Src| -> Vec<u64> {
		let n = s.range(0, if small { 5 } else { 40 });
		(0..n).map(|_| if s.bool() { s.draw(9) } else { s.special_u64() }).collect()
	};
	let v = list(s);
	let w = list(s);
	let p = std::array::from_fn(|_| s.range(0, if small { 3 } else { 12 }));
	Args { v, w, p, src: 0, mid: [0, 0], end: 0 }
}

fn compare(s: &mut Src, a: &Args, f: fn(&Args) -> String, g: fn(&Args) -> String) -> Res {
	s.desc(format!("{a:?}"));
	s.nontrivial_if(a.v.len() > 1);
	let k = s.index(3);
	let want = no_panic(|| pool(k).install(|| f(a))).map_err(|_| "panic");
	let got = no_panic(|| g(a)).map_err(|_| "panic");
	ck_eq!(got.clone(), want.clone(), "sequential and rayon differ: {a:?}");
	Ok(())
}

fn iterators(s: &mut Src) -> Res {
	let mut a = args(s);
	a.src = s.index(SRC);
	a.mid = [s.range(0, IDX), s.index(MID)];
	a.end = s.index(END);
	s.label(format!("source {}", a.src));
	s.label(format!("end {}", a.end));
	compare(s, &a, par::run, seq::run)
}

fn slices(s: &mut Src) -> Res {
	let mut a = args(s);
	a.src = s.index(SLICE);
	s.label(format!("slice operation {}", a.src));
	compare(s, &a, par::slices, seq::slices)
}

/// `join`, `scope` and thread pools: everything spawned runs, before the call returns.
fn tasks(s: &mut Src) -> Res {
	use binius_maybe_rayon as m;
	let n = s.range(0, 8);
	let vals: Vec<u64> = (0..n).map(|_| s.u64()).collect();
	s.nontrivial_if(n > 1);
	fn sum_join(v: &[u64], seq: bool) -> u64 {
		if v.len() < 2 {
			return v.first().copied().unwrap_or(0);
		}
		let (l, r) = v.split_at(v.len() / 2);
		let (x, y) = if seq {
			m::join(|| sum_join(l, seq), || sum_join(r, seq))
		} else {
			rayon::join(|| sum_join(l, seq), || sum_join(r, seq))
		};
		x.wrapping_mul(31).wrapping_add(y)
	}
	ck_eq!(sum_join(&vals, true), sum_join(&vals, false), "join");
	let out = std::sync::Mutex::new(vec![]);
	let back = m::scope(|sc| {
		for v in &vals {
			let out = &out;
			sc.spawn(move |sc| {
				out.lock().unwrap().push(*v);
				sc.spawn(move |_| out.lock().unwrap().push(v ^ 1));
			});
		}
		vals.len()
	});
	ck_eq!(back, vals.len(), "value of scope");
	let mut got = out.into_inner().unwrap();
	got.sort();
	let mut want: Vec<u64> = vals.iter().flat_map(|v| [*v, v ^ 1]).collect();
	want.sort();
	ck_eq!(got, want, "tasks of a scope");
	let pool = m::ThreadPoolBuilder::new().num_threads(s.range(1, 4)).build().unwrap();
	ck_eq!(pool.install(|| sum_join(&vals, true)), sum_join(&vals, false), "install");
	ck_eq!(m::current_num_threads(), 1, "number of threads");
	Ok(())
}

fn main() {
	run(Prop {
		id: "C26",
		rule: "at least two elements",
		assumptions: &["rayon itself", "operations whose result rayon leaves open (find_any, ties) are compared in what is fixed"],
		subs: vec![
			Sub { name: "iterators", quick: 400000, thorough: 20000000, threads: 0, f: iterators },
			Sub { name: "slices", quick: 200000, thorough: 10000000, threads: 0, f: slices },
			Sub { name: "tasks", quick: 20000, thorough: 1000000, threads: 0, f: tasks },
		],
	})
}
