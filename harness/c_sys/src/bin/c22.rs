//! Compute layers: every operation of every layer, on memory of any shape and with any history, computes its
//! mathematical definition and touches nothing but its output.
use std::sync::{OnceLock, atomic::{AtomicUsize, Ordering}};

use binius_compute::{
	ComputeData, ComputeHolder, ComputeLayer, ComputeLayerExecutor, ComputeMemory, KernelExecutor, SizedSlice, alloc::ComputeAllocator,
	cpu::{CpuLayer, layer::CpuLayerHolder},
	layer::{Error, FSlice, FSliceMut, KernelBuffer, KernelMemMap},
	memory::{SlicesBatch, SubfieldSlice},
	ops::eq_ind_partial_eval,
};
use binius_fast_compute::layer::{FastCpuLayer, FastCpuLayerHolder};
use binius_field::{arch::{packed_256::*, packed_512::*, packed_aes_128::*, packed_aes_512::*}, tower::{AESTowerFamily, CanonicalTowerFamily}, *};
use binius_math::{ArithCircuit, ArithExpr};
use binius_ntt::{AdditiveNTT, SingleThreadedNTT};
use c_field::Fd;
use c_sys::{Ex, refm};
use vp::*;

fn pool(k: usize) -> &'static rayon::ThreadPool {
	static P: OnceLock<Vec<rayon::ThreadPool>> = OnceLock::new();
	&P.get_or_init(|| [1, 2, 3, 5].iter().map(|n| rayon::ThreadPoolBuilder::new().num_threads(*n).build().unwrap()).collect())[k]
}

type Mem<F, H> = <H as ComputeLayer<F>>::DevMem;

/// A step from a slice to a part of it.
#[derive(Clone, Copy, Debug)]
enum Step {
	Half(bool),
	Range(usize, usize),
	Split(usize, bool),
	Pow(usize),
	Chunk(usize, usize),
}
impl Step {
	/// offset and length of the part
	fn part(self, len: usize) -> (usize, usize) {
		match self {
			Step::Half(r) => (if r { len / 2 } else { 0 }, len / 2),
			Step::Range(a, b) => (a, b - a),
			Step::Split(m, r) => {
				if r {
					(m, len - m)
				} else {
					(0, m)
				}
			}
			Step::Pow(n) => (0, n.min(len)),
			Step::Chunk(n, i) => (n * i, n),
		}
	}
}

fn sub<'x, F: Fd, M: ComputeMemory<F>>(mut x: M::FSlice<'x>, steps: &[Step]) -> M::FSlice<'x> {
	for st in steps {
		x = match *st {
			Step::Half(r) => {
				let (a, b) = M::split_half(x);
				if r { b } else { a }
			}
			Step::Range(a, b) => M::slice(x, a..b),
			Step::Split(m, r) => {
				let (a, b) = M::split_at(x, m);
				if r { b } else { a }
			}
			Step::Pow(n) => {
				let mut y = x;
				while y.len() > n {
					y = M::split_half(y).0;
				}
				y
			}
			Step::Chunk(n, i) => M::slice_chunks(x, n).nth(i).unwrap(),
		};
	}
	x
}
fn with_ref<F: Fd, M: ComputeMemory<F>, R>(x: M::FSlice<'_>, steps: &[Step], f: &mut impl FnMut(M::FSlice<'_>) -> R) -> R {
	f(sub::<F, M>(x, steps))
}
/// Narrows a mutable slice by giving it up (the parts of a slice) or by borrowing a part of it.
fn with_mut<F: Fd, M: ComputeMemory<F>, R>(mut x: M::FSliceMut<'_>, steps: &[Step], f: &mut impl FnMut(M::FSliceMut<'_>) -> R) -> R {
	let Some((st, rest)) = steps.split_first() else { return f(x) };
	match *st {
		Step::Half(r) => {
			let (a, b) = M::split_half_mut(x);
			with_mut::<F, M, R>(if r { b } else { a }, rest, f)
		}
		Step::Range(a, b) => with_mut::<F, M, R>(M::slice_mut(&mut x, a..b), rest, f),
		Step::Split(m, r) => {
			let (a, b) = M::split_at_mut_borrowed(&mut x, m);
			with_mut::<F, M, R>(if r { b } else { a }, rest, f)
		}
		Step::Pow(n) => with_mut::<F, M, R>(M::slice_power_of_two_mut(&mut x, n), rest, f),
		Step::Chunk(n, i) => {
			let y = M::slice_chunks_mut(x, n).nth(i).unwrap();
			with_mut::<F, M, R>(y, rest, f)
		}
	}
}

#[derive(Clone, Debug)]
struct View {
	buf: usize,
	steps: Vec<Step>,
	off: usize,
	len: usize,
}
struct Bufs<'a, F: Fd, H: ComputeLayer<F> + 'a> {
	dev: Vec<FSliceMut<'a, F, H>>,
	model: Vec<Vec<F>>,
}

/// A view of `buf`, of length `want` if given (which has to be a length that the buffer can be narrowed to).
fn view(s: &mut Src, align: usize, buf: usize, full: usize, want: Option<usize>, mutable: bool) -> Option<View> {
	if want.is_some_and(|w| w > full) {
		return None;
	}
	let (mut off, mut len) = (0, full);
	let mut steps = vec![];
	for _ in 0..20 {
		if want == Some(len) && !s.chance(1, 8) || want.is_none() && (len == 1 || s.chance(1, 2)) {
			break;
		}
		let mut opts = vec![];
		// known finding: borrowing the later parts of one packed element loses writes
		let reborrow = !mutable || off % align == 0;
		let ok = |l: usize| l > 0 && want.is_none_or(|w| l >= w && (w >= align || l.is_power_of_two() || true));
		if len.is_power_of_two() && len > 1 && ok(len / 2) {
			opts.push(Step::Half(s.bool()));
			if reborrow && s.chance(1, 3) {
				let lo = want.unwrap_or(1);
				let n = (lo.next_power_of_two()).max(1) << s.range(0, 2);
				if ok(n) {
					opts.push(Step::Pow(n));
				}
			}
		}
		if len % align == 0 && len > align {
			let u = len / align;
			let a = s.range(0, u - 1);
			let b = s.range(a + 1, u);
			if ok((b - a) * align) {
				opts.push(Step::Range(a * align, b * align));
			}
			if let Some(w) = want.filter(|w| *w % align == 0 && *w <= len) {
				let a = s.range(0, u - w / align);
				opts.push(Step::Range(a * align, a * align + w));
			}
			let m = s.range(1, u - 1) * align;
			let r = s.bool();
			if ok(if r { len - m } else { m }) {
				opts.push(Step::Split(m, r));
			}
			let n = align << s.range(0, 2);
			if len % n == 0 && ok(n) {
				opts.push(Step::Chunk(n, s.index(len / n)));
			}
		}
		if reborrow && (s.chance(1, 6) || opts.is_empty()) {
			opts.push(Step::Range(0, len));
		}
		if opts.is_empty() {
			break;
		}
		let st = *s.pick(&opts);
		let (o, l) = st.part(len);
		off += o;
		len = l;
		steps.push(st);
	}
	if want.is_some_and(|w| w != len) {
		return None;
	}
	Some(View { buf, steps, off, len })
}

impl<'a, F: Fd, H: ComputeLayer<F> + 'a> Bufs<'a, F, H> {
	fn get(&self, v: &View) -> Vec<F> {
		self.model[v.buf][v.off..v.off + v.len].to_vec()
	}
	fn set(&mut self, v: &View, vals: &[F]) {
		self.model[v.buf][v.off..v.off + v.len].copy_from_slice(vals);
	}
	/// Everything on the device is what the model says.
	fn same(&self, hal: &H, what: &str) -> Res {
		for (i, (d, m)) in self.dev.iter().zip(&self.model).enumerate() {
			let mut host = vec![F::ONE; m.len()];
			hal.copy_d2h(Mem::<F, H>::as_const(d), &mut host).map_err(|e| e.to_string())?;
			for j in 0..m.len() {
				ck!(host[j] == m[j], "{what}: buffer {i} (length {}) differs at {j}: {:?} instead of {:?}", m.len(), host[j], m[j]);
			}
		}
		Ok(())
	}
	fn read<R>(&self, v: &View, f: &mut impl FnMut(FSlice<'_, F, H>) -> R) -> R {
		with_ref::<F, Mem<F, H>, R>(Mem::<F, H>::as_const(&self.dev[v.buf]), &v.steps, f)
	}
}

fn ev<F: Fd>(e: &Ex, at: &[F]) -> F {
	match e {
		Ex::Const(c) => F::of(*c),
		Ex::Var(i) => at[*i],
		Ex::Add(a, b) => ev(a, at) + ev(b, at),
		Ex::Mul(a, b) => ev(a, at) * ev(b, at),
		Ex::Pow(a, n) => {
			let x = ev(a, at);
			(0..*n).fold(F::ONE, |p, _| p * x)
		}
	}
}
fn ax<F: Fd>(e: &Ex) -> ArithExpr<F> {
	match e {
		Ex::Const(c) => ArithExpr::Const(F::of(*c)),
		Ex::Var(i) => ArithExpr::Var(*i),
		Ex::Add(a, b) => ax(a) + ax(b),
		Ex::Mul(a, b) => ax(a) * ax(b),
		Ex::Pow(a, n) => ax(a).pow(*n),
	}
}
/// A composition that depends on the last of its `nv` variables: the number of variables of a compiled
/// expression is that of the expression after optimization, so this one must not cancel.
fn composition<F: Fd>(s: &mut Src, nv: usize) -> Ex {
	let e = if nv == 1 { Ex::Const(s.special_u128()) } else { Ex::generate(s, nv - 1, 7, 3, 3) };
	let bx = Box::new;
	let last = Ex::Var(nv - 1);
	match s.index(3) {
		0 => Ex::Add(bx(e), bx(last)),
		1 => Ex::Pow(bx(Ex::Add(bx(e), bx(last))), s.range(1, 4) as u64),
		_ => Ex::Add(bx(e), bx(Ex::Mul(bx(Ex::Const(s.u128() | 1)), bx(Ex::Pow(bx(last), s.range(1, 5) as u64))))),
	}
}

/// The coordinates of a vector over the subfield of a level, as elements of the large field.
fn coords<F: Fd>(xs: &[F], level: usize) -> Vec<F> {
	let bits = 1usize << level;
	xs.iter().flat_map(|x| (0..128 / bits).map(move |j| (x.raw() >> (j * bits)) & refm::mask(level))).map(F::of).collect()
}
fn eqs<F: Fd>(start: &[F], r: &[F]) -> Vec<F> {
	let mut v = start.to_vec();
	for x in r {
		let hi: Vec<F> = v.iter().map(|a| *a * *x).collect();
		let lo: Vec<F> = v.iter().zip(&hi).map(|(a, b)| *a - *b).collect();
		v = [lo, hi].concat();
	}
	v
}

fn err(what: &str) -> impl Fn(Error) -> String + '_ {
	move |e| format!("{what} failed: {e}")
}

/// The operand of a kernel instruction: a mapped buffer or one half of it.
#[derive(Clone, Copy, Debug)]
struct Opd {
	buf: usize,
	half: Option<bool>,
}
#[derive(Clone, Debug)]
enum Ins {
	Add(Opd, Opd, Opd),
	AddAssign(Opd, Opd),
	Sum(Vec<Opd>, Ex, usize),
}

fn operand<'x, M: ComputeMemory<F>, F: Fd>(bufs: &'x [KernelBuffer<'_, F, M>], o: Opd) -> M::FSlice<'x> {
	let r = bufs[o.buf].to_ref();
	match o.half {
		None => r,
		Some(h) => {
			let (a, b) = M::split_half(r);
			if h { b } else { a }
		}
	}
}
fn part<F: Fd>(v: &[F], half: Option<bool>) -> std::ops::Range<usize> {
	match half {
		None => 0..v.len(),
		Some(false) => 0..v.len() / 2,
		Some(true) => v.len() / 2..v.len(),
	}
}

fn go<F, FS, H, C>(s: &mut Src, mut holder: C, size: usize, fast: bool) -> Res
where
	F: Fd + ExtensionField<FS>,
	FS: Fd + BinaryField,
	H: ComputeLayer<F> + Sync,
	C: ComputeHolder<F, H>,
{
	let align = Mem::<F, H>::ALIGNMENT;
	let ComputeData { hal, mut dev_alloc, .. } = holder.to_data();
	// memory with a history
	let mut bulk = s.bulk();
	{
		let scope = dev_alloc.subscope_allocator();
		let n = scope.capacity();
		ck!(n >= size, "capacity {n} of a device with {size} elements");
		let mut all = scope.alloc(n).map_err(|e| e.to_string())?;
		let junk: Vec<F> = (0..n).map(|_| Fd::next(&mut bulk)).collect();
		hal.copy_h2d(&junk, &mut all).map_err(err("copy_h2d"))?;
	}
	let nb = s.range(2, 4);
	let mut b = Bufs::<F, H> { dev: vec![], model: vec![] };
	let max_log = if s.thorough { 9 } else { 7 };
	for _ in 0..nb {
		let mut len = 1usize << s.weighted(&[2, 3, 3, 3, 3, 3, 2, 1, 1, 1]).min(max_log);
		if s.chance(1, 5) {
			len = align * s.range(1, 20);
		} else if size == 1 << 14 {
			len = 1usize << s.range(7, 12);
		}
		let before = dev_alloc.capacity();
		let mut d = match dev_alloc.alloc(len) {
			Ok(d) => d,
			Err(_) => {
				ck!(len > before, "allocation of {len} elements of {before} failed");
				ck_eq!(dev_alloc.capacity(), before, "capacity after a failed allocation");
				break;
			}
		};
		ck_eq!(d.len(), len, "length of an allocation");
		ck_eq!(dev_alloc.capacity(), before - len.max(align), "capacity after an allocation of {len}");
		let v: Vec<F> = (0..len).map(|_| Fd::next(&mut bulk)).collect();
		hal.copy_h2d(&v, &mut d).map_err(err("copy_h2d"))?;
		b.dev.push(d);
		b.model.push(v);
	}
	if b.dev.len() < 2 {
		s.discard();
		return Ok(());
	}
	b.same(hal, "after the allocations")?;
	let mut log = vec![];
	let n_ops = s.range(1, 6);
	'ops: for _ in 0..n_ops {
		// output and inputs come from different buffers
		let o = s.index(b.dev.len());
		let other = |s: &mut Src| {
			let k = s.index(nbufs(&b) - 1);
			if k >= o { k + 1 } else { k }
		};
		let lens: Vec<usize> = b.model.iter().map(|m| m.len()).collect();
		let pick = |s: &mut Src, k: usize, want: Option<usize>| view(s, align, k, lens[k], want, k == o);
		macro_rules! or_skip {
			($e:expr) => {
				match $e {
					Some(v) => v,
					None => continue 'ops,
				}
			};
		}
		macro_rules! out {
			($v:expr, |$x:ident| $body:expr) => {{
				let mut d = b.dev.remove($v.buf);
				let r = with_mut::<F, Mem<F, H>, _>(Mem::<F, H>::to_owned_mut(&mut d), &$v.steps, &mut |mut y| { let $x = &mut y; $body });
				b.dev.insert($v.buf, d);
				r
			}};
		}
		// inputs are read while the output is taken out, so indices shift: take the inputs as owned closures
		let kind = s.weighted(&[2, 2, 2, 3, 3, 3, 3, 3, 3, 5, 5, 2, 3, if fast { 0 } else { 3 }]);
		match kind {
			0 => {
				let v = or_skip!(pick(s, o, None));
				let vals: Vec<F> = (0..v.len).map(|_| Fd::next(&mut bulk)).collect();
				log.push(format!("h2d {v:?}"));
				out!(v, |x| hal.copy_h2d(&vals, x)).map_err(err("copy_h2d"))?;
				b.set(&v, &vals);
			}
			1 => {
				let v = or_skip!(pick(s, o, None));
				log.push(format!("fill {v:?}"));
				let c = F::draw(s);
				out!(v, |x| hal.fill(x, c)).map_err(err("fill"))?;
				b.set(&v, &vec![c; v.len]);
			}
			2 => {
				let v = or_skip!(pick(s, o, None));
				let k = other(s);
				let w = or_skip!(pick(s, k, Some(v.len)));
				log.push(format!("d2d {w:?} -> {v:?}"));
				let vals = b.get(&w);
				// the part read is the part the model has
				let mut host = vec![F::ONE; w.len];
				b.read(&w, &mut |x| hal.copy_d2h(x, &mut host)).map_err(err("copy_d2h"))?;
				ck!(host == vals, "copy_d2h of {w:?} is not that part of the buffer");
				let mut d = b.dev.remove(v.buf);
				let src = &b.dev[k - (k > v.buf) as usize];
				with_mut::<F, Mem<F, H>, _>(Mem::<F, H>::to_owned_mut(&mut d), &v.steps, &mut |mut x| {
					let x = &mut x;
					with_ref::<F, Mem<F, H>, _>(Mem::<F, H>::as_const(src), &w.steps, &mut |y| hal.copy_d2d(y, x))
				})
				.map_err(err("copy_d2d"))?;
				b.dev.insert(v.buf, d);
				b.set(&v, &vals);
			}
			3 => {
				// inner product
				let level = *s.pick(&[7, 0, 3, 4, 5, 6]);
				let ka = s.index(nb.min(lens.len()));
				let kb = s.index(nb.min(lens.len()));
				let va = or_skip!(pick(s, ka, None));
				let vb = or_skip!(pick(s, kb, Some(va.len << (7 - level))));
				log.push(format!("inner product level {level} {va:?} {vb:?}"));
				let want: F = coords(&b.get(&va), level).iter().zip(b.get(&vb)).map(|(x, y)| *x * y).sum();
				let got = b
					.read(&va, &mut |x| {
						b.read(&vb, &mut |y| hal.execute(|e| Ok(vec![e.inner_product(SubfieldSlice::new(Mem::<F, H>::narrow(&x), level), Mem::<F, H>::narrow(&y))?])))
					})
					.map_err(err("inner_product"))?;
				ck_eq!(got, vec![want], "inner product of {va:?} at level {level} and {vb:?}");
			}
			4 => {
				// tensor expansion
				let v = or_skip!(pick(s, o, None));
				if !v.len.is_power_of_two() {
					continue;
				}
				let k = v.len.trailing_zeros() as usize;
				let log_n = s.range(0, k);
				let r: Vec<F> = (log_n..k).map(|_| F::draw(s)).collect();
				log.push(format!("tensor_expand {log_n} {v:?}"));
				out!(v, |x| hal.execute(|e| {
					e.tensor_expand(log_n, &r, x)?;
					Ok(vec![])
				}))
				.map_err(err("tensor_expand"))?;
				let m = eqs(&b.get(&v)[..1 << log_n], &r);
				b.set(&v, &m);
			}
			5 | 6 => {
				// matrix-vector products
				let left = kind == 5;
				let level = *s.pick(&[7, 0, 3, 4, 5, 6]);
				let km = other(s);
				let kq = other(s);
				let vm = or_skip!(pick(s, km, None));
				if !vm.len.is_power_of_two() {
					continue;
				}
				let n = vm.len << (7 - level);
				let q = 1usize << s.range(0, n.trailing_zeros() as usize);
				let vq = or_skip!(pick(s, kq, Some(q)));
				let vo = or_skip!(pick(s, o, Some(n / q)));
				log.push(format!("fold_{} level {level} {vm:?} {vq:?} {vo:?}", if left { "left" } else { "right" }));
				let (mat, vec) = (coords(&b.get(&vm), level), b.get(&vq));
				let rows = n / q;
				let res: Vec<F> = (0..rows).map(|i| (0..q).map(|j| vec[j] * mat[if left { j * rows + i } else { i * q + j }]).sum()).collect();
				let mut d = b.dev.remove(vo.buf);
				let (sm, sq) = (&b.dev[km - (km > o) as usize], &b.dev[kq - (kq > o) as usize]);
				with_mut::<F, Mem<F, H>, _>(Mem::<F, H>::to_owned_mut(&mut d), &vo.steps, &mut |mut x| {
					let x = &mut x;
					with_ref::<F, Mem<F, H>, _>(Mem::<F, H>::as_const(sm), &vm.steps, &mut |m| {
						with_ref::<F, Mem<F, H>, _>(Mem::<F, H>::as_const(sq), &vq.steps, &mut |y| {
							hal.execute(|e| {
								let m = SubfieldSlice::new(Mem::<F, H>::narrow(&m), level);
								if left {
									e.fold_left(m, Mem::<F, H>::narrow(&y), x)?;
								} else {
									e.fold_right(m, Mem::<F, H>::narrow(&y), x)?;
								}
								Ok(vec![])
							})
						})
					})
				})
				.map_err(err("fold"))?;
				b.dev.insert(o, d);
				b.set(&vo, &res);
			}
			7 => {
				// FRI fold
				let ki = other(s);
				let vi = or_skip!(pick(s, ki, None));
				if !vi.len.is_power_of_two() {
					continue;
				}
				let total = vi.len.trailing_zeros() as usize;
				let lb = s.range(0, total);
				let ll = total - lb;
				if ll == 0 {
					continue;
				}
				let eta = s.range(0, ll);
				let vo = or_skip!(pick(s, o, Some(1 << (ll - eta))));
				let ch: Vec<F> = (0..lb + eta).map(|_| F::draw(s)).collect();
				log.push(format!("fri_fold log_len {ll} batch {lb} eta {eta} {vi:?} {vo:?}"));
				let ntt = SingleThreadedNTT::<FS>::new(ll + s.range(0, 2)).unwrap();
				let x = b.get(&vi);
				let w = eqs(&[F::ONE], &ch[..lb]);
				let mut y: Vec<F> = x.chunks(1 << lb).map(|c| c.iter().zip(&w).map(|(a, b)| *a * *b).sum()).collect();
				for (r, c) in ch[lb..].iter().enumerate() {
					y = (0..y.len() / 2)
						.map(|i| {
							let t = ntt.get_subspace_eval(ll - r, i);
							let v = y[2 * i] + y[2 * i + 1];
							let u = y[2 * i] + v * t;
							u + (v - u) * *c
						})
						.collect();
				}
				let mut d = b.dev.remove(o);
				let si = &b.dev[ki - (ki > o) as usize];
				with_mut::<F, Mem<F, H>, _>(Mem::<F, H>::to_owned_mut(&mut d), &vo.steps, &mut |mut x| {
					let x = &mut x;
					with_ref::<F, Mem<F, H>, _>(Mem::<F, H>::as_const(si), &vi.steps, &mut |m| {
						hal.execute(|e| {
							e.fri_fold(&ntt, ll, lb, &ch, Mem::<F, H>::narrow(&m), x)?;
							Ok(vec![])
						})
					})
				})
				.map_err(err("fri_fold"))?;
				b.dev.insert(o, d);
				b.set(&vo, &y);
			}
			8 => {
				let vo = or_skip!(pick(s, o, None));
				let ki = other(s);
				let vi = or_skip!(pick(s, ki, Some(vo.len)));
				let z = F::draw(s);
				log.push(format!("extrapolate_line {vo:?} {vi:?}"));
				let res: Vec<F> = b.get(&vo).iter().zip(b.get(&vi)).map(|(x, y)| *x + (y - *x) * z).collect();
				let mut d = b.dev.remove(o);
				let si = &b.dev[ki - (ki > o) as usize];
				with_mut::<F, Mem<F, H>, _>(Mem::<F, H>::to_owned_mut(&mut d), &vo.steps, &mut |mut x| {
					let x = &mut x;
					with_ref::<F, Mem<F, H>, _>(Mem::<F, H>::as_const(si), &vi.steps, &mut |m| {
						hal.execute(|e| {
							e.extrapolate_line(x, Mem::<F, H>::narrow(&m), z)?;
							Ok(vec![])
						})
					})
				})
				.map_err(err("extrapolate_line"))?;
				b.dev.insert(o, d);
				b.set(&vo, &res);
			}
			9 => {
				let vo = or_skip!(pick(s, o, None));
				let nv = s.range(1, 3);
				let mut ins = vec![];
				for _ in 0..nv {
					let k = other(s);
					ins.push(or_skip!(pick(s, k, Some(vo.len))));
				}
				let ex = composition::<F>(s, nv);
				log.push(format!("compute_composite {ex:?} {vo:?} {ins:?}"));
				let vals: Vec<Vec<F>> = ins.iter().map(|v| b.get(v)).collect();
				let res: Vec<F> = (0..vo.len).map(|i| ev(&ex, &vals.iter().map(|v| v[i]).collect::<Vec<_>>())).collect();
				let c = hal.compile_expr(&ArithCircuit::from(ax::<F>(&ex))).map_err(err("compile_expr"))?;
				let mut d = b.dev.remove(o);
				let rest = &b.dev;
				with_mut::<F, Mem<F, H>, _>(Mem::<F, H>::to_owned_mut(&mut d), &vo.steps, &mut |mut x| {
					let x = &mut x;
					gather::<F, H, _>(rest, o, &ins, &mut |rows| {
						let batch = SlicesBatch::new(rows.to_vec(), vo.len);
						hal.execute(|e| {
							e.compute_composite(&batch, x, &c)?;
							Ok(vec![])
						})
					})
				})
				.map_err(err("compute_composite"))?;
				b.dev.insert(o, d);
				b.set(&vo, &res);
			}
			10 => kernels::<F, H>(s, hal, align, &mut b, &lens, o, &mut log)?,
			11 => {
				// a product and a sum at once, and several in order
				let ks: Vec<usize> = (0..s.range(0, 5)).map(|_| s.index(lens.len())).collect();
				let mut ps = vec![];
				for k in ks {
					let va = or_skip!(pick(s, k, None));
					let kb = s.index(lens.len());
					let Some(vb) = pick(s, kb, Some(va.len)) else { continue };
					ps.push((va, vb));
				}
				log.push(format!("map {ps:?}"));
				let want: Vec<F> = ps.iter().map(|(x, y)| b.get(x).iter().zip(b.get(y)).map(|(p, q)| *p * q).sum()).collect();
				let fail = s.chance(1, 4).then(|| s.index(ps.len().max(1)));
				let bb = Shared(&b);
				let bb = &bb;
				let got = hal.execute(|e| e.map(0..ps.len(), |e, i| one(e, bb, &ps, fail, i)));
				if fail.is_some_and(|f| f < ps.len()) {
					ck!(got.is_err(), "an error in one operation of a map is lost");
				} else {
					ck_eq!(got.map_err(err("map"))?, want.clone(), "map of {} inner products", ps.len());
				}
				if ps.len() >= 2 {
					let got = hal.execute(|e| {
						let (x, y) = e.join(|e| one(e, bb, &ps, fail, 0), |e| one(e, bb, &ps, fail, 1))?;
						Ok(vec![x, y])
					});
					if fail.is_some_and(|f| f < 2) {
						ck!(got.is_err(), "an error in one operation of a join is lost");
					} else {
						ck_eq!(got.map_err(err("join"))?, want[..2].to_vec(), "join of two inner products");
					}
				}
			}
			12 => {
				let n = s.range(0, 5);
				let r: Vec<F> = (0..n).map(|_| F::draw(s)).collect();
				log.push(format!("eq_ind_partial_eval {n}"));
				if dev_alloc.capacity() < (1 << n).max(align) {
					continue;
				}
				let d = eq_ind_partial_eval(hal, &dev_alloc, &r).map_err(err("eq_ind_partial_eval"))?;
				b.dev.push(d);
				b.model.push(eqs(&[F::ONE], &r));
			}
			_ => {
				// products of pairs, round by round
				let ki = other(s);
				let vi = or_skip!(pick(s, ki, None));
				if !vi.len.is_power_of_two() || vi.len < 2 || dev_alloc.capacity() < vi.len {
					continue;
				}
				log.push(format!("pairwise_product_reduce {vi:?}"));
				let k = vi.len.trailing_zeros() as usize;
				let mut outs: Vec<_> = (0..k).map(|r| dev_alloc.alloc(1 << (k - r - 1)).unwrap()).collect();
				b.read(&vi, &mut |x| {
					hal.execute(|e| {
						e.pairwise_product_reduce(Mem::<F, H>::narrow(&x), &mut outs)?;
						Ok(vec![])
					})
				})
				.map_err(err("pairwise_product_reduce"))?;
				let mut cur = b.get(&vi);
				for d in outs {
					cur = cur.chunks(2).map(|c| c[0] * c[1]).collect();
					b.dev.push(d);
					b.model.push(cur.clone());
				}
			}
		}
		s.nontrivial();
		s.label(["h2d", "fill", "d2d", "inner", "tensor", "fold_left", "fold_right", "fri", "line", "composite", "kernels", "map", "eq", "pairs"][kind]);
		b.same(hal, log.last().map(|s| s.as_str()).unwrap_or(""))?;
	}
	s.desc(format!("align {align}: {}", log.join("; ")));
	Ok(())
}
fn one<F: Fd, H: ComputeLayer<F>, E: ComputeLayerExecutor<F, DevMem = H::DevMem>>(
	e: &mut E,
	bb: &Shared<'_, '_, F, H>,
	ps: &[(View, View)],
	fail: Option<usize>,
	i: usize,
) -> Result<E::OpValue, Error> {
	if fail == Some(i) {
		return Err(Error::InputValidation("wanted".into()));
	}
	let (va, vb) = &ps[i];
	bb.0.read(va, &mut |x| bb.0.read(vb, &mut |y| e.inner_product(SubfieldSlice::new(Mem::<F, H>::narrow(&x), 7), Mem::<F, H>::narrow(&y))))
}
struct Shared<'x, 'a, F: Fd, H: ComputeLayer<F> + 'a>(&'x Bufs<'a, F, H>);
// the buffers are only read
unsafe impl<F: Fd, H: ComputeLayer<F>> Sync for Shared<'_, '_, F, H> {}
fn nbufs<F: Fd, H: ComputeLayer<F>>(b: &Bufs<'_, F, H>) -> usize {
	b.dev.len()
}

/// Calls `f` with the views in `ins` of the buffers, of which number `o` is taken out.
fn gather<F: Fd, H: ComputeLayer<F>, R>(rest: &[FSliceMut<'_, F, H>], o: usize, ins: &[View], f: &mut impl FnMut(&[FSlice<'_, F, H>]) -> R) -> R {
	let rows: Vec<_> = ins.iter().map(|v| sub::<F, Mem<F, H>>(Mem::<F, H>::as_const(&rest[v.buf - (v.buf > o) as usize]), &v.steps)).collect();
	f(&rows)
}

#[allow(clippy::too_many_arguments)]
fn kernels<'a, F: Fd, H: ComputeLayer<F> + 'a>(s: &mut Src, hal: &H, align: usize, b: &mut Bufs<'a, F, H>, lens: &[usize], o: usize, log: &mut Vec<String>) -> Res {
	// a read-write buffer, read-only ones and scratchpads, all of one size or half of it
	let vo = match view(s, align, o, lens[o], None, true) {
		Some(v) if v.len.is_power_of_two() && v.len >= 2 && v.off % align == 0 => v,
		_ => return Ok(()),
	};
	let k = vo.len.trailing_zeros() as usize;
	let mut ins = vec![];
	for _ in 0..s.range(0, 3) {
		let j = s.index(lens.len() - 1);
		let j = if j >= o { j + 1 } else { j };
		let want = vo.len >> s.index(2);
		if let Some(v) = view(s, align, j, lens[j], Some(want), false) {
			ins.push(v);
		}
	}
	let locals: Vec<usize> = (0..s.range(0, 2)).map(|_| k - s.index(2)).collect();
	let use_out = s.chance(3, 4) || ins.is_empty();
	// (log size, writable)
	let mut kinds: Vec<(usize, bool)> = ins.iter().map(|v| (v.len.trailing_zeros() as usize, false)).collect();
	kinds.extend(locals.iter().map(|l| (*l, true)));
	if use_out {
		kinds.push((k, true));
	}
	let mins: Vec<usize> = kinds.iter().map(|(l, _)| if *l == k { s.range(1, 3) } else { s.range(0, 2) }).collect();
	let opd = |s: &mut Src, log: Option<usize>, writable: bool| -> Option<Opd> {
		let mut c = vec![];
		for (buf, (l, w)) in kinds.iter().enumerate() {
			if writable && !*w {
				continue;
			}
			if log.is_none_or(|g| g == *l) {
				c.push(Opd { buf, half: None });
			}
			if *l == k && log.is_none_or(|g| g + 1 == *l) {
				c.push(Opd { buf, half: Some(s.bool()) });
			}
		}
		(!c.is_empty()).then(|| *s.pick(&c))
	};
	let lo = |o: &Opd| kinds[o.buf].0 - o.half.is_some() as usize;
	let n_vals = s.range(0, 3);
	let mut prog = vec![];
	for _ in 0..s.range(1, 5) {
		match s.index(3) {
			0 => {
				let Some(d) = opd(s, None, true) else { continue };
				let (Some(x), Some(y)) = (opd(s, Some(lo(&d)), false), opd(s, Some(lo(&d)), false)) else { continue };
				if x.buf != d.buf && y.buf != d.buf {
					prog.push(Ins::Add(x, y, d));
				}
			}
			1 => {
				let Some(d) = opd(s, None, true) else { continue };
				let Some(x) = opd(s, Some(lo(&d)), false) else { continue };
				if x.buf != d.buf {
					prog.push(Ins::AddAssign(x, d));
				}
			}
			_ => {
				if n_vals == 0 {
					continue;
				}
				let Some(x) = opd(s, None, false) else { continue };
				let mut xs = vec![x];
				for _ in 0..s.index(3) {
					xs.push(opd(s, Some(lo(&x)), false).unwrap());
				}
				let e = composition::<F>(s, xs.len());
				prog.push(Ins::Sum(xs, e, s.index(n_vals)));
			}
		}
	}
	let inits: Vec<F> = (0..n_vals).map(|_| if s.bool() { F::ZERO } else { F::draw(s) }).collect();
	let coeffs: Vec<F> = prog.iter().map(|_| F::draw(s)).collect();
	let accumulate = s.bool();
	let fail = s.chance(1, 10);
	log.push(format!("kernels {}{vo:?} (used {use_out}) {ins:?} locals {locals:?} mins {mins:?}: {prog:?}", if accumulate { "accumulate " } else { "map " }));
	let compiled: Vec<_> = prog
		.iter()
		.map(|i| match i {
			Ins::Sum(_, e, _) => hal.compile_expr(&ArithCircuit::from(ax::<F>(e))).map(Some),
			_ => Ok(None),
		})
		.collect::<Result<_, _>>()
		.map_err(err("compile_expr"))?;
	let chunks = AtomicUsize::new(usize::MAX);
	let mut d = b.dev.remove(o);
	let rest = &b.dev;
	let got = with_mut::<F, Mem<F, H>, _>(Mem::<F, H>::to_owned_mut(&mut d), &vo.steps, &mut |mut x| {
					let x = &mut x;
		gather::<F, H, _>(rest, o, &ins, &mut |rows| {
			let mut maps: Vec<KernelMemMap<'_, F, Mem<F, H>>> = rows.iter().zip(&mins).map(|(r, m)| KernelMemMap::Chunked { data: Mem::<F, H>::narrow(r), log_min_chunk_size: *m }).collect();
			maps.extend(locals.iter().map(|l| KernelMemMap::Local { log_size: *l }));
			if use_out {
				maps.push(KernelMemMap::ChunkedMut { data: Mem::<F, H>::to_owned_mut(x), log_min_chunk_size: *mins.last().unwrap() });
			}
			hal.execute(|e| {
				macro_rules! body {
					() => {
						|kx, log_chunks, mut bufs| {
							chunks.store(log_chunks, Ordering::SeqCst);
							if fail {
								return Err(Error::InputValidation("wanted".into()));
							}
							run_kernel(kx, &mut bufs, &prog, &compiled, &coeffs, &inits)
						}
					};
				}
				if accumulate {
					e.accumulate_kernels(body!(), maps)
				} else {
					e.map_kernels(
						|kx, log_chunks, mut bufs| {
							chunks.store(log_chunks, Ordering::SeqCst);
							if fail {
								return Err(Error::InputValidation("wanted".into()));
							}
							run_kernel(kx, &mut bufs, &prog, &compiled, &coeffs, &inits).map(|_| ())
						},
						maps,
					)?;
					Ok(vec![])
				}
			})
		})
	});
	b.dev.insert(o, d);
	if fail {
		ck!(got.is_err(), "the error of a kernel is lost ({})", if accumulate { "accumulate_kernels" } else { "map_kernels" });
		return Ok(());
	}
	let got = got.map_err(err("kernels"))?;
	let lc = chunks.load(Ordering::SeqCst);
	for ((l, _), (i, m)) in kinds.iter().zip(mins.iter().enumerate()) {
		let is_local = i >= ins.len() && i < ins.len() + locals.len();
		ck!(lc <= *l && (is_local || lc + (*m).min(*l) <= *l), "2^{lc} chunks of a buffer of 2^{l} with minimum 2^{m}");
	}
	// the model
	let mut sums = vec![F::ZERO; n_vals];
	let ext: Vec<Vec<F>> = ins.iter().map(|v| b.get(v)).collect();
	let mut out = b.get(&vo);
	for c in 0..1usize << lc {
		let cut = |v: &[F]| v[c * v.len() >> lc..(c + 1) * v.len() >> lc].to_vec();
		let mut bufs: Vec<Vec<F>> = ext.iter().map(|v| cut(v)).collect();
		bufs.extend(locals.iter().map(|l| vec![F::ZERO; 1 << (l - lc)]));
		if use_out {
			bufs.push(cut(&out));
		}
		for (v, i) in sums.iter_mut().zip(&inits) {
			*v += *i;
		}
		for (i, co) in prog.iter().zip(&coeffs) {
			match i {
				Ins::Add(x, y, d) => {
					let v: Vec<F> = bufs[x.buf][part(&bufs[x.buf], x.half)].iter().zip(&bufs[y.buf][part(&bufs[y.buf], y.half)]).map(|(a, b)| *a + *b).collect();
					let r = part(&bufs[d.buf], d.half);
					bufs[d.buf][r].copy_from_slice(&v);
				}
				Ins::AddAssign(x, d) => {
					let v = bufs[x.buf][part(&bufs[x.buf], x.half)].to_vec();
					let r = part(&bufs[d.buf], d.half);
					for (a, b) in bufs[d.buf][r].iter_mut().zip(v) {
						*a += b;
					}
				}
				Ins::Sum(xs, e, v) => {
					let cols: Vec<&[F]> = xs.iter().map(|x| &bufs[x.buf][part(&bufs[x.buf], x.half)]).collect();
					for i in 0..cols[0].len() {
						sums[*v] += ev(e, &cols.iter().map(|c| c[i]).collect::<Vec<_>>()) * *co;
					}
				}
			}
		}
		if use_out {
			let n = out.len() >> lc;
			out[c * n..(c + 1) * n].copy_from_slice(bufs.last().unwrap());
		}
	}
	b.set(&vo, &out);
	if accumulate {
		ck_eq!(got, sums, "values accumulated over 2^{lc} kernels: {}", log.last().unwrap());
	}
	s.label_if(lc > 0, "several kernels");
	Ok(())
}

fn run_kernel<F: Fd, K: KernelExecutor<F>>(
	kx: &mut K,
	bufs: &mut Vec<KernelBuffer<'_, F, K::Mem>>,
	prog: &[Ins],
	compiled: &[Option<K::ExprEval>],
	coeffs: &[F],
	inits: &[F],
) -> Result<Vec<K::Value>, Error> {
	let mut vals: Vec<K::Value> = inits.iter().map(|i| kx.decl_value(*i)).collect::<Result<_, _>>()?;
	for ((i, c), co) in prog.iter().zip(compiled).zip(coeffs) {
		match i {
			Ins::Add(..) | Ins::AddAssign(..) => {
				let (x, y, d) = match i {
					Ins::Add(x, y, d) => (*x, Some(*y), *d),
					Ins::AddAssign(x, d) => (*x, None, *d),
					_ => unreachable!(),
				};
				// take the destination out while the sources are read
				let mut dst = bufs.remove(d.buf);
				let sh = |o: Opd| Opd { buf: o.buf - (o.buf > d.buf) as usize, half: o.half };
				let KernelBuffer::Mut(m) = &mut dst else { panic!("a writable buffer is read-only") };
				let step: Vec<Step> = d.half.map(Step::Half).into_iter().collect();
				let r = with_mut::<F, K::Mem, _>(K::Mem::to_owned_mut(m), &step, &mut |mut w| {
					let w = &mut w;
					let l = w.len().trailing_zeros() as usize;
					let a = operand(bufs, sh(x));
					match y {
						Some(y) => kx.add(l, a, operand(bufs, sh(y)), w),
						None => kx.add_assign(l, a, w),
					}
				});
				bufs.insert(d.buf, dst);
				r?;
			}
			Ins::Sum(xs, _, v) => {
				let rows: Vec<_> = xs.iter().map(|x| operand(bufs, *x)).collect();
				let n = rows[0].len();
				kx.sum_composition_evals(&SlicesBatch::new(rows, n), c.as_ref().unwrap(), *co, &mut vals[*v])?;
			}
		}
	}
	Ok(vals)
}

type A128 = AESTowerField128b;
type B128 = BinaryField128b;
type Fast<P> = FastCpuLayer<CanonicalTowerFamily, P>;
type FastH<P> = FastCpuLayerHolder<CanonicalTowerFamily, P>;
type AFast<P> = FastCpuLayer<AESTowerFamily, P>;
type AFastH<P> = FastCpuLayerHolder<AESTowerFamily, P>;

fn memory(s: &mut Src) -> Res {
	// some buffers are long enough for the operations that split long inputs
	let big = s.chance(1, 40);
	s.label_if(big, "long buffers");
	let size = if big { 1 << 14 } else if s.thorough { 1 << 11 } else { 1 << 9 };
	let threads = s.index(4);
	s.label(format!("pool {threads}"));
	let kind = s.weighted(&[2, 2, 3, 3, 1, 1, 2]);
	pool(threads).install(|| match kind {
		0 => go::<B128, BinaryField32b, CpuLayer<B128>, _>(s, CpuLayerHolder::<B128>::new(0, size), size, false),
		1 => go::<B128, BinaryField32b, Fast<PackedBinaryField1x128b>, _>(s, FastH::<PackedBinaryField1x128b>::new(0, size), size, true),
		2 => go::<B128, BinaryField32b, Fast<PackedBinaryField2x128b>, _>(s, FastH::<PackedBinaryField2x128b>::new(0, size), size, true),
		3 => go::<B128, BinaryField32b, Fast<PackedBinaryField4x128b>, _>(s, FastH::<PackedBinaryField4x128b>::new(0, size), size, true),
		4 => go::<A128, AESTowerField32b, AFast<PackedAESBinaryField1x128b>, _>(s, AFastH::<PackedAESBinaryField1x128b>::new(0, size), size, true),
		5 => go::<A128, AESTowerField32b, AFast<PackedAESBinaryField4x128b>, _>(s, AFastH::<PackedAESBinaryField4x128b>::new(0, size), size, true),
		_ => go::<A128, AESTowerField32b, AFast<ByteSlicedAES16x128b>, _>(s, AFastH::<ByteSlicedAES16x128b>::new(0, size), size, true),
	})
}

/// The defects that were not repaired.
fn findings(s: &mut Src) -> Res {
	type M = binius_fast_compute::memory::PackedMemory<PackedBinaryField2x128b>;
	let (a, b, c) = (B128::draw(s), B128::draw(s), B128::draw(s));
	s.nontrivial_if(b != c);
	let hal = Fast::<PackedBinaryField2x128b>::default();
	let mut data = [PackedBinaryField2x128b::from_scalars([a, b])];
	{
		let (_, mut right) = <M as ComputeMemory<B128>>::split_half_mut(binius_fast_compute::memory::PackedMemorySliceMut::new_slice(&mut data));
		let mut again = <M as ComputeMemory<B128>>::to_owned_mut(&mut right);
		hal.fill(&mut again, c).map_err(err("fill"))?;
	}
	let got: Vec<B128> = data[0].iter().collect();
	if got == [a, b] && b != c {
		return finding("C22", "reborrow", "PackedMemory::to_owned_mut (and slice_mut, slice_power_of_two_mut, split_at_mut_borrowed) of a slice that starts inside a packed element loses what is written through the new slice; memory::tests::test_into_owned_mut pins the behaviour");
	}
	ck_eq!(got, vec![a, c], "a write through a borrowed half of a packed element");
	Ok(())
}

fn main() {
	run(Prop {
		id: "C22",
		rule: "at least one operation ran on the layer",
		assumptions: &["scalar field arithmetic (C06)", "the NTT's table of subspace evaluations (C09)"],
		subs: vec![Sub { name: "memory", quick: 400000, thorough: 8000000, threads: 0, f: memory }, Sub { name: "findings", quick: 20, thorough: 20, threads: 1, f: findings }],
	});
}
