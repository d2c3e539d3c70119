//! A small choice-sequence property-based testing engine.
//!
//! Every random decision a case makes is drawn from a [`Src`]. The engine records the sequence of
//! decisions, so that a failing case can be (a) replayed from the recorded sequence alone and (b)
//! shrunk by editing the sequence (dropping blocks, zeroing, lowering values) and re-running the
//! generator. No case looks at a clock, at an OS RNG or at anything but its `Src`.

use std::collections::BTreeSet;
use std::{
	cell::RefCell,
	collections::{BTreeMap, HashSet},
	fmt::Write as _,
	fs,
	panic::{self, AssertUnwindSafe},
	path::PathBuf,
	process,
	sync::{
		Mutex,
		atomic::{AtomicU64, Ordering},
	},
	thread,
	time::Instant,
};

/// SplitMix64; used both as the generator of fresh choices and to expand a drawn seed to bulk data.
#[derive(Clone, Debug)]
pub struct Mix(pub u64);

impl Mix {
	pub fn next(&mut self) -> u64 {
		self.0 = self.0.wrapping_add(0x9E37_79B9_7F4A_7C15);
		let mut z = self.0;
		z = (z ^ (z >> 30)).wrapping_mul(0xBF58_476D_1CE4_E5B9);
		z = (z ^ (z >> 27)).wrapping_mul(0x94D0_49BB_1331_11EB);
		z ^ (z >> 31)
	}
	pub fn below(&mut self, n: u64) -> u64 {
		if n == 0 { 0 } else { ((self.next() as u128 * n as u128) >> 64) as u64 }
	}
	pub fn u128(&mut self) -> u128 {
		(self.next() as u128) << 64 | self.next() as u128
	}
}

pub fn hash_u64(words: &[u64]) -> u64 {
	let mut m = Mix(0x1234_5678_9abc_def0);
	let mut acc = 0u64;
	for w in words {
		m.0 ^= *w;
		acc = m.next();
		m.0 = acc;
	}
	acc
}

fn hash_str(s: &str) -> u64 {
	s.bytes().fold(0xcbf2_9ce4_8422_2325, |h, b| (h ^ b as u64).wrapping_mul(0x100_0000_01b3))
}

/// The source of all randomness of one case.
pub struct Src {
	rng: Mix,
	replay: Option<Vec<u64>>,
	pos: usize,
	pub choices: Vec<u64>,
	nontrivial: bool,
	discarded: bool,
	labels: Vec<String>,
	desc: String,
	pub thorough: bool,
}

impl Src {
	fn fresh(seed: u64, thorough: bool) -> Self {
		Self {
			rng: Mix(seed),
			replay: None,
			pos: 0,
			choices: Vec::new(),
			nontrivial: false,
			discarded: false,
			labels: Vec::new(),
			desc: String::new(),
			thorough,
		}
	}
	fn replay(choices: Vec<u64>, thorough: bool) -> Self {
		let mut s = Self::fresh(0, thorough);
		s.replay = Some(choices);
		s
	}

	/// The primitive: a value in `0..=max`. Smaller is simpler.
	pub fn draw(&mut self, max: u64) -> u64 {
		let v = match &self.replay {
			Some(r) => {
				let v = r.get(self.pos).copied().unwrap_or(0);
				if max == u64::MAX { v } else if v > max { v % (max + 1) } else { v }
			}
			None => {
				if max == u64::MAX { self.rng.next() } else { self.rng.below(max + 1) }
			}
		};
		self.pos += 1;
		self.choices.push(v);
		v
	}
	/// Uniform in `lo..=hi`.
	pub fn range(&mut self, lo: usize, hi: usize) -> usize {
		assert!(lo <= hi, "bad range {lo}..={hi}");
		lo + self.draw((hi - lo) as u64) as usize
	}
	pub fn index(&mut self, n: usize) -> usize {
		self.range(0, n - 1)
	}
	pub fn bool(&mut self) -> bool {
		self.draw(1) == 1
	}
	/// True with probability `num/den`; false is the simpler value.
	pub fn chance(&mut self, num: u64, den: u64) -> bool {
		self.draw(den - 1) >= den - num
	}
	pub fn pick<'a, T>(&mut self, xs: &'a [T]) -> &'a T {
		let i = self.index(xs.len());
		&xs[i]
	}
	/// Index drawn with the given weights.
	pub fn weighted(&mut self, ws: &[u64]) -> usize {
		let total: u64 = ws.iter().sum();
		let mut v = self.draw(total - 1);
		for (i, w) in ws.iter().enumerate() {
			if v < *w {
				return i;
			}
			v -= *w;
		}
		unreachable!()
	}
	pub fn u64(&mut self) -> u64 {
		self.draw(u64::MAX)
	}
	/// A u64 biased to the special values that arithmetic code gets wrong.
	pub fn special_u64(&mut self) -> u64 {
		match self.weighted(&[2, 1, 1, 2, 2, 2, 6]) {
			0 => 0,
			1 => 1,
			2 => u64::MAX,
			3 => 1u64 << self.range(0, 63),
			4 => (1u64 << self.range(0, 63)).wrapping_sub(1),
			5 => self.u64() >> self.range(0, 63),
			_ => self.u64(),
		}
	}
	pub fn u128(&mut self) -> u128 {
		(self.u64() as u128) << 64 | self.u64() as u128
	}
	pub fn special_u128(&mut self) -> u128 {
		match self.weighted(&[2, 2, 1, 3, 2, 2, 8]) {
			0 => 0,
			1 => 1,
			2 => u128::MAX,
			3 => 1u128 << self.range(0, 127),
			4 => (1u128 << self.range(0, 127)).wrapping_sub(1),
			5 => {
				// low subfield value
				let k = self.range(0, 6);
				self.u128() & ((1u128 << (1u32 << k)) - 1)
			}
			_ => self.u128(),
		}
	}
	/// Expands one drawn seed to a bulk stream.
	pub fn stream(&mut self) -> Mix {
		Mix(self.u64())
	}
	/// A bulk data pattern: mostly dense random, sometimes sparse, constant, zero or small.
	pub fn bulk(&mut self) -> Bulk {
		let mode = self.weighted(&[1, 1, 2, 2, 1, 8]);
		let m = self.stream();
		Bulk { mode, m, i: 0 }
	}
	pub fn bytes(&mut self, n: usize) -> Vec<u8> {
		let mut b = self.bulk();
		(0..n).map(|_| b.u128() as u8).collect()
	}
	pub fn nontrivial(&mut self) {
		self.nontrivial = true;
	}
	pub fn nontrivial_if(&mut self, c: bool) {
		self.nontrivial |= c;
	}
	pub fn label(&mut self, l: impl Into<String>) {
		self.labels.push(l.into());
	}
	pub fn label_if(&mut self, c: bool, l: &str) {
		if c {
			self.labels.push(l.into());
		}
	}
	/// A human-readable rendering of the case for evidence samples and replay files.
	pub fn desc(&mut self, s: impl AsRef<str>) {
		if self.desc.len() < 4000 {
			if !self.desc.is_empty() {
				self.desc.push_str("; ");
			}
			self.desc.push_str(s.as_ref());
		}
	}
	/// Marks the case as outside the property's domain.
	pub fn discard(&mut self) {
		self.discarded = true;
	}
}

pub struct Bulk {
	mode: usize,
	m: Mix,
	i: u64,
}
impl Bulk {
	pub fn dense(seed: u64) -> Self {
		Bulk { mode: 5, m: Mix(seed), i: 0 }
	}
	pub fn u128(&mut self) -> u128 {
		self.i += 1;
		match self.mode {
			0 => 0,
			1 => 1,
			2 => {
				// sparse
				if self.m.below(8) == 0 { self.m.u128() } else { 0 }
			}
			3 => {
				// single bits / small values
				let k = self.m.below(128);
				if self.m.below(2) == 0 { 1u128 << k } else { self.m.next() as u128 & 0xff }
			}
			4 => u128::MAX,
			_ => self.m.u128(),
		}
	}
	pub fn u64(&mut self) -> u64 {
		self.u128() as u64
	}
	pub fn is_dense(&self) -> bool {
		self.mode == 5
	}
}

pub type Res = Result<(), String>;

/// One family of generated cases of a property.
pub struct Sub {
	pub name: &'static str,
	pub quick: u64,
	pub thorough: u64,
	/// Worker threads; 0 = all cores.
	pub threads: usize,
	pub f: fn(&mut Src) -> Res,
}

#[macro_export]
macro_rules! ck {
	($cond:expr, $($arg:tt)+) => {
		if !($cond) {
			return Err(format!($($arg)+));
		}
	};
}
#[macro_export]
macro_rules! ck_eq {
	($a:expr, $b:expr, $($arg:tt)+) => {{
		let a = $a;
		let b = $b;
		if a != b {
			return Err(format!("{}: got {:?}, expected {:?}", format!($($arg)+), a, b));
		}
	}};
}

thread_local! {
	static PANIC: RefCell<Option<String>> = const { RefCell::new(None) };
	static QUIET: RefCell<bool> = const { RefCell::new(false) };
}
static FOREIGN_PANIC: Mutex<Option<String>> = Mutex::new(None);

fn install_hook() {
	let default = panic::take_hook();
	panic::set_hook(Box::new(move |info| {
		let msg = if let Some(s) = info.payload().downcast_ref::<&str>() {
			s.to_string()
		} else if let Some(s) = info.payload().downcast_ref::<String>() {
			s.clone()
		} else {
			"<non-string panic>".into()
		};
		let loc = info.location().map(|l| format!("{}:{}", l.file(), l.line())).unwrap_or_default();
		let full = format!("panic at {loc}: {msg}");
		PANIC.with(|p| *p.borrow_mut() = Some(full.clone()));
		*FOREIGN_PANIC.lock().unwrap() = Some(full);
		if std::env::var_os("VP_VERBOSE").is_some() && !QUIET.with(|q| *q.borrow()) {
			default(info);
		}
	}));
}

/// Runs `f`, turning a panic into `Err(message)`.
pub fn no_panic<T>(f: impl FnOnce() -> T) -> Result<T, String> {
	QUIET.with(|q| *q.borrow_mut() = true);
	let r = panic::catch_unwind(AssertUnwindSafe(f));
	QUIET.with(|q| *q.borrow_mut() = false);
	match r {
		Ok(v) => Ok(v),
		Err(e) => {
			let msg = PANIC
				.with(|p| p.borrow_mut().take())
				.or_else(|| FOREIGN_PANIC.lock().unwrap().clone())
				.unwrap_or_else(|| {
					e.downcast_ref::<String>()
						.cloned()
						.or_else(|| e.downcast_ref::<&str>().map(|s| s.to_string()))
						.unwrap_or_else(|| "panic".into())
				});
			Err(msg)
		}
	}
}

struct Outcome {
	res: Res,
	src: Src,
}

fn exec(f: fn(&mut Src) -> Res, mut src: Src) -> Outcome {
	let r = panic::catch_unwind(AssertUnwindSafe(|| f(&mut src)));
	let res = match r {
		Ok(r) => {
			if src.discarded {
				Ok(())
			} else {
				r
			}
		}
		Err(e) => {
			let msg = PANIC
				.with(|p| p.borrow_mut().take())
				.or_else(|| FOREIGN_PANIC.lock().unwrap().clone())
				.unwrap_or_else(|| {
					e.downcast_ref::<String>()
						.cloned()
						.or_else(|| e.downcast_ref::<&str>().map(|s| s.to_string()))
						.unwrap_or_else(|| "panic".into())
				});
			Err(format!("unexpected {msg}"))
		}
	};
	Outcome { res, src }
}

fn shrink(sub: &Sub, thorough: bool, first: Outcome) -> Outcome {
	let start = Instant::now();
	let budget = std::time::Duration::from_secs(45);
	let mut best = first;
	// Only steps that keep the kind of failure are taken.
	fn class(r: &Res) -> String {
		match r {
			Ok(()) => String::new(),
			Err(e) => e.chars().filter(|c| !c.is_ascii_digit()).take(72).collect(),
		}
	}
	let kind = class(&best.res);
	let runs = std::cell::Cell::new(0u32);
	let attempt = |cand: Vec<u64>, best: &mut Outcome| -> bool {
		if runs.get() > 4000 || start.elapsed() > budget {
			return false;
		}
		runs.set(runs.get() + 1);
		let o = exec(sub.f, Src::replay(cand, thorough));
		if o.res.is_err()
			&& class(&o.res) == kind
			&& (o.src.choices.len() < best.src.choices.len()
				|| (o.src.choices.len() == best.src.choices.len()
					&& o.src.choices < best.src.choices))
		{
			*best = o;
			true
		} else {
			false
		}
	};
	loop {
		let mut progress = false;
		// delete blocks
		let mut size = (best.src.choices.len() / 2).max(1);
		loop {
			let mut i = 0;
			while i < best.src.choices.len() {
				let mut c = best.src.choices.clone();
				let end = (i + size).min(c.len());
				c.drain(i..end);
				if attempt(c, &mut best) {
					progress = true;
				} else {
					i += size;
				}
			}
			if size == 1 {
				break;
			}
			size /= 2;
		}
		// lower values
		let mut i = 0;
		while i < best.src.choices.len() {
			let v = best.src.choices[i];
			if v != 0 {
				let mut c = best.src.choices.clone();
				c[i] = 0;
				if attempt(c, &mut best) {
					progress = true;
				} else {
					let (mut lo, mut hi) = (0u64, v);
					while lo + 1 < hi && i < best.src.choices.len() && best.src.choices[i] == hi {
						let mid = lo + (hi - lo) / 2;
						let mut c = best.src.choices.clone();
						c[i] = mid;
						if attempt(c, &mut best) {
							progress = true;
							hi = mid;
						} else {
							lo = mid;
						}
					}
				}
			}
			i += 1;
		}
		if !progress || runs.get() > 4000 || start.elapsed() > budget {
			return best;
		}
	}
}

fn jesc(s: &str) -> String {
	let mut o = String::with_capacity(s.len() + 2);
	o.push('"');
	for c in s.chars() {
		match c {
			'"' => o.push_str("\\\""),
			'\\' => o.push_str("\\\\"),
			'\n' => o.push_str("\\n"),
			'\t' => o.push_str("\\t"),
			'\r' => o.push_str("\\r"),
			c if (c as u32) < 0x20 => {
				let _ = write!(o, "\\u{:04x}", c as u32);
			}
			c => o.push(c),
		}
	}
	o.push('"');
	o
}

#[derive(Default)]
struct Stats {
	evals: u64,
	discards: u64,
	nontrivial: HashSet<u64>,
	labels: BTreeMap<String, u64>,
	samples: Vec<(u64, String)>,
}

pub struct Prop {
	pub id: &'static str,
	pub rule: &'static str,
	pub assumptions: &'static [&'static str],
	pub subs: Vec<Sub>,
}

static FINDINGS: Mutex<BTreeSet<String>> = Mutex::new(BTreeSet::new());

/// A genuine defect that was not repaired reproduces: silent if KNOWN_FINDINGS.txt lists it (the run then
/// names it), a failure if not.
pub fn finding(property: &str, key: &str, what: &str) -> Res {
	let want = format!("finding: property={property} key={key} ");
	let listed = fs::read_to_string(verif_root().join("KNOWN_FINDINGS.txt"))
		.map(|t| t.lines().any(|l| l.starts_with(&want)))
		.unwrap_or(false);
	if !listed {
		return Err(format!("{key}: {what}"));
	}
	FINDINGS.lock().unwrap().insert(format!("KNOWN-FINDING: property={property} {key}: {what}"));
	Ok(())
}

/// Processor time of this process.
fn cpu_ms() -> u64 {
	let t = fs::read_to_string("/proc/self/stat").unwrap_or_default();
	let rest = t.rsplit(')').next().unwrap_or("");
	let f: Vec<u64> = rest.split_whitespace().skip(11).take(2).filter_map(|x| x.parse().ok()).collect();
	f.iter().sum::<u64>() * 10
}

fn verif_root() -> PathBuf {
	PathBuf::from(std::env::var("VERIF_ROOT").unwrap_or_else(|_| "/verif".into()))
}

fn write_replay(p: &Prop, sub: &Sub, o: &Outcome, seed: u64, case: u64) -> PathBuf {
	let dir = verif_root().join("replay");
	let _ = fs::create_dir_all(&dir);
	let path = dir.join(format!("{}-{}-{}-{}.json", p.id, sub.name, seed, case));
	let mut s = String::new();
	let _ = writeln!(s, "{{");
	let _ = writeln!(s, " \"property\": {},", jesc(p.id));
	let _ = writeln!(s, " \"sub\": {},", jesc(sub.name));
	let _ = writeln!(s, " \"thorough\": {},", o.src.thorough);
	let _ = writeln!(s, " \"message\": {},", jesc(o.res.as_ref().err().map(|s| s.as_str()).unwrap_or("crash")));
	let _ = writeln!(s, " \"case\": {},", jesc(&o.src.desc));
	let list = o.src.choices.iter().map(|c| c.to_string()).collect::<Vec<_>>().join(",");
	let _ = writeln!(s, " \"choices\": [{list}]");
	let _ = writeln!(s, "}}");
	let _ = fs::write(&path, s);
	path
}

fn parse_replay(text: &str) -> (String, bool, Vec<u64>) {
	let get = |key: &str| -> String {
		let k = format!("\"{key}\":");
		let i = text.find(&k).expect("replay key") + k.len();
		text[i..].trim_start().to_string()
	};
	let sub = get("sub");
	let sub = sub[1..].split('"').next().unwrap().to_string();
	let thorough = get("thorough").starts_with("true");
	let ch = get("choices");
	let ch = &ch[1..ch.find(']').unwrap()];
	let choices =
		ch.split(',').filter(|s| !s.trim().is_empty()).map(|s| s.trim().parse().unwrap()).collect();
	(sub, thorough, choices)
}

fn clip(s: &str) -> String {
	if s.len() <= 2500 {
		return s.to_string();
	}
	let mut k = 2500;
	while !s.is_char_boundary(k) {
		k -= 1;
	}
	format!("{}… ({} bytes)", &s[..k], s.len())
}

struct Done {
	n: AtomicU64,
	of: u64,
}

/// A case takes milliseconds to a few seconds; one that runs for this long is an error of the check.
const CASE_LIMIT_MS: u64 = 300_000;

fn watchdog(
	p: &Prop,
	sub: &Sub,
	slots: &[(AtomicU64, AtomicU64)],
	done: &Done,
	t0: Instant,
	thorough: bool,
) {
	let mut seen = vec![(0u64, 0u64); slots.len()];
	loop {
		for _ in 0..10 {
			if done.n.load(Ordering::Relaxed) == done.of {
				return;
			}
			thread::sleep(std::time::Duration::from_millis(20));
		}
		let now = t0.elapsed().as_millis() as u64;
		let cpu = cpu_ms();
		for (k, (case, since)) in slots.iter().enumerate() {
			let since = since.load(Ordering::Relaxed);
			if seen[k].0 != since {
				seen[k] = (since, cpu);
			}
			if since != 0 && now > since + CASE_LIMIT_MS * (1 + thorough as u64) {
				let i = case.load(Ordering::Relaxed);
				let dir = verif_root().join("replay");
				let _ = fs::create_dir_all(&dir);
				let path = dir.join(format!("{}-{}-hang-{}.json", p.id, sub.name, i));
				let _ = fs::write(
					&path,
					format!(
						"{{\"property\": {}, \"sub\": {}, \"case_number\": {i}, \"hang\": true, \"seed\": {}, \"tier\": {}}}\n",
						jesc(p.id),
						jesc(sub.name),
						jesc(&std::env::var("VERIF_SEED").unwrap_or("1".into())),
						jesc(if thorough { "thorough" } else { "quick" })
					),
				);
				// Minutes of computation where a case takes milliseconds: it does not end. Without the
				// computation, the machine may have been stalled.
				if cpu.saturating_sub(seen[k].1) > CASE_LIMIT_MS / 3 {
					println!("{}::{} case {i} does not end", p.id, sub.name);
					println!("VIOLATION property={} replay={}", p.id, path.display());
					process::exit(1);
				}
				eprintln!("{}::{} case {i} still running after the limit: inconclusive", p.id, sub.name);
				process::exit(2);
			}
		}
	}
}

/// Runs all the sub-checks of a property. Never returns.
///
/// Exit codes: 0 held, 1 violation, 2 harness error.
pub fn run(p: Prop) -> ! {
	install_hook();
	let args: Vec<String> = std::env::args().collect();
	if args.len() >= 4 && args[1] == "--case" {
		// one case by its number: used by the driver to name the case that ended the process
		let sub = p.subs.iter().find(|s| s.name == args[2]).expect("unknown sub-check");
		let seed: u64 =
			std::env::var("VERIF_SEED").ok().and_then(|s| s.trim().parse().ok()).unwrap_or(1);
		let thorough = std::env::var("VERIF_TIER").map(|t| t == "thorough").unwrap_or(false);
		let sub_seed = hash_u64(&[seed, hash_str(p.id), hash_str(sub.name)]);
		let o = exec(
			sub.f,
			Src::fresh(hash_u64(&[sub_seed, args[3].parse().expect("case number")]), thorough),
		);
		match o.res {
			Ok(()) => process::exit(0),
			Err(m) => {
				println!("{}::{} case {} fails: {}", p.id, sub.name, args[3], clip(&m));
				process::exit(1)
			}
		}
	}
	if args.len() >= 3 && args[1] == "--replay" {
		let text = fs::read_to_string(&args[2]).expect("replay file");
		let (name, thorough, choices) = parse_replay(&text);
		let sub = p.subs.iter().find(|s| s.name == name).expect("unknown sub-check");
		let o = exec(sub.f, Src::replay(choices, thorough));
		match o.res {
			Ok(()) => {
				println!("replay: {}::{} holds; case: {}", p.id, name, o.src.desc);
				process::exit(0)
			}
			Err(m) => {
				println!("replay: {}::{} fails: {}\ncase: {}", p.id, name, clip(&m), o.src.desc);
				println!("VIOLATION property={} replay={}", p.id, args[2]);
				process::exit(1)
			}
		}
	}
	let seed: u64 =
		std::env::var("VERIF_SEED").ok().and_then(|s| s.trim().parse().ok()).unwrap_or(1);
	let thorough = std::env::var("VERIF_TIER").map(|t| t == "thorough").unwrap_or(false);
	let only = std::env::var("VP_ONLY").ok();
	let scale: f64 = std::env::var("VP_SCALE").ok().and_then(|s| s.parse().ok()).unwrap_or(1.0);
	// Crash isolation: the driver re-runs with VP_TRACE=<file> after a fatal signal; the case being
	// executed is then on record.
	let trace = std::env::var("VP_TRACE").ok();
	let start = Instant::now();
	let cores = thread::available_parallelism().map(|n| n.get()).unwrap_or(4).min(8);
	let mut per_sub = Vec::new();
	let mut violations = Vec::new();
	for sub in &p.subs {
		if let Some(o) = &only
			&& o != sub.name
		{
			continue;
		}
		let n = if thorough { sub.thorough } else { sub.quick };
		let n = ((n as f64 * scale) as u64).max(1);
		let sub_seed = hash_u64(&[seed, hash_str(p.id), hash_str(sub.name)]);
		let next = AtomicU64::new(0);
		let min_fail = AtomicU64::new(u64::MAX);
		let fails: Mutex<Vec<(u64, Outcome)>> = Mutex::new(Vec::new());
		let stats = Mutex::new(Stats::default());
		if let Ok(f) = std::env::var("VP_SUBFILE") {
			let _ = fs::write(f, sub.name);
		}
		let nthreads = if sub.threads == 0 {
			cores
		} else {
			sub.threads
		};
		let t0 = Instant::now();
		let slots: Vec<(AtomicU64, AtomicU64)> =
			(0..nthreads).map(|_| (AtomicU64::new(0), AtomicU64::new(0))).collect();
		let done = Done { n: AtomicU64::new(0), of: nthreads as u64 };
		thread::scope(|sc| {
			let (next, min_fail, fails, stats, slots, trace, p) =
				(&next, &min_fail, &fails, &stats, &slots, &trace, &p);
			let done = &done;
			sc.spawn(move || watchdog(p, sub, slots, done, t0, thorough));
			for tid in 0..nthreads {
				thread::Builder::new()
					.stack_size(64 << 20)
					.spawn_scoped(sc, move || {
						let mut st = Stats::default();
						loop {
							let i = next.fetch_add(1, Ordering::Relaxed);
							if i >= n || i > min_fail.load(Ordering::Relaxed) {
								break;
							}
							let case_seed = hash_u64(&[sub_seed, i]);
							if let Some(t) = trace {
								let _ = fs::write(format!("{t}.{tid}"), i.to_string());
							}
							slots[tid].0.store(i, Ordering::Relaxed);
							slots[tid].1.store(t0.elapsed().as_millis() as u64 + 1, Ordering::Relaxed);
							let o = exec(sub.f, Src::fresh(case_seed, thorough));
							st.evals += 1;
							if o.res.is_err() {
								min_fail.fetch_min(i, Ordering::Relaxed);
								fails.lock().unwrap().push((i, o));
								continue;
							}
							if o.src.discarded {
								st.discards += 1;
								continue;
							}
							for l in &o.src.labels {
								*st.labels.entry(l.clone()).or_default() += 1;
							}
							if o.src.nontrivial {
								st.nontrivial.insert(hash_u64(&o.src.choices));
							}
							if st.samples.len() < 2 && o.src.nontrivial && !o.src.desc.is_empty() {
								st.samples.push((i, o.src.desc));
							}
						}
						slots[tid].1.store(0, Ordering::Relaxed);
						done.n.fetch_add(1, Ordering::Relaxed);
						let mut g = stats.lock().unwrap();
						g.evals += st.evals;
						g.discards += st.discards;
						g.nontrivial.extend(st.nontrivial);
						for (k, v) in st.labels {
							*g.labels.entry(k).or_default() += v;
						}
						g.samples.extend(st.samples);
					})
					.expect("spawn worker");
			}
		});
		let mut st = stats.into_inner().unwrap();
		st.samples.sort();
		st.samples.truncate(3);
		let mut fl = fails.into_inner().unwrap();
		fl.sort_by_key(|(i, _)| *i);
		eprintln!(
			"[{}] {}: {} cases, {} nontrivial, {} discarded, {:.1}s{}",
			p.id,
			sub.name,
			st.evals,
			st.nontrivial.len(),
			st.discards,
			t0.elapsed().as_secs_f64(),
			if fl.is_empty() { "" } else { "  FAILED" }
		);
		if let Some((i, o)) = fl.into_iter().next() {
			let orig = o.res.clone().unwrap_err();
			let small = shrink(sub, thorough, o);
			let path = write_replay(&p, sub, &small, seed, i);
			let msg = small.res.clone().unwrap_err();
			println!("{}::{} case {} failed: {}", p.id, sub.name, i, clip(&msg));
			if msg != orig {
				println!("  before shrinking: {}", clip(&orig));
			}
			println!("  minimal case: {}", clip(&small.src.desc));
			println!("VIOLATION property={} replay={}", p.id, path.display());
			violations.push(path);
		}
		per_sub.push((sub.name, st, t0.elapsed().as_secs_f64()));
		if !violations.is_empty() {
			break;
		}
	}
	for f in FINDINGS.lock().unwrap().iter() {
		println!("{f}");
	}
	// evidence
	let evals: u64 = per_sub.iter().map(|s| s.1.evals).sum();
	let nt: usize = per_sub.iter().map(|s| s.1.nontrivial.len()).sum();
	let mut j = String::new();
	let _ = writeln!(j, "{{");
	let _ = writeln!(j, " \"property\": {},", jesc(p.id));
	let _ = writeln!(j, " \"tier\": \"{}\",", if thorough { "thorough" } else { "quick" });
	let _ = writeln!(j, " \"seed\": {seed},");
	let _ = writeln!(j, " \"level\": \"exploration\",");
	let _ = writeln!(j, " \"coverage\": {{");
	let _ = writeln!(j, "  \"evaluations\": {evals},");
	let _ = writeln!(j, "  \"distinct_nontrivial\": {nt},");
	let _ = writeln!(j, "  \"rule\": {},", jesc(p.rule));
	let mut samples = Vec::new();
	for (name, st, _) in &per_sub {
		for (i, s) in &st.samples {
			let mut s = s.clone();
			if s.len() > 600 {
				let mut k = 600;
				while !s.is_char_boundary(k) {
					k -= 1;
				}
				s.truncate(k);
				s.push('…');
			}
			samples.push(format!(
				"   {{\"sub\": {}, \"case\": {}, \"input\": {}}}",
				jesc(name),
				i,
				jesc(&s)
			));
		}
	}
	let _ = writeln!(j, "  \"samples\": [\n{}\n  ],", samples.join(",\n"));
	let subs = per_sub
		.iter()
		.map(|(name, st, secs)| {
			let labels = st
				.labels
				.iter()
				.map(|(k, v)| format!("{}: {}", jesc(k), v))
				.collect::<Vec<_>>()
				.join(", ");
			format!(
				"   {}: {{\"evaluations\": {}, \"distinct_nontrivial\": {}, \"discarded\": {}, \"seconds\": {:.2}, \"classes\": {{{}}}}}",
				jesc(name),
				st.evals,
				st.nontrivial.len(),
				st.discards,
				secs,
				labels
			)
		})
		.collect::<Vec<_>>()
		.join(",\n");
	let _ = writeln!(j, "  \"sub_checks\": {{\n{subs}\n  }}");
	let _ = writeln!(j, " }},");
	let asm = p.assumptions.iter().map(|a| jesc(a)).collect::<Vec<_>>().join(", ");
	let _ = writeln!(j, " \"assumptions\": [{asm}],");
	let _ = writeln!(j, " \"wall_s\": {:.2},", start.elapsed().as_secs_f64());
	let _ = writeln!(j, " \"violations\": {}", violations.len());
	let _ = writeln!(j, "}}");
	if only.is_none() || std::env::var_os("VP_EVIDENCE").is_some() {
		let dir = verif_root().join("evidence");
		let _ = fs::create_dir_all(&dir);
		if let Err(e) = fs::write(dir.join(format!("{}.json", p.id)), j) {
			eprintln!("cannot write evidence: {e}");
			process::exit(2);
		}
	}
	process::exit(if violations.is_empty() { 0 } else { 1 })
}
