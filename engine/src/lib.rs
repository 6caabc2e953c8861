//! Small property-based-testing engine: every random decision of a case is one entry of a choice
//! tape, so that a case can be replayed and shrunk without looking at the property.
//!
//! A property has several aspects (one oracle each).  An aspect runs a fixed number of cases per
//! tier; a case is a pure function of (VERIF_SEED, property, aspect, case index) and the code.

use std::cell::{Cell, RefCell};
use std::collections::{BTreeMap, HashSet};
use std::io::Write;
use std::panic::{catch_unwind, AssertUnwindSafe};
use std::sync::atomic::{AtomicBool, AtomicU64, AtomicUsize, Ordering};
use std::sync::{Arc, Mutex};
use std::time::{Duration, Instant};

pub mod dict;
pub mod json;

/// Result of one case.
pub type R = Result<(), String>;

#[macro_export]
macro_rules! check {
	($c:expr, $($t:tt)*) => { if !($c) { return Err(format!($($t)*)); } };
}
#[macro_export]
macro_rules! check_eq {
	($a:expr, $b:expr, $($t:tt)*) => {{
		let (a, b) = (&$a, &$b);
		if a != b { return Err(format!("{}: got {:?}, expected {:?}", format!($($t)*), a, b)); }
	}};
}

/// Message prefix of panics raised by the stand-in libraries for something they do not support:
/// never a property violation, always an error exit.
pub const UNSUPPORTED: &str = "UNSUPPORTED-BY-STAND-IN";

#[derive(Clone)]
struct Rng(u64);
impl Rng {
	fn next(&mut self) -> u64 {
		self.0 = self.0.wrapping_add(0x9E3779B97F4A7C15);
		let mut z = self.0;
		z = (z ^ (z >> 30)).wrapping_mul(0xBF58476D1CE4E5B9);
		z = (z ^ (z >> 27)).wrapping_mul(0x94D049BB133111EB);
		z ^ (z >> 31)
	}
	fn below(&mut self, n: u64) -> u64 {
		if n == 0 {
			self.next()
		} else {
			((self.next() as u128 * n as u128) >> 64) as u64
		}
	}
}

fn mix(h: u64, v: u64) -> u64 {
	let mut r = Rng(h ^ v.wrapping_mul(0xD6E8FEB86659FD93));
	r.next()
}
fn hash_str(s: &str) -> u64 {
	s.bytes().fold(0xcbf29ce484222325, |h, b| (h ^ b as u64).wrapping_mul(0x100000001b3))
}

/// Source of all decisions of one case.
pub struct Gen {
	tape: Vec<u64>,
	pos: usize,
	forced: usize,
	rng: Option<Rng>,
	spans: Vec<(usize, usize)>,
	open: Vec<usize>,
	labels: Vec<&'static str>,
	nontrivial: bool,
	excluded: u64,
	record: bool,
	notes: Vec<String>,
	thorough: bool,
}

impl Gen {
	fn fresh(seed: u64, forced: Vec<u64>, thorough: bool) -> Gen {
		let n = forced.len();
		Gen { tape: forced, pos: 0, forced: n, rng: Some(Rng(seed)), spans: vec![], open: vec![], labels: vec![], nontrivial: false, excluded: 0, record: false, notes: vec![], thorough }
	}
	fn replay(tape: Vec<u64>, record: bool, thorough: bool) -> Gen {
		let n = tape.len();
		Gen { tape, pos: 0, forced: n, rng: None, spans: vec![], open: vec![], labels: vec![], nontrivial: false, excluded: 0, record, notes: vec![], thorough }
	}
	/// True in the thorough tier (for size parameters).
	pub fn thorough(&self) -> bool {
		self.thorough
	}
	fn choice(&mut self, bound: u64, f: impl FnOnce(&mut Rng) -> u64) -> u64 {
		let v = if self.pos < self.forced {
			let v = self.tape[self.pos];
			if bound != 0 && v >= bound {
				v % bound
			} else {
				v
			}
		} else if let Some(rng) = self.rng.as_mut() {
			f(rng)
		} else {
			0
		};
		if self.pos < self.tape.len() {
			self.tape[self.pos] = v;
		} else {
			self.tape.push(v);
		}
		self.pos += 1;
		v
	}
	/// Uniform value below `bound` (any 64-bit value when `bound` is 0).
	pub fn below(&mut self, bound: u64) -> u64 {
		self.choice(bound, |r| r.below(bound))
	}
	pub fn bool(&mut self) -> bool {
		self.below(2) == 1
	}
	/// True with probability num/den (shrinks towards false).
	pub fn chance(&mut self, num: u64, den: u64) -> bool {
		self.choice(2, |r| (r.below(den) < num) as u64) == 1
	}
	/// Value in lo..=hi, biased to the ends, to small distances and to powers of two.
	pub fn int(&mut self, lo: u64, hi: u64) -> u64 {
		assert!(lo <= hi);
		let span = hi - lo;
		let bound = span.wrapping_add(1);
		let off = self.choice(bound, |r| match r.below(11) {
			10 => match dict::get() {
				Some(d) => {
					let a = d.ints.partition_point(|x| *x < lo);
					let b = d.ints.partition_point(|x| *x <= hi);
					if a < b {
						let v = d.ints[a + r.below((b - a) as u64) as usize];
						match r.below(4) {
							0 => v.saturating_add(1).min(hi) - lo,
							1 => v.saturating_sub(1).max(lo) - lo,
							_ => v - lo,
						}
					} else {
						r.below(bound)
					}
				},
				None => r.below(bound),
			},
			0 => 0,
			1 => span,
			2 => r.below(4).min(span),
			3 => span - r.below(4).min(span),
			4 | 5 => {
				let bits = 64 - span.leading_zeros() as u64;
				let p = if bits == 0 { 0 } else { 1u64 << r.below(bits) };
				let d = r.below(3);
				p.wrapping_add(d).wrapping_sub(1).min(span)
			},
			6 => {
				let bits = 64 - span.leading_zeros() as u64;
				let b = r.below(bits + 1);
				(if b == 64 { r.next() } else { r.below(1u64 << b) }).min(span)
			},
			_ => r.below(bound),
		});
		lo + off
	}
	/// Uniform in lo..=hi.
	pub fn uint(&mut self, lo: u64, hi: u64) -> u64 {
		lo + self.below((hi - lo).wrapping_add(1))
	}
	pub fn int_u128(&mut self, hi: u128) -> u128 {
		match self.below(6) {
			0 => self.int(0, hi.min(u64::MAX as u128) as u64) as u128,
			1 => hi - (self.int(0, 1000) as u128).min(hi),
			2 => (1u128 << self.below(128)).min(hi),
			_ => {
				let v = ((self.below(0) as u128) << 64) | self.below(0) as u128;
				let sh = self.below(128) as u32;
				let v = v >> sh;
				if hi == u128::MAX { v } else { v % (hi + 1) }
			},
		}
	}
	pub fn usize(&mut self, lo: usize, hi: usize) -> usize {
		self.uint(lo as u64, hi as u64) as usize
	}
	pub fn pick<'a, T>(&mut self, xs: &'a [T]) -> &'a T {
		let i = self.below(xs.len() as u64) as usize;
		&xs[i]
	}
	/// Index drawn with the given weights (shrinks towards the first).
	pub fn weighted(&mut self, ws: &[u64]) -> usize {
		let total: u64 = ws.iter().sum();
		let v = self.choice(ws.len() as u64, |r| {
			let mut x = r.below(total);
			for (i, w) in ws.iter().enumerate() {
				if x < *w {
					return i as u64;
				}
				x -= *w;
			}
			0
		}) as usize;
		// a replayed tape may name an alternative that is not available here
		if ws[v] == 0 {
			ws.iter().position(|w| *w != 0).unwrap_or(0)
		} else {
			v
		}
	}
	/// A text literal of the code under test.
	pub fn dict_str(&mut self) -> String {
		match dict::get() {
			Some(d) if !d.strs.is_empty() => self.pick(&d.strs).clone(),
			_ => String::new(),
		}
	}
	pub fn byte(&mut self) -> u8 {
		self.int(0, 255) as u8
	}
	pub fn bytes(&mut self, lo: usize, hi: usize) -> Vec<u8> {
		let n = self.usize(lo, hi);
		(0..n).map(|_| self.byte()).collect()
	}
	/// A list: each element is its own span, so that shrinking removes whole elements.
	pub fn list<T>(&mut self, max: usize, mean: usize, mut f: impl FnMut(&mut Gen) -> T) -> Vec<T> {
		let mut out = Vec::new();
		while out.len() < max {
			self.begin();
			let go = self.chance(mean as u64, mean as u64 + 1);
			if !go {
				self.end();
				break;
			}
			out.push(f(self));
			self.end();
		}
		out
	}
	/// Starts a region that shrinking may delete as a whole.
	pub fn begin(&mut self) {
		self.open.push(self.pos);
	}
	pub fn end(&mut self) {
		if let Some(s) = self.open.pop() {
			if self.pos > s {
				self.spans.push((s, self.pos));
			}
		}
	}
	/// Runs up to `max` steps of a history; a step is a deletable span.
	pub fn steps(&mut self, max: usize, mut f: impl FnMut(&mut Gen, usize) -> R) -> R {
		// The number of steps is fixed by per-step continue choices, so that deleting a step's
		// span shortens the history by one.
		let target = {
			let m = max as u64;
			self.rng.as_mut().map(|r| if r.below(8) == 0 { r.below(4) + 1 } else { m / 4 + r.below(m - m / 4 + 1) }).unwrap_or(m)
		};
		let mut n = 0u64;
		loop {
			if n as usize >= max {
				break;
			}
			self.begin();
			let go = self.choice(2, |_| (n < target) as u64);
			if go == 0 {
				self.end();
				break;
			}
			let r = f(self, n as usize);
			self.end();
			r?;
			n += 1;
		}
		Ok(())
	}
	/// Marks the case as non-trivial by the property's stated rule.
	pub fn nontrivial(&mut self) {
		self.nontrivial = true;
	}
	pub fn label(&mut self, l: &'static str) {
		self.labels.push(l);
	}
	pub fn label_if(&mut self, c: bool, l: &'static str) {
		if c {
			self.labels.push(l);
		}
	}
	/// Counts an input left out because it belongs to a recorded finding.
	pub fn exclude(&mut self) {
		self.excluded += 1;
	}
	/// Readable description of the case (only evaluated when it is being recorded).
	pub fn note(&mut self, f: impl FnOnce() -> String) {
		if self.record && self.notes.len() < 400 {
			let s = f();
			self.notes.push(s);
		}
	}
	pub fn recording(&self) -> bool {
		self.record
	}
}

pub struct Aspect {
	pub name: &'static str,
	pub quick: u64,
	pub thorough: u64,
	/// When set, the first choice of case `i` is `i` itself (systematic enumeration).
	pub enumerated: bool,
	pub run: fn(&mut Gen) -> R,
}

/// A recorded defect: `probe` returns Some(description) while it still fails.
pub struct Known {
	pub signature: &'static str,
	pub probe: fn() -> Option<String>,
}

pub struct Property {
	pub id: &'static str,
	pub rule: &'static str,
	pub aspects: Vec<Aspect>,
	pub known: Vec<Known>,
}

pub fn aspect(name: &'static str, quick: u64, thorough: u64, run: fn(&mut Gen) -> R) -> Aspect {
	Aspect { name, quick, thorough, enumerated: false, run }
}
pub fn enumerated(name: &'static str, n: u64, run: fn(&mut Gen) -> R) -> Aspect {
	Aspect { name, quick: n, thorough: n, enumerated: true, run }
}

thread_local! {
	static QUIET: Cell<bool> = const { Cell::new(false) };
	static LAST_PANIC: RefCell<String> = const { RefCell::new(String::new()) };
}

fn install_hook() {
	let old = std::panic::take_hook();
	std::panic::set_hook(Box::new(move |info| {
		if QUIET.with(|q| q.get()) {
			let msg = info
				.payload()
				.downcast_ref::<&str>()
				.map(|s| s.to_string())
				.or_else(|| info.payload().downcast_ref::<String>().cloned())
				.unwrap_or_else(|| "panic".into());
			let loc = info.location().map(|l| format!("{}:{}", l.file(), l.line())).unwrap_or_default();
			LAST_PANIC.with(|p| *p.borrow_mut() = format!("panicked at {loc}: {msg}"));
		} else {
			old(info);
		}
	}));
}

/// Runs `f`, turning a panic into an error text.
pub fn guarded<T>(f: impl FnOnce() -> T) -> Result<T, String> {
	let before = QUIET.with(|q| q.replace(true));
	let r = catch_unwind(AssertUnwindSafe(f));
	QUIET.with(|q| q.set(before));
	match r {
		Ok(v) => Ok(v),
		Err(_) => {
			let m = LAST_PANIC.with(|p| p.borrow().clone());
			if m.contains(UNSUPPORTED) {
				eprintln!("ERROR: {m}");
				std::process::exit(3);
			}
			Err(m)
		},
	}
}

fn run_case(f: fn(&mut Gen) -> R, g: &mut Gen) -> R {
	match guarded(|| f(g)) {
		Ok(r) => r,
		Err(m) => Err(m),
	}
}

struct Shared {
	next: AtomicU64,
	fail_at: AtomicU64,
	nontrivial: AtomicU64,
	evals: AtomicU64,
	excluded: AtomicU64,
}

struct AspectReport {
	name: &'static str,
	evals: u64,
	distinct: u64,
	labels: BTreeMap<&'static str, u64>,
	samples: Vec<Vec<String>>,
	excluded: u64,
	failure: Option<(u64, Vec<u64>, String)>,
	wall: f64,
}

fn case_seed(seed: u64, prop: &str, asp: &str, idx: u64) -> u64 {
	mix(mix(mix(mix(0x5eed, seed), hash_str(prop)), hash_str(asp)), idx)
}

fn tape_hash(t: &[u64]) -> u64 {
	t.iter().fold(0x1234567, |h, v| mix(h, *v))
}

fn run_aspect(prop: &Property, a: &Aspect, seed: u64, thorough: bool, threads: usize) -> AspectReport {
	let t0 = Instant::now();
	let n = if thorough { a.thorough } else { a.quick };
	let sh = Arc::new(Shared {
		next: AtomicU64::new(0),
		fail_at: AtomicU64::new(u64::MAX),
		nontrivial: AtomicU64::new(0),
		evals: AtomicU64::new(0),
		excluded: AtomicU64::new(0),
	});
	let failure: Arc<Mutex<Option<(u64, Vec<u64>, String)>>> = Arc::new(Mutex::new(None));
	let labels: Arc<Mutex<BTreeMap<&'static str, u64>>> = Arc::new(Mutex::new(BTreeMap::new()));
	let seen: Arc<Mutex<HashSet<u64>>> = Arc::new(Mutex::new(HashSet::new()));
	let sample_idx: Arc<Mutex<Vec<(u64, usize, Vec<u64>)>>> = Arc::new(Mutex::new(vec![]));
	let run = a.run;
	let enumd = a.enumerated;
	let chunk = (n / (threads as u64 * 16)).clamp(1, 256);
	let mut hs = vec![];
	for w in 0..threads {
		let (sh, failure, labels, seen, sample_idx) =
			(sh.clone(), failure.clone(), labels.clone(), seen.clone(), sample_idx.clone());
		let (pid, aname) = (prop.id, a.name);
		hs.push(
			std::thread::Builder::new()
				.stack_size(64 << 20)
				.spawn(move || {
					let mut local: BTreeMap<&'static str, u64> = BTreeMap::new();
					let mut lseen: HashSet<u64> = HashSet::new();
					let mut lsamples: Vec<(u64, usize, Vec<u64>)> = vec![];
					let (mut ev, mut ex, mut nt) = (0u64, 0u64, 0u64);
					loop {
						let s = sh.next.fetch_add(chunk, Ordering::SeqCst);
						if s >= n || s > sh.fail_at.load(Ordering::SeqCst) {
							break;
						}
						for i in s..(s + chunk).min(n) {
							if i > sh.fail_at.load(Ordering::SeqCst) {
								break;
							}
							BEATS[w].store(now_ms(), Ordering::SeqCst);
							let mut g = Gen::fresh(
								case_seed(seed, pid, aname, i),
								if enumd { vec![i] } else { vec![] },
								thorough,
							);
							let r = run_case(run, &mut g);
							BEATS[w].store(0, Ordering::SeqCst);
							ev += 1;
							ex += g.excluded;
							for l in &g.labels {
								*local.entry(l).or_insert(0) += 1;
							}
							if g.nontrivial {
								nt += 1;
								lseen.insert(tape_hash(&g.tape));
								// three small cases (by tape length) per thread as sample candidates
								lsamples.push((i, g.tape.len(), vec![]));
								if lsamples.len() > 64 {
									lsamples.sort();
									lsamples.truncate(8);
								}
							}
							if let Err(m) = r {
								sh.fail_at.fetch_min(i, Ordering::SeqCst);
								let mut f = failure.lock().unwrap();
								if f.as_ref().map_or(true, |x| i < x.0) {
									*f = Some((i, g.tape.clone(), m));
								}
							}
						}
					}
					sh.evals.fetch_add(ev, Ordering::SeqCst);
					sh.excluded.fetch_add(ex, Ordering::SeqCst);
					sh.nontrivial.fetch_add(nt, Ordering::SeqCst);
					let mut l = labels.lock().unwrap();
					for (k, v) in local {
						*l.entry(k).or_insert(0) += v;
					}
					seen.lock().unwrap().extend(lseen);
					lsamples.sort();
					lsamples.truncate(4);
					sample_idx.lock().unwrap().extend(lsamples);
				})
				.expect("thread"),
		);
	}
	for h in hs {
		if h.join().is_err() {
			eprintln!("ERROR: worker thread died outside a case");
			std::process::exit(3);
		}
	}
	let mut idx = std::mem::take(&mut *sample_idx.lock().unwrap());
	idx.sort();
	idx.truncate(3);
	let mut samples = vec![];
	let failure = failure.lock().unwrap().take();
	for (i, _, _) in idx {
		let mut g = Gen::fresh(case_seed(seed, prop.id, a.name, i), if enumd { vec![i] } else { vec![] }, thorough);
		g.record = true;
		let _ = on_big_stack(move || {
			let _ = run_case(run, &mut g);
			g.notes
		})
		.map(|mut v| {
			if v.len() > 40 {
				let more = v.len() - 40;
				v.truncate(40);
				v.push(format!("... {more} more"));
			}
			samples.push(v)
		});
	}
	let distinct = seen.lock().unwrap().len() as u64;
	let labels = labels.lock().unwrap().clone();
	AspectReport {
		name: a.name,
		evals: sh.evals.load(Ordering::SeqCst),
		distinct,
		labels,
		samples,
		excluded: sh.excluded.load(Ordering::SeqCst),
		failure,
		wall: t0.elapsed().as_secs_f64(),
	}
}

fn on_big_stack<T: Send + 'static>(f: impl FnOnce() -> T + Send + 'static) -> Option<T> {
	std::thread::Builder::new().stack_size(64 << 20).spawn(f).ok()?.join().ok()
}

/// Shrinks a failing tape; returns the smallest failing tape found and its message.
fn shrink(run: fn(&mut Gen) -> R, tape: Vec<u64>, msg: String, thorough: bool, budget: Duration) -> (Vec<u64>, String) {
	let t0 = Instant::now();
	let attempt = |t: &[u64]| -> Option<(Vec<u64>, Vec<(usize, usize)>, String)> {
		let mut g = Gen::replay(t.to_vec(), false, thorough);
		match run_case(run, &mut g) {
			Ok(()) => None,
			Err(m) => {
				g.tape.truncate(g.pos);
				Some((g.tape, g.spans, m))
			},
		}
	};
	let Some((mut best, mut spans, mut m)) = attempt(&tape) else { return (tape, msg) };
	let better = |a: &[u64], b: &[u64]| a.len() < b.len() || (a.len() == b.len() && a < b);
	let mut tries = 0u32;
	let mut progress = true;
	'outer: while progress {
		progress = false;
		// 1. delete spans, the largest first
		let mut again = true;
		while again {
			again = false;
			let mut sp = spans.clone();
			sp.sort_by_key(|(s, e)| std::cmp::Reverse(e - s));
			for (s, e) in sp {
				if t0.elapsed() > budget || tries > 20_000 {
					break 'outer;
				}
				if e > best.len() {
					continue;
				}
				let mut c = best.clone();
				c.drain(s..e);
				tries += 1;
				if let Some((t, sp2, mm)) = attempt(&c) {
					if better(&t, &best) {
						best = t;
						spans = sp2;
						m = mm;
						again = true;
						progress = true;
						break;
					}
				}
			}
		}
		// 2. delete chunks
		let mut size = 8usize;
		while size >= 1 {
			let mut i = 0;
			while i + size <= best.len() {
				if t0.elapsed() > budget || tries > 20_000 {
					break 'outer;
				}
				let mut c = best.clone();
				c.drain(i..i + size);
				tries += 1;
				match attempt(&c) {
					Some((t, sp2, mm)) if better(&t, &best) => {
						best = t;
						spans = sp2;
						m = mm;
						progress = true;
					},
					_ => i += 1,
				}
			}
			size /= 2;
		}
		// 3. lower values
		for i in 0..best.len() {
			if i >= best.len() || best[i] == 0 {
				continue;
			}
			let orig = best[i];
			let mut lo = 0u64;
			let mut hi = orig;
			let mut c = best.clone();
			c[i] = 0;
			tries += 1;
			if let Some((t, sp2, mm)) = attempt(&c) {
				if better(&t, &best) {
					best = t;
					spans = sp2;
					m = mm;
					progress = true;
					continue;
				}
			}
			let mut k = 0;
			while lo + 1 < hi && k < 24 {
				if t0.elapsed() > budget || tries > 20_000 {
					break 'outer;
				}
				k += 1;
				let mid = lo + (hi - lo) / 2;
				let mut c = best.clone();
				if i >= c.len() {
					break;
				}
				c[i] = mid;
				tries += 1;
				match attempt(&c) {
					Some((t, sp2, mm)) if better(&t, &best) => {
						hi = mid;
						best = t;
						spans = sp2;
						m = mm;
						progress = true;
					},
					_ => lo = mid,
				}
			}
		}
	}
	(best, m)
}

#[allow(clippy::declare_interior_mutable_const)]
const ZERO: AtomicU64 = AtomicU64::new(0);
static BEATS: [AtomicU64; 64] = [ZERO; 64];
static DONE: AtomicBool = AtomicBool::new(false);
static START: AtomicUsize = AtomicUsize::new(0);
fn now_ms() -> u64 {
	use std::time::{SystemTime, UNIX_EPOCH};
	SystemTime::now().duration_since(UNIX_EPOCH).map(|d| d.as_millis() as u64).unwrap_or(1)
}
fn watchdog(total_s: u64, case_s: u64) {
	START.store(1, Ordering::SeqCst);
	let t0 = Instant::now();
	std::thread::spawn(move || loop {
		std::thread::sleep(Duration::from_millis(500));
		if DONE.load(Ordering::SeqCst) {
			return;
		}
		let now = now_ms();
		let stuck = BEATS.iter().any(|b| {
			let v = b.load(Ordering::SeqCst);
			v != 0 && now.saturating_sub(v) > case_s * 1000
		});
		if stuck || t0.elapsed().as_secs() > total_s {
			eprintln!("ERROR: watchdog: {}", if stuck { "one case runs too long" } else { "time budget exceeded" });
			std::process::exit(3);
		}
	});
}

pub fn root() -> String {
	std::env::var("VERIF_ROOT").unwrap_or_else(|_| "/verif".into())
}

/// Signatures of the recorded (not fixed) findings of a property.
fn recorded(prop: &str) -> Vec<String> {
	let text = std::fs::read_to_string(format!("{}/known_findings.json", root())).unwrap_or_default();
	let mut out = vec![];
	if let Some(json::J::Arr(xs)) = json::parse(&text) {
		for x in xs {
			if x.get("property").and_then(|p| p.as_str()) == Some(prop) && x.get("status").and_then(|p| p.as_str()) == Some("finding") {
				if let Some(s) = x.get("signature").and_then(|p| p.as_str()) {
					out.push(s.to_string());
				}
			}
		}
	}
	out
}

fn write_replay(prop: &str, asp: &str, seed: u64, idx: u64, thorough: bool, tape: &[u64], msg: &str, notes: &[String]) -> String {
	let dir = format!("{}/replays", root());
	let _ = std::fs::create_dir_all(&dir);
	let path = format!("{dir}/{prop}-{asp}.json");
	let t: Vec<String> = tape.iter().map(|v| v.to_string()).collect();
	let n: Vec<String> = notes.iter().map(|s| json::quote(s)).collect();
	let text = format!(
		"{{\"property\":{},\"aspect\":{},\"seed\":{seed},\"index\":{idx},\"thorough\":{thorough},\n\"message\":{},\n\"case\":[{}],\n\"tape\":[{}]}}\n",
		json::quote(prop),
		json::quote(asp),
		json::quote(msg),
		n.join(",\n"),
		t.join(",")
	);
	if let Ok(mut f) = std::fs::File::create(&path) {
		let _ = f.write_all(text.as_bytes());
	}
	path
}

/// Entry point of a harness binary: `<bin> <ID> quick|thorough` or `<bin> <ID> replay <file>`.
pub fn main(props: Vec<Property>) {
	install_hook();
	let args: Vec<String> = std::env::args().collect();
	if args.len() < 3 {
		eprintln!("usage: {} <ID> quick|thorough|replay [file]", args[0]);
		std::process::exit(3);
	}
	let Some(prop) = props.into_iter().find(|p| p.id == args[1]) else {
		eprintln!("ERROR: unknown property {}", args[1]);
		std::process::exit(3);
	};
	let seed: u64 = std::env::var("VERIF_SEED").ok().and_then(|s| s.trim().parse().ok()).unwrap_or(1);
	if args[2] == "replay" {
		let text = std::fs::read_to_string(args.get(3).map(|s| s.as_str()).unwrap_or("")).unwrap_or_default();
		let Some(j) = json::parse(&text) else {
			eprintln!("ERROR: cannot read replay file");
			std::process::exit(3);
		};
		let asp = j.get("aspect").and_then(|x| x.as_str()).unwrap_or("").to_string();
		if let Some(sig) = asp.strip_prefix("known:") {
			let Some(k) = prop.known.iter().find(|k| k.signature == sig) else { std::process::exit(3) };
			match guarded(k.probe) {
				Ok(None) => {
					println!("replay: passes");
					std::process::exit(0)
				},
				Ok(Some(m)) | Err(m) => {
					println!("{m}");
					println!("VIOLATION property={} replay={}", prop.id, args[3]);
					std::process::exit(1)
				},
			}
		}
		let tape: Vec<u64> = match j.get("tape") {
			Some(json::J::Arr(v)) => v.iter().filter_map(|x| x.as_u64()).collect(),
			_ => vec![],
		};
		let th = matches!(j.get("thorough"), Some(json::J::Bool(true)));
		let Some(a) = prop.aspects.iter().find(|a| a.name == asp) else {
			eprintln!("ERROR: unknown aspect {asp}");
			std::process::exit(3);
		};
		let run = a.run;
		let (r, notes) = on_big_stack(move || {
			let mut g = Gen::replay(tape, true, th);
			let r = run_case(run, &mut g);
			(r, g.notes)
		})
		.unwrap_or((Err("died".into()), vec![]));
		for n in notes {
			println!("  {n}");
		}
		match r {
			Ok(()) => {
				println!("replay: passes");
				std::process::exit(0)
			},
			Err(m) => {
				println!("{m}");
				println!("VIOLATION property={} replay={}", prop.id, args[3]);
				std::process::exit(1)
			},
		}
	}
	let thorough = args[2] == "thorough";
	let budget = std::env::var("VERIF_BUDGET_S").ok().and_then(|s| s.parse().ok()).unwrap_or(if thorough { 6 * 3600 } else { 700 });
	watchdog(budget, if thorough { 300 } else { 90 });
	let t0 = Instant::now();
	let threads = std::thread::available_parallelism().map(|n| n.get()).unwrap_or(4).clamp(1, 16);
	let scale: f64 = std::env::var("VERIF_SCALE").ok().and_then(|s| s.parse().ok()).unwrap_or(1.0);
	let mut violated = false;
	let mut known_lines = vec![];
	let rec = recorded(prop.id);
	for k in &prop.known {
		let r = match guarded(k.probe) {
			Ok(None) => continue,
			Ok(Some(m)) => m,
			Err(m) => m,
		};
		if rec.iter().any(|s| s == k.signature) {
			let line = format!("KNOWN-FINDING: property={} {}: {}", prop.id, k.signature, r);
			println!("{line}");
			known_lines.push(line);
		} else {
			let p = write_replay(prop.id, &format!("known:{}", k.signature), seed, 0, thorough, &[], &r, &[]);
			println!("{r}");
			println!("VIOLATION property={} replay={p}", prop.id);
			violated = true;
		}
	}
	let mut reports = vec![];
	let only = std::env::var("VERIF_ASPECT").ok();
	for a in &prop.aspects {
		if let Some(o) = &only {
			if o != a.name {
				continue;
			}
		}
		let a2 = Aspect {
			name: a.name,
			quick: if a.enumerated { a.quick } else { (a.quick as f64 * scale) as u64 },
			thorough: if a.enumerated { a.thorough } else { (a.thorough as f64 * scale) as u64 },
			enumerated: a.enumerated,
			run: a.run,
		};
		let mut rep = run_aspect(&prop, &a2, seed, thorough, threads);
		if let Some((idx, tape, msg)) = rep.failure.take() {
			let run = a.run;
			let (t2, m2, notes) = {
				let (tape2, msg2) = (tape.clone(), msg.clone());
				on_big_stack(move || {
					let (t, m) = shrink(run, tape2, msg2, thorough, Duration::from_secs(20));
					let mut g = Gen::replay(t.clone(), true, thorough);
					let _ = run_case(run, &mut g);
					(t, m, g.notes)
				})
				.unwrap_or((tape, msg, vec![]))
			};
			let p = write_replay(prop.id, a.name, seed, idx, thorough, &t2, &m2, &notes);
			println!("[{}] case {idx}: {m2}", a.name);
			for n in notes.iter().take(30) {
				println!("  {n}");
			}
			println!("VIOLATION property={} replay={p}", prop.id);
			violated = true;
		}
		println!(
			"{} {}: {} cases, {} distinct non-trivial, {:.1}s",
			prop.id, a.name, rep.evals, rep.distinct, rep.wall
		);
		reports.push(rep);
	}
	DONE.store(true, Ordering::SeqCst);
	// evidence
	let total: u64 = reports.iter().map(|r| r.evals).sum();
	let distinct: u64 = reports.iter().map(|r| r.distinct).sum();
	let excluded: u64 = reports.iter().map(|r| r.excluded).sum();
	let mut samples = vec![];
	for r in &reports {
		for s in &r.samples {
			let lines: Vec<String> = s.iter().map(|x| json::quote(&x.chars().take(400).collect::<String>())).collect();
			samples.push(format!("{{\"aspect\":{},\"case\":[{}]}}", json::quote(r.name), lines.join(",")));
		}
	}
	let aspects: Vec<String> = reports
		.iter()
		.map(|r| {
			let l: Vec<String> = r.labels.iter().map(|(k, v)| format!("{}:{v}", json::quote(k))).collect();
			format!(
				"{}:{{\"evaluations\":{},\"distinct_nontrivial\":{},\"excluded_known\":{},\"wall_s\":{:.2},\"classes\":{{{}}}}}",
				json::quote(r.name), r.evals, r.distinct, r.excluded, r.wall, l.join(",")
			)
		})
		.collect();
	let known: Vec<String> = known_lines.iter().map(|s| json::quote(s)).collect();
	let ev = format!(
		"{{\"property\":{},\"tier\":{},\"seed\":{seed},\"level\":\"exploration\",\"wall_s\":{:.2},\n\"coverage\":{{\"evaluations\":{total},\"distinct_nontrivial\":{distinct},\"rule\":{},\"excluded_known\":{excluded},\"known_findings\":[{}],\n\"aspects\":{{{}}},\n\"samples\":[{}]}}}}\n",
		json::quote(prop.id),
		json::quote(if thorough { "thorough" } else { "quick" }),
		t0.elapsed().as_secs_f64(),
		json::quote(prop.rule),
		known.join(","),
		aspects.join(",\n"),
		samples.join(",\n")
	);
	let dir = format!("{}/evidence", root());
	let _ = std::fs::create_dir_all(&dir);
	if std::fs::write(format!("{dir}/{}.json", prop.id), ev).is_err() {
		eprintln!("ERROR: cannot write evidence");
		std::process::exit(3);
	}
	if !violated && total > 0 && distinct == 0 {
		eprintln!("ERROR: vacuous run");
		std::process::exit(3);
	}
	std::process::exit(if violated { 1 } else { 0 });
}
