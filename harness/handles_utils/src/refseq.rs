//! Independent reference of the published suffix order: XXH64 seed, PCG-XSH-RR 64/32,
//! Lemire bounded draws and a downward Fisher-Yates shuffle.
const P1: u64 = 0x9E3779B185EBCA87;
const P2: u64 = 0xC2B2AE3D27D4EB4F;
const P3: u64 = 0x165667B19E3779F9;
const P4: u64 = 0x85EBCA77C2B2AE63;
const P5: u64 = 0x27D4EB2F165667C5;

fn rd(acc: u64, v: u64) -> u64 {
	acc.wrapping_add(v.wrapping_mul(P2)).rotate_left(31).wrapping_mul(P1)
}
fn u64le(b: &[u8]) -> u64 {
	b.iter().take(8).enumerate().fold(0, |a, (i, x)| a | (*x as u64) << (8 * i))
}
pub fn xxh64(data: &[u8], seed: u64) -> u64 {
	let mut d = data;
	let mut h;
	if d.len() >= 32 {
		let mut a = [seed.wrapping_add(P1).wrapping_add(P2), seed.wrapping_add(P2), seed, seed.wrapping_sub(P1)];
		while d.len() >= 32 {
			for (i, x) in a.iter_mut().enumerate() {
				*x = rd(*x, u64le(&d[8 * i..]));
			}
			d = &d[32..];
		}
		h = a[0].rotate_left(1).wrapping_add(a[1].rotate_left(7)).wrapping_add(a[2].rotate_left(12)).wrapping_add(a[3].rotate_left(18));
		for x in a {
			h = (h ^ rd(0, x)).wrapping_mul(P1).wrapping_add(P4);
		}
	} else {
		h = seed.wrapping_add(P5);
	}
	h = h.wrapping_add(data.len() as u64);
	while d.len() >= 8 {
		h = (h ^ rd(0, u64le(d))).rotate_left(27).wrapping_mul(P1).wrapping_add(P4);
		d = &d[8..];
	}
	if d.len() >= 4 {
		let w = u64le(&d[..4]);
		h = (h ^ w.wrapping_mul(P1)).rotate_left(23).wrapping_mul(P2).wrapping_add(P3);
		d = &d[4..];
	}
	for b in d {
		h = (h ^ (*b as u64).wrapping_mul(P5)).rotate_left(11).wrapping_mul(P1);
	}
	h = (h ^ (h >> 33)).wrapping_mul(P2);
	h = (h ^ (h >> 29)).wrapping_mul(P3);
	h ^ (h >> 32)
}
pub fn seed(handle: &str) -> u64 {
	let mut b = handle.as_bytes().to_vec();
	b.extend([0, 0, 0, 0]);
	xxh64(&b, 0)
}
struct Pcg {
	s: u64,
	inc: u64,
}
impl Pcg {
	fn new(seed: u64) -> Pcg {
		let mut p = Pcg { s: 0, inc: (1442695040888963407u64 << 1) | 1 };
		p.next();
		p.s = p.s.wrapping_add(seed);
		p.next();
		p
	}
	fn next(&mut self) -> u32 {
		let o = self.s;
		self.s = o.wrapping_mul(6364136223846793005).wrapping_add(self.inc);
		((((o >> 18) ^ o) >> 27) as u32).rotate_right((o >> 59) as u32)
	}
	fn below(&mut self, n: u32) -> u32 {
		let t = ((1u64 << 32) % n as u64) as u32;
		loop {
			let m = self.next() as u64 * n as u64;
			if m as u32 >= t {
				return (m >> 32) as u32;
			}
		}
	}
}
pub fn suffixes(min: u16, max: u16, handle: &str, k: usize) -> Vec<u16> {
	let mut rng = Pcg::new(seed(handle));
	let mut pool: Vec<u16> = (min..=max).collect();
	let mut out = vec![];
	while out.len() < k && !pool.is_empty() {
		let last = pool.len() - 1;
		let j = rng.below(pool.len() as u32) as usize;
		pool.swap(j, last);
		out.extend(pool.pop());
	}
	out
}
