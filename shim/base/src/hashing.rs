//! blake2b (RFC 7693) and xxHash64.
const IV: [u64; 8] = [
	0x6a09e667f3bcc908, 0xbb67ae8584caa73b, 0x3c6ef372fe94f82b, 0xa54ff53a5f1d36f1, 0x510e527fade682d1, 0x9b05688c2b3e6c1f, 0x1f83d9abfb41bd6b, 0x5be0cd19137e2179,
];
const SIGMA: [[usize; 16]; 10] = [
	[0, 1, 2, 3, 4, 5, 6, 7, 8, 9, 10, 11, 12, 13, 14, 15],
	[14, 10, 4, 8, 9, 15, 13, 6, 1, 12, 0, 2, 11, 7, 5, 3],
	[11, 8, 12, 0, 5, 2, 15, 13, 10, 14, 3, 6, 7, 1, 9, 4],
	[7, 9, 3, 1, 13, 12, 11, 14, 2, 6, 5, 10, 4, 0, 15, 8],
	[9, 0, 5, 7, 2, 4, 10, 15, 14, 1, 11, 12, 6, 8, 3, 13],
	[2, 12, 6, 10, 0, 11, 8, 3, 4, 13, 7, 5, 15, 14, 1, 9],
	[12, 5, 1, 15, 14, 13, 4, 10, 0, 7, 6, 3, 9, 2, 8, 11],
	[13, 11, 7, 14, 12, 1, 3, 9, 5, 0, 15, 4, 8, 6, 2, 10],
	[6, 15, 14, 9, 11, 3, 0, 8, 12, 2, 13, 7, 1, 4, 10, 5],
	[10, 2, 8, 4, 7, 6, 1, 5, 15, 11, 9, 14, 3, 12, 13, 0],
];
fn g(v: &mut [u64; 16], a: usize, b: usize, c: usize, d: usize, x: u64, y: u64) {
	v[a] = v[a].wrapping_add(v[b]).wrapping_add(x);
	v[d] = (v[d] ^ v[a]).rotate_right(32);
	v[c] = v[c].wrapping_add(v[d]);
	v[b] = (v[b] ^ v[c]).rotate_right(24);
	v[a] = v[a].wrapping_add(v[b]).wrapping_add(y);
	v[d] = (v[d] ^ v[a]).rotate_right(16);
	v[c] = v[c].wrapping_add(v[d]);
	v[b] = (v[b] ^ v[c]).rotate_right(63);
}
fn compress(h: &mut [u64; 8], block: &[u8; 128], t: u128, last: bool) {
	let mut m = [0u64; 16];
	for i in 0..16 {
		m[i] = u64::from_le_bytes(block[i * 8..i * 8 + 8].try_into().unwrap());
	}
	let mut v = [0u64; 16];
	v[..8].copy_from_slice(h);
	v[8..].copy_from_slice(&IV);
	v[12] ^= t as u64;
	v[13] ^= (t >> 64) as u64;
	if last {
		v[14] = !v[14];
	}
	for r in 0..12 {
		let s = &SIGMA[r % 10];
		g(&mut v, 0, 4, 8, 12, m[s[0]], m[s[1]]);
		g(&mut v, 1, 5, 9, 13, m[s[2]], m[s[3]]);
		g(&mut v, 2, 6, 10, 14, m[s[4]], m[s[5]]);
		g(&mut v, 3, 7, 11, 15, m[s[6]], m[s[7]]);
		g(&mut v, 0, 5, 10, 15, m[s[8]], m[s[9]]);
		g(&mut v, 1, 6, 11, 12, m[s[10]], m[s[11]]);
		g(&mut v, 2, 7, 8, 13, m[s[12]], m[s[13]]);
		g(&mut v, 3, 4, 9, 14, m[s[14]], m[s[15]]);
	}
	for i in 0..8 {
		h[i] ^= v[i] ^ v[i + 8];
	}
}
pub fn blake2b<const N: usize>(data: &[u8]) -> [u8; N] {
	let mut h = IV;
	h[0] ^= 0x01010000 ^ N as u64;
	let mut off = 0;
	loop {
		let mut b = [0u8; 128];
		let n = (data.len() - off).min(128);
		b[..n].copy_from_slice(&data[off..off + n]);
		off += n;
		let last = off == data.len();
		compress(&mut h, &b, off as u128, last);
		if last {
			break;
		}
	}
	let mut out = [0u8; N];
	for i in 0..N {
		out[i] = (h[i / 8] >> (8 * (i % 8))) as u8;
	}
	out
}
pub fn blake2_128(d: &[u8]) -> [u8; 16] { blake2b(d) }
pub fn blake2_256(d: &[u8]) -> [u8; 32] { blake2b(d) }
pub fn blake2_512(d: &[u8]) -> [u8; 64] { blake2b(d) }
pub fn blake2_64(d: &[u8]) -> [u8; 8] { blake2b(d) }

const P1: u64 = 0x9E3779B185EBCA87;
const P2: u64 = 0xC2B2AE3D27D4EB4F;
const P3: u64 = 0x165667B19E3779F9;
const P4: u64 = 0x85EBCA77C2B2AE63;
const P5: u64 = 0x27D4EB2F165667C5;
fn r8(d: &[u8]) -> u64 { u64::from_le_bytes(d[..8].try_into().unwrap()) }
fn round(a: u64, x: u64) -> u64 { a.wrapping_add(x.wrapping_mul(P2)).rotate_left(31).wrapping_mul(P1) }
pub fn xxh64(data: &[u8], seed: u64) -> u64 {
	let mut d = data;
	let mut h;
	if d.len() >= 32 {
		let mut a = [seed.wrapping_add(P1).wrapping_add(P2), seed.wrapping_add(P2), seed, seed.wrapping_sub(P1)];
		while d.len() >= 32 {
			for i in 0..4 {
				a[i] = round(a[i], r8(&d[i * 8..]));
			}
			d = &d[32..];
		}
		h = a[0].rotate_left(1).wrapping_add(a[1].rotate_left(7)).wrapping_add(a[2].rotate_left(12)).wrapping_add(a[3].rotate_left(18));
		for x in a {
			h = (h ^ round(0, x)).wrapping_mul(P1).wrapping_add(P4);
		}
	} else {
		h = seed.wrapping_add(P5);
	}
	h = h.wrapping_add(data.len() as u64);
	while d.len() >= 8 {
		h = (h ^ round(0, r8(d))).rotate_left(27).wrapping_mul(P1).wrapping_add(P4);
		d = &d[8..];
	}
	if d.len() >= 4 {
		let x = u32::from_le_bytes(d[..4].try_into().unwrap()) as u64;
		h = (h ^ x.wrapping_mul(P1)).rotate_left(23).wrapping_mul(P2).wrapping_add(P3);
		d = &d[4..];
	}
	for b in d {
		h = (h ^ (*b as u64).wrapping_mul(P5)).rotate_left(11).wrapping_mul(P1);
	}
	h ^= h >> 33;
	h = h.wrapping_mul(P2);
	h ^= h >> 29;
	h = h.wrapping_mul(P3);
	h ^ (h >> 32)
}
fn twox<const N: usize>(d: &[u8]) -> [u8; N] {
	let mut o = [0; N];
	for i in 0..N / 8 {
		o[i * 8..i * 8 + 8].copy_from_slice(&xxh64(d, i as u64).to_le_bytes());
	}
	o
}
pub fn twox_64(d: &[u8]) -> [u8; 8] { twox(d) }
pub fn twox_128(d: &[u8]) -> [u8; 16] { twox(d) }
pub fn twox_256(d: &[u8]) -> [u8; 32] { twox(d) }
#[cfg(test)]
mod tests {
	#[test]
	fn vectors() {
		assert_eq!(hex::encode(super::blake2_256(b"")), "0e5751c026e543b2e8ab2eb06099daa1d1e5df47778f7787faab45cdf12fe3a8");
		assert_eq!(hex::encode(super::blake2_512(b"abc")), "ba80a53f981c4d0d6a2797b69f12f6e94c212f14685ac4b74b12bb6fdbffa2d17d87c5392aab792dc252d5de4533cc9518d38aa8dbc4925ab92386edd4009923");
		assert_eq!(hex::encode(super::twox_128(b"System")), "26aa394eea5630e07c48ae0c9558cef7");
		assert_eq!(hex::encode(super::twox_64(b"Nobody inspects the spammish repetition")), hex::encode(super::xxh64(b"Nobody inspects the spammish repetition", 0).to_le_bytes()));
		assert_eq!(super::xxh64(b"Nobody inspects the spammish repetition", 0), 0xFBCEA83C8A378BF1);
	}
}
