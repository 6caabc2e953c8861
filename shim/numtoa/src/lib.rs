//! Stand-in for `numtoa`: integers written as digits in a base, at the end of a caller's buffer.
pub trait NumToA<T> {
	fn numtoa(self, base: T, string: &mut [u8]) -> &[u8];
	fn numtoa_str(self, base: T, buf: &mut [u8]) -> &str;
}
macro_rules! n { ($($t:ty),*) => { $(
	impl NumToA<$t> for $t {
		fn numtoa(mut self, base: $t, string: &mut [u8]) -> &[u8] {
			let mut i = string.len();
			loop {
				i -= 1;
				string[i] = b"0123456789ABCDEFGHIJKLMNOPQRSTUVWXYZ"[(self % base) as usize];
				self /= base;
				if self == 0 { break }
			}
			&string[i..]
		}
		fn numtoa_str(self, base: $t, buf: &mut [u8]) -> &str { core::str::from_utf8(self.numtoa(base, buf)).unwrap() }
	}
)* } }
n!(u8, u16, u32, u64, u128, usize);
