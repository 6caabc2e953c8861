//! Stand-in: calendar dates as seconds, as far as the repository's unit tests use them.
use std::{marker::PhantomData, ops::{Add, Sub}};
#[derive(Clone, Copy, Debug, PartialEq, Eq, PartialOrd, Ord)]
pub struct Utc;
#[derive(Clone, Copy, Debug, PartialEq, Eq, PartialOrd, Ord)]
pub struct DateTime<T>(i64, PhantomData<T>);
#[derive(Clone, Copy, Debug, PartialEq, Eq, PartialOrd, Ord)]
pub struct Duration(i64);
#[derive(Clone, Copy, Debug)]
pub struct Days(u64);
impl Days {
	pub fn new(n: u64) -> Self { Days(n) }
}
impl Duration {
	pub fn days(n: i64) -> Self { Duration(n * 86_400) }
	pub fn seconds(n: i64) -> Self { Duration(n) }
	pub fn num_seconds(&self) -> i64 { self.0 }
}
impl<T> DateTime<T> {
	pub fn signed_duration_since(self, o: Self) -> Duration { Duration(self.0 - o.0) }
}
impl<T> Sub<Days> for DateTime<T> { type Output = Self; fn sub(self, d: Days) -> Self { DateTime(self.0 - d.0 as i64 * 86_400, PhantomData) } }
impl<T> Add<Days> for DateTime<T> { type Output = Self; fn add(self, d: Days) -> Self { DateTime(self.0 + d.0 as i64 * 86_400, PhantomData) } }
pub trait TimeZone: Sized {
	fn with_ymd_and_hms(&self, y: i32, m: u32, d: u32, h: u32, min: u32, s: u32) -> Option<DateTime<Self>> {
		let (y, m) = if m < 3 { (y as i64 - 1, m as i64 + 12) } else { (y as i64, m as i64) };
		let days = 365 * y + y / 4 - y / 100 + y / 400 + (153 * (m - 3) + 2) / 5 + d as i64 - 719_469;
		Some(DateTime(days * 86_400 + h as i64 * 3600 + min as i64 * 60 + s as i64, PhantomData))
	}
}
impl TimeZone for Utc {}
