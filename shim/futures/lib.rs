//! The part of `futures` that the node's block authoring uses (the crate itself does not resolve
//! offline with the repository's toolchain).
pub use std::future::Future;
use std::{
	pin::Pin,
	task::{Context, Poll},
};

pub mod future {
	use super::*;
	pub type BoxFuture<'a, T> = Pin<Box<dyn Future<Output = T> + Send + 'a>>;
	pub trait FutureExt: Future {
		fn boxed<'a>(self) -> BoxFuture<'a, Self::Output>
		where
			Self: Sized + Send + 'a,
		{
			Box::pin(self)
		}
	}
	impl<T: Future + ?Sized> FutureExt for T {}
	pub use std::future::{pending, ready};
}
pub use future::FutureExt;

pub mod stream {
	use super::*;
	pub trait Stream {
		type Item;
		fn poll_next(self: Pin<&mut Self>, cx: &mut Context<'_>) -> Poll<Option<Self::Item>>;
	}
	impl<S: Stream + Unpin + ?Sized> Stream for &mut S {
		type Item = S::Item;
		fn poll_next(mut self: Pin<&mut Self>, cx: &mut Context<'_>) -> Poll<Option<S::Item>> {
			Pin::new(&mut **self).poll_next(cx)
		}
	}
	impl<P> Stream for Pin<P>
	where
		P: std::ops::DerefMut + Unpin,
		P::Target: Stream,
	{
		type Item = <P::Target as Stream>::Item;
		fn poll_next(self: Pin<&mut Self>, cx: &mut Context<'_>) -> Poll<Option<Self::Item>> {
			self.get_mut().as_mut().poll_next(cx)
		}
	}
	impl<S: Stream + Unpin + ?Sized> Stream for Box<S> {
		type Item = S::Item;
		fn poll_next(mut self: Pin<&mut Self>, cx: &mut Context<'_>) -> Poll<Option<S::Item>> {
			Pin::new(&mut **self).poll_next(cx)
		}
	}
	pub type BoxStream<'a, T> = Pin<Box<dyn Stream<Item = T> + Send + 'a>>;

	pub struct Next<'a, S: ?Sized>(&'a mut S);
	impl<S: Stream + Unpin + ?Sized> Future for Next<'_, S> {
		type Output = Option<S::Item>;
		fn poll(mut self: Pin<&mut Self>, cx: &mut Context<'_>) -> Poll<Option<S::Item>> {
			Pin::new(&mut *self.0).poll_next(cx)
		}
	}
	pub struct Map<S, F>(Pin<Box<S>>, F);
	impl<S, F> Unpin for Map<S, F> {}
	impl<S: Stream, T, F: FnMut(S::Item) -> T> Stream for Map<S, F> {
		type Item = T;
		fn poll_next(mut self: Pin<&mut Self>, cx: &mut Context<'_>) -> Poll<Option<T>> {
			match self.0.as_mut().poll_next(cx) {
				Poll::Ready(Some(x)) => Poll::Ready(Some((self.1)(x))),
				Poll::Ready(None) => Poll::Ready(None),
				Poll::Pending => Poll::Pending,
			}
		}
	}
	pub struct FilterMap<S, F>(Pin<Box<S>>, F);
	impl<S, F> Unpin for FilterMap<S, F> {}
	impl<S: Stream, T, R: Future<Output = Option<T>> + Unpin, F: FnMut(S::Item) -> R> Stream for FilterMap<S, F> {
		type Item = T;
		fn poll_next(mut self: Pin<&mut Self>, cx: &mut Context<'_>) -> Poll<Option<T>> {
			loop {
				match self.0.as_mut().poll_next(cx) {
					Poll::Ready(Some(x)) => {
						let mut f = (self.1)(x);
						if let Poll::Ready(Some(y)) = Pin::new(&mut f).poll(cx) {
							return Poll::Ready(Some(y))
						}
					},
					Poll::Ready(None) => return Poll::Ready(None),
					Poll::Pending => return Poll::Pending,
				}
			}
		}
	}
	pub trait StreamExt: Stream {
		fn next(&mut self) -> Next<'_, Self>
		where
			Self: Unpin,
		{
			Next(self)
		}
		fn map<T, F: FnMut(Self::Item) -> T>(self, f: F) -> Map<Self, F>
		where
			Self: Sized,
		{
			Map(Box::pin(self), f)
		}
		fn filter_map<T, R: Future<Output = Option<T>> + Unpin, F: FnMut(Self::Item) -> R>(self, f: F) -> FilterMap<Self, F>
		where
			Self: Sized,
		{
			FilterMap(Box::pin(self), f)
		}
		fn boxed<'a>(self) -> BoxStream<'a, Self::Item>
		where
			Self: Sized + Send + 'a,
		{
			Box::pin(self)
		}
	}
	impl<S: Stream + ?Sized> StreamExt for S {}

	pub struct Empty<T>(std::marker::PhantomData<fn() -> T>);
	pub fn empty<T>() -> Empty<T> {
		Empty(Default::default())
	}
	impl<T> Stream for Empty<T> {
		type Item = T;
		fn poll_next(self: Pin<&mut Self>, _: &mut Context<'_>) -> Poll<Option<T>> {
			Poll::Ready(None)
		}
	}
	pub struct Pending<T>(std::marker::PhantomData<fn() -> T>);
	pub fn pending<T>() -> Pending<T> {
		Pending(Default::default())
	}
	impl<T> Stream for Pending<T> {
		type Item = T;
		fn poll_next(self: Pin<&mut Self>, _: &mut Context<'_>) -> Poll<Option<T>> {
			Poll::Pending
		}
	}
	pub struct PollFn<F>(F);
	impl<F> Unpin for PollFn<F> {}
	pub fn poll_fn<T, F: FnMut(&mut Context<'_>) -> Poll<Option<T>>>(f: F) -> PollFn<F> {
		PollFn(f)
	}
	impl<T, F: FnMut(&mut Context<'_>) -> Poll<Option<T>>> Stream for PollFn<F> {
		type Item = T;
		fn poll_next(mut self: Pin<&mut Self>, cx: &mut Context<'_>) -> Poll<Option<T>> {
			(self.0)(cx)
		}
	}
	/// Takes from both by turns, until both have ended.
	pub struct Select<A, B> {
		a: Option<Pin<Box<A>>>,
		b: Option<Pin<Box<B>>>,
		turn: bool,
	}
	impl<A, B> Unpin for Select<A, B> {}
	pub fn select<A: Stream, B: Stream<Item = A::Item>>(a: A, b: B) -> Select<A, B> {
		Select { a: Some(Box::pin(a)), b: Some(Box::pin(b)), turn: false }
	}
	fn one<S: Stream>(s: &mut Option<Pin<Box<S>>>, cx: &mut Context<'_>) -> Option<S::Item> {
		match s.as_mut()?.as_mut().poll_next(cx) {
			Poll::Ready(Some(x)) => Some(x),
			Poll::Ready(None) => {
				*s = None;
				None
			},
			Poll::Pending => None,
		}
	}
	impl<A: Stream, B: Stream<Item = A::Item>> Stream for Select<A, B> {
		type Item = A::Item;
		fn poll_next(mut self: Pin<&mut Self>, cx: &mut Context<'_>) -> Poll<Option<A::Item>> {
			self.turn = !self.turn;
			let this = &mut *self;
			let x = if this.turn {
				one(&mut this.a, cx).or_else(|| one(&mut this.b, cx))
			} else {
				one(&mut this.b, cx).or_else(|| one(&mut this.a, cx))
			};
			match x {
				Some(x) => Poll::Ready(Some(x)),
				None if this.a.is_none() && this.b.is_none() => Poll::Ready(None),
				None => Poll::Pending,
			}
		}
	}
}
pub use stream::{Stream, StreamExt};

#[macro_export]
macro_rules! stream_select {
	($a:expr $(,)?) => { $a };
	($a:expr, $($rest:expr),+ $(,)?) => { $crate::stream::select($a, $crate::stream_select!($($rest),+)) };
}

pub mod channel {
	pub mod mpsc {
		use crate::stream::Stream;
		use std::{
			collections::VecDeque,
			pin::Pin,
			sync::{Arc, Mutex},
			task::{Context, Poll, Waker},
		};
		struct Queue<T> {
			items: VecDeque<T>,
			room: usize,
			senders: usize,
			open: bool,
			waker: Option<Waker>,
		}
		type Shared<T> = Arc<Mutex<Queue<T>>>;
		#[derive(Debug)]
		pub struct TrySendError<T>(pub T);
		impl<T> TrySendError<T> {
			pub fn into_inner(self) -> T {
				self.0
			}
		}
		pub struct Sender<T>(Shared<T>);
		pub struct Receiver<T>(Shared<T>);
		pub type UnboundedSender<T> = Sender<T>;
		pub type UnboundedReceiver<T> = Receiver<T>;
		pub fn channel<T>(room: usize) -> (Sender<T>, Receiver<T>) {
			let q = Arc::new(Mutex::new(Queue { items: VecDeque::new(), room: room.saturating_add(1), senders: 1, open: true, waker: None }));
			(Sender(q.clone()), Receiver(q))
		}
		pub fn unbounded<T>() -> (Sender<T>, Receiver<T>) {
			channel(usize::MAX)
		}
		impl<T> Sender<T> {
			pub fn try_send(&mut self, x: T) -> Result<(), TrySendError<T>> {
				let mut q = self.0.lock().unwrap();
				if !q.open || q.items.len() >= q.room {
					return Err(TrySendError(x))
				}
				q.items.push_back(x);
				if let Some(w) = q.waker.take() {
					w.wake()
				}
				Ok(())
			}
			pub fn is_closed(&self) -> bool {
				!self.0.lock().unwrap().open
			}
		}
		impl<T> Clone for Sender<T> {
			fn clone(&self) -> Self {
				self.0.lock().unwrap().senders += 1;
				Sender(self.0.clone())
			}
		}
		impl<T> Drop for Sender<T> {
			fn drop(&mut self) {
				let mut q = self.0.lock().unwrap();
				q.senders -= 1;
				if q.senders == 0 {
					if let Some(w) = q.waker.take() {
						w.wake()
					}
				}
			}
		}
		impl<T> Drop for Receiver<T> {
			fn drop(&mut self) {
				let mut q = self.0.lock().unwrap();
				q.open = false;
				let items = std::mem::take(&mut q.items);
				drop(q);
				drop(items);
			}
		}
		impl<T> Stream for Receiver<T> {
			type Item = T;
			fn poll_next(self: Pin<&mut Self>, cx: &mut Context<'_>) -> Poll<Option<T>> {
				let mut q = self.0.lock().unwrap();
				match q.items.pop_front() {
					Some(x) => Poll::Ready(Some(x)),
					None if q.senders == 0 => Poll::Ready(None),
					None => {
						q.waker = Some(cx.waker().clone());
						Poll::Pending
					},
				}
			}
		}
	}
	pub mod oneshot {
		use super::mpsc;
		use crate::stream::Stream;
		use std::{
			future::Future,
			pin::Pin,
			task::{Context, Poll},
		};
		#[derive(Debug, PartialEq)]
		pub struct Canceled;
		pub struct Sender<T>(mpsc::Sender<T>);
		pub struct Receiver<T>(mpsc::Receiver<T>);
		pub fn channel<T>() -> (Sender<T>, Receiver<T>) {
			let (s, r) = mpsc::channel(1);
			(Sender(s), Receiver(r))
		}
		impl<T> Sender<T> {
			pub fn send(mut self, x: T) -> Result<(), T> {
				self.0.try_send(x).map_err(|e| e.into_inner())
			}
			pub fn is_canceled(&self) -> bool {
				self.0.is_closed()
			}
		}
		impl<T> Future for Receiver<T> {
			type Output = Result<T, Canceled>;
			fn poll(mut self: Pin<&mut Self>, cx: &mut Context<'_>) -> Poll<Self::Output> {
				match Pin::new(&mut self.0).poll_next(cx) {
					Poll::Ready(Some(x)) => Poll::Ready(Ok(x)),
					Poll::Ready(None) => Poll::Ready(Err(Canceled)),
					Poll::Pending => Poll::Pending,
				}
			}
		}
	}
}
