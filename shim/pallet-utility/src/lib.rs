//! Stand-in for `pallet-utility`: batches of calls.
#![allow(clippy::all, deprecated)]
use frame_support::{
	dispatch::{extract_actual_weight, DispatchClass, GetDispatchInfo, Pays, PostDispatchInfo},
	pallet_prelude::*,
	traits::{IsSubType, OriginTrait, UnfilteredDispatchable},
};
pub use pallet::*;
use shim_base::runtime::traits::Dispatchable;
pub mod weights {
	use super::Weight;
	pub trait WeightInfo { fn batch(c: u32) -> Weight; fn as_derivative() -> Weight; fn batch_all(c: u32) -> Weight; fn dispatch_as() -> Weight; fn force_batch(c: u32) -> Weight; }
	impl WeightInfo for () {
		fn batch(c: u32) -> Weight { Weight::from_parts(6_000_000 + 5_000_000 * c as u64, 0) }
		fn as_derivative() -> Weight { Weight::from_parts(5_000_000, 0) }
		fn batch_all(c: u32) -> Weight { Self::batch(c) }
		fn dispatch_as() -> Weight { Weight::from_parts(8_000_000, 0) }
		fn force_batch(c: u32) -> Weight { Self::batch(c) }
	}
}
pub use weights::WeightInfo;
#[frame_support::pallet]
pub mod pallet {
	use super::*;
	use frame_system::pallet_prelude::*;
	#[pallet::pallet]
	pub struct Pallet<T>(_);
	#[pallet::config]
	pub trait Config: frame_system::Config {
		type RuntimeEvent: From<Event> + IsType<<Self as frame_system::Config>::RuntimeEvent>;
		type RuntimeCall: Parameter + Dispatchable<RuntimeOrigin = Self::RuntimeOrigin, PostInfo = PostDispatchInfo> + GetDispatchInfo + From<frame_system::Call<Self>> + UnfilteredDispatchable<RuntimeOrigin = Self::RuntimeOrigin> + IsSubType<Call<Self>> + IsType<<Self as frame_system::Config>::RuntimeCall>;
		type PalletsOrigin: Parameter + Into<<Self as frame_system::Config>::RuntimeOrigin>;
		type WeightInfo: WeightInfo;
	}
	#[pallet::event]
	#[pallet::generate_deposit(pub(super) fn deposit_event)]
	pub enum Event { BatchInterrupted { index: u32, error: DispatchError }, BatchCompleted, BatchCompletedWithErrors, ItemCompleted, ItemFailed { error: DispatchError }, DispatchedAs { result: frame_support::dispatch::DispatchResult } }
	#[pallet::error]
	pub enum Error<T> { TooManyCalls }
	fn sum<C: GetDispatchInfo>(c: &[C]) -> (Weight, DispatchClass) {
		let i: Vec<_> = c.iter().map(|c| c.get_dispatch_info()).collect();
		let w = i.iter().fold(Weight::zero(), |a, x| a.saturating_add(x.weight));
		let op = i.iter().all(|x| x.class == DispatchClass::Operational);
		(w, if op { DispatchClass::Operational } else { DispatchClass::Normal })
	}
	const LIMIT: usize = 10_922;
	#[pallet::call]
	impl<T: Config> Pallet<T> {
		#[pallet::call_index(0)]
		#[pallet::weight({ let (w, c) = sum(&calls); (w.saturating_add(T::WeightInfo::batch(calls.len() as u32)), c) })]
		pub fn batch(origin: OriginFor<T>, calls: Vec<<T as Config>::RuntimeCall>) -> DispatchResultWithPostInfo {
			if ensure_none(origin.clone()).is_ok() { return Err(DispatchError::BadOrigin.into()) }
			let is_root = ensure_root(origin.clone()).is_ok();
			let n = calls.len();
			ensure!(n <= LIMIT, Error::<T>::TooManyCalls);
			let mut weight = Weight::zero();
			for (index, call) in calls.into_iter().enumerate() {
				let info = call.get_dispatch_info();
				let r = if is_root { call.dispatch_bypass_filter(origin.clone()) } else { call.dispatch(origin.clone()) };
				weight = weight.saturating_add(extract_actual_weight(&r, &info));
				if let Err(e) = r {
					Self::deposit_event(Event::BatchInterrupted { index: index as u32, error: e.error });
					return Ok(Some(T::WeightInfo::batch(index as u32 + 1).saturating_add(weight)).into())
				}
				Self::deposit_event(Event::ItemCompleted);
			}
			Self::deposit_event(Event::BatchCompleted);
			Ok(Some(T::WeightInfo::batch(n as u32).saturating_add(weight)).into())
		}
		#[pallet::call_index(2)]
		#[pallet::weight({ let (w, c) = sum(&calls); (w.saturating_add(T::WeightInfo::batch_all(calls.len() as u32)), c) })]
		pub fn batch_all(origin: OriginFor<T>, calls: Vec<<T as Config>::RuntimeCall>) -> DispatchResultWithPostInfo {
			if ensure_none(origin.clone()).is_ok() { return Err(DispatchError::BadOrigin.into()) }
			let is_root = ensure_root(origin.clone()).is_ok();
			let n = calls.len();
			ensure!(n <= LIMIT, Error::<T>::TooManyCalls);
			let mut weight = Weight::zero();
			for (index, call) in calls.into_iter().enumerate() {
				let info = call.get_dispatch_info();
				let r = if is_root {
					call.dispatch_bypass_filter(origin.clone())
				} else {
					let mut o = origin.clone();
					o.add_filter(move |c: &<T as frame_system::Config>::RuntimeCall| {
						let c = <T as Config>::RuntimeCall::from_ref(c);
						!matches!(c.is_sub_type(), Some(Call::batch_all { .. }))
					});
					call.dispatch(o)
				};
				weight = weight.saturating_add(extract_actual_weight(&r, &info));
				r.map_err(|mut e| { e.post_info = Some(T::WeightInfo::batch_all(index as u32 + 1).saturating_add(weight)).into(); e })?;
				Self::deposit_event(Event::ItemCompleted);
			}
			Self::deposit_event(Event::BatchCompleted);
			Ok(Some(T::WeightInfo::batch_all(n as u32).saturating_add(weight)).into())
		}
		#[pallet::call_index(3)]
		#[pallet::weight((T::WeightInfo::dispatch_as().saturating_add(call.get_dispatch_info().weight), call.get_dispatch_info().class))]
		pub fn dispatch_as(origin: OriginFor<T>, as_origin: Box<T::PalletsOrigin>, call: Box<<T as Config>::RuntimeCall>) -> frame_support::dispatch::DispatchResult {
			ensure_root(origin)?;
			let r = call.dispatch_bypass_filter((*as_origin).into());
			Self::deposit_event(Event::DispatchedAs { result: r.map(|_| ()).map_err(|e| e.error) });
			Ok(())
		}
		#[pallet::call_index(4)]
		#[pallet::weight({ let (w, c) = sum(&calls); (w.saturating_add(T::WeightInfo::force_batch(calls.len() as u32)), c) })]
		pub fn force_batch(origin: OriginFor<T>, calls: Vec<<T as Config>::RuntimeCall>) -> DispatchResultWithPostInfo {
			if ensure_none(origin.clone()).is_ok() { return Err(DispatchError::BadOrigin.into()) }
			let is_root = ensure_root(origin.clone()).is_ok();
			let n = calls.len();
			ensure!(n <= LIMIT, Error::<T>::TooManyCalls);
			let (mut weight, mut errors) = (Weight::zero(), false);
			for call in calls.into_iter() {
				let info = call.get_dispatch_info();
				let r = if is_root { call.dispatch_bypass_filter(origin.clone()) } else { call.dispatch(origin.clone()) };
				weight = weight.saturating_add(extract_actual_weight(&r, &info));
				if let Err(e) = r { errors = true; Self::deposit_event(Event::ItemFailed { error: e.error }) } else { Self::deposit_event(Event::ItemCompleted) }
			}
			Self::deposit_event(if errors { Event::BatchCompletedWithErrors } else { Event::BatchCompleted });
			Ok(Some(T::WeightInfo::force_batch(n as u32).saturating_add(weight)).into())
		}
	}
}
#[allow(unused)]
fn _u(_: Pays) {}
