//! Stand-in for `pallet-collective`: members propose, vote on and close motions.
#![allow(clippy::all, deprecated)]
use frame_support::{dispatch::{DispatchResult, GetDispatchInfo, PostDispatchInfo}, pallet_prelude::*, traits::{ChangeMembers, EnsureOrigin, InitializeMembers, UnfilteredDispatchable}, weights::Weight};
pub use frame_support::instances::{Instance1, Instance2};
pub use pallet::*;
use parity_scale_codec::{Decode, Encode, MaxEncodedLen};
use scale_info::TypeInfo;
use shim_base::runtime::traits::{Dispatchable, Hash, Zero};
use std::marker::PhantomData;
pub mod weights { use super::Weight as W; pub trait WeightInfo { fn set_members(_: u32, _: u32, _: u32) -> W; fn execute(_: u32, _: u32) -> W; fn propose_execute(_: u32, _: u32) -> W; fn propose_proposed(_: u32, _: u32, _: u32) -> W; fn vote(_: u32) -> W; fn close_early_disapproved(_: u32, _: u32) -> W; fn close_early_approved(_: u32, _: u32, _: u32) -> W; fn close_disapproved(_: u32, _: u32) -> W; fn close_approved(_: u32, _: u32, _: u32) -> W; fn disapprove_proposal(_: u32) -> W; }
	impl WeightInfo for () { fn set_members(_: u32, _: u32, _: u32) -> W { W::from_parts(10_000_000, 0) } fn execute(_: u32, _: u32) -> W { W::from_parts(10_000_000, 0) } fn propose_execute(_: u32, _: u32) -> W { W::from_parts(10_000_000, 0) } fn propose_proposed(_: u32, _: u32, _: u32) -> W { W::from_parts(10_000_000, 0) } fn vote(_: u32) -> W { W::from_parts(10_000_000, 0) } fn close_early_disapproved(_: u32, _: u32) -> W { W::from_parts(10_000_000, 0) } fn close_early_approved(_: u32, _: u32, _: u32) -> W { W::from_parts(10_000_000, 0) } fn close_disapproved(_: u32, _: u32) -> W { W::from_parts(10_000_000, 0) } fn close_approved(_: u32, _: u32, _: u32) -> W { W::from_parts(10_000_000, 0) } fn disapprove_proposal(_: u32) -> W { W::from_parts(10_000_000, 0) } }
}
pub use weights::WeightInfo;
pub type ProposalIndex = u32;
pub type MemberCount = u32;
pub trait DefaultVote { fn default_vote(prime: Option<bool>, yes: MemberCount, no: MemberCount, len: MemberCount) -> bool; }
pub struct PrimeDefaultVote;
impl DefaultVote for PrimeDefaultVote { fn default_vote(p: Option<bool>, _y: MemberCount, _n: MemberCount, _l: MemberCount) -> bool { p.unwrap_or(false) } }
#[derive(PartialEq, Eq, Clone, RuntimeDebug, Encode, Decode, TypeInfo, MaxEncodedLen)]
#[scale_info(skip_type_params(I))]
#[codec(mel_bound(A: MaxEncodedLen))]
pub enum RawOrigin<A, I> { Members(MemberCount, MemberCount), Member(A), #[codec(skip)] _Phantom(PhantomData<I>) }
#[derive(PartialEq, Eq, Clone, Encode, Decode, RuntimeDebug, TypeInfo)]
pub struct Votes<A, N> { pub index: ProposalIndex, pub threshold: MemberCount, pub ayes: Vec<A>, pub nays: Vec<A>, pub end: N }
#[frame_support::pallet]
pub mod pallet {
	use super::*;
	use frame_system::pallet_prelude::*;
	#[pallet::pallet]
	pub struct Pallet<T, I = ()>(PhantomData<(T, I)>);
	#[pallet::config]
	pub trait Config<I: 'static = ()>: frame_system::Config {
		type RuntimeOrigin: From<RawOrigin<Self::AccountId, I>>;
		type Proposal: Parameter + Dispatchable<RuntimeOrigin = <Self as Config<I>>::RuntimeOrigin, PostInfo = PostDispatchInfo> + From<frame_system::Call<Self>> + GetDispatchInfo + UnfilteredDispatchable<RuntimeOrigin = <Self as Config<I>>::RuntimeOrigin>;
		type RuntimeEvent: From<Event<Self, I>> + IsType<<Self as frame_system::Config>::RuntimeEvent>;
		type MotionDuration: Get<BlockNumberFor<Self>>;
		type MaxProposals: Get<ProposalIndex>;
		type MaxMembers: Get<MemberCount>;
		type DefaultVote: DefaultVote;
		type WeightInfo: WeightInfo;
		type SetMembersOrigin: EnsureOrigin<<Self as frame_system::Config>::RuntimeOrigin>;
		type MaxProposalWeight: Get<Weight>;
	}
	#[pallet::genesis_config]
	pub struct GenesisConfig<T: Config<I>, I: 'static = ()> { pub phantom: PhantomData<I>, pub members: Vec<T::AccountId> }
	impl<T: Config<I>, I: 'static> Default for GenesisConfig<T, I> { fn default() -> Self { Self { phantom: PhantomData, members: vec![] } } }
	#[pallet::genesis_build]
	impl<T: Config<I>, I: 'static> BuildGenesisConfig for GenesisConfig<T, I> { fn build(&self) { Pallet::<T, I>::initialize_members(&self.members) } }
	#[pallet::origin]
	pub type Origin<T, I = ()> = RawOrigin<<T as frame_system::Config>::AccountId, I>;
	#[pallet::storage]
	#[pallet::getter(fn proposals)]
	pub type Proposals<T: Config<I>, I: 'static = ()> = StorageValue<_, BoundedVec<T::Hash, T::MaxProposals>, ValueQuery>;
	#[pallet::storage]
	#[pallet::getter(fn proposal_of)]
	pub type ProposalOf<T: Config<I>, I: 'static = ()> = StorageMap<_, Identity, T::Hash, <T as Config<I>>::Proposal, OptionQuery>;
	#[pallet::storage]
	#[pallet::getter(fn voting)]
	pub type Voting<T: Config<I>, I: 'static = ()> = StorageMap<_, Identity, T::Hash, Votes<T::AccountId, BlockNumberFor<T>>, OptionQuery>;
	#[pallet::storage]
	#[pallet::getter(fn proposal_count)]
	pub type ProposalCount<T: Config<I>, I: 'static = ()> = StorageValue<_, u32, ValueQuery>;
	#[pallet::storage]
	#[pallet::getter(fn members)]
	pub type Members<T: Config<I>, I: 'static = ()> = StorageValue<_, Vec<T::AccountId>, ValueQuery>;
	#[pallet::storage]
	#[pallet::getter(fn prime)]
	pub type Prime<T: Config<I>, I: 'static = ()> = StorageValue<_, T::AccountId, OptionQuery>;
	#[pallet::event]
	#[pallet::generate_deposit(pub(super) fn deposit_event)]
	pub enum Event<T: Config<I>, I: 'static = ()> {
		Proposed { account: T::AccountId, proposal_index: ProposalIndex, proposal_hash: T::Hash, threshold: MemberCount },
		Voted { account: T::AccountId, proposal_hash: T::Hash, voted: bool, yes: MemberCount, no: MemberCount },
		Approved { proposal_hash: T::Hash },
		Disapproved { proposal_hash: T::Hash },
		Executed { proposal_hash: T::Hash, result: DispatchResult },
		MemberExecuted { proposal_hash: T::Hash, result: DispatchResult },
		Closed { proposal_hash: T::Hash, yes: MemberCount, no: MemberCount },
	}
	#[pallet::error]
	pub enum Error<T, I = ()> { NotMember, DuplicateProposal, ProposalMissing, WrongIndex, DuplicateVote, AlreadyInitialized, TooEarly, TooManyProposals, WrongProposalWeight, WrongProposalLength, PrimeAccountNotMember }
	#[pallet::call]
	impl<T: Config<I>, I: 'static> Pallet<T, I> {
		#[pallet::call_index(2)]
		#[pallet::weight(T::WeightInfo::propose_proposed(0, 0, 0))]
		pub fn propose(origin: OriginFor<T>, #[pallet::compact] threshold: MemberCount, proposal: Box<<T as Config<I>>::Proposal>, #[pallet::compact] length_bound: u32) -> DispatchResultWithPostInfo {
			let who = ensure_signed(origin)?;
			ensure!(Self::members().contains(&who), Error::<T, I>::NotMember);
			if threshold < 2 { let h = T::Hashing::hash_of(&proposal); let r = proposal.dispatch(RawOrigin::Members(1, Self::members().len() as u32).into()); Self::deposit_event(Event::Executed { proposal_hash: h, result: r.map(|_| ()).map_err(|e| e.error) }); } else { Self::do_propose_proposed(who, threshold, proposal, length_bound)?; }
			Ok(().into())
		}
		#[pallet::call_index(3)]
		#[pallet::weight(T::WeightInfo::vote(0))]
		pub fn vote(origin: OriginFor<T>, proposal: T::Hash, #[pallet::compact] index: ProposalIndex, approve: bool) -> DispatchResultWithPostInfo {
			let who = ensure_signed(origin)?;
			ensure!(Self::members().contains(&who), Error::<T, I>::NotMember);
			let mut v = Self::voting(&proposal).ok_or(Error::<T, I>::ProposalMissing)?;
			ensure!(v.index == index, Error::<T, I>::WrongIndex);
			let (add, other) = if approve { (&mut v.ayes, &mut v.nays) } else { (&mut v.nays, &mut v.ayes) };
			ensure!(!add.contains(&who), Error::<T, I>::DuplicateVote);
			add.push(who.clone());
			other.retain(|x| x != &who);
			Self::deposit_event(Event::Voted { account: who, proposal_hash: proposal, voted: approve, yes: v.ayes.len() as u32, no: v.nays.len() as u32 });
			Voting::<T, I>::insert(&proposal, v);
			Ok(().into())
		}
		#[pallet::call_index(6)]
		#[pallet::weight(T::WeightInfo::close_approved(0, 0, 0))]
		pub fn close(origin: OriginFor<T>, proposal_hash: T::Hash, #[pallet::compact] index: ProposalIndex, proposal_weight_bound: Weight, #[pallet::compact] length_bound: u32) -> DispatchResultWithPostInfo {
			let _ = ensure_signed(origin)?;
			let v = Self::voting(&proposal_hash).ok_or(Error::<T, I>::ProposalMissing)?;
			ensure!(v.index == index, Error::<T, I>::WrongIndex);
			let (mut no, mut yes, seats) = (v.nays.len() as u32, v.ayes.len() as u32, Self::members().len() as u32);
			let mut approved = yes >= v.threshold;
			let mut done = approved || seats.saturating_sub(no) < v.threshold;
			if !done {
				ensure!(frame_system::Pallet::<T>::block_number() >= v.end, Error::<T, I>::TooEarly);
				let prime = Self::prime().map(|w| v.ayes.contains(&w));
				let abst = seats - (yes + no);
				if T::DefaultVote::default_vote(prime, yes, no, seats) { yes += abst } else { no += abst }
				approved = yes >= v.threshold;
				done = true;
			}
			let _ = done;
			let proposal = Self::proposal_of(&proposal_hash).ok_or(Error::<T, I>::ProposalMissing)?;
			if approved {
				ensure!(proposal.encode().len() as u32 <= length_bound, Error::<T, I>::WrongProposalLength);
				ensure!(proposal.get_dispatch_info().weight.all_lte(proposal_weight_bound), Error::<T, I>::WrongProposalWeight);
			}
			Self::deposit_event(Event::Closed { proposal_hash, yes, no });
			if approved {
				Self::deposit_event(Event::Approved { proposal_hash });
				let r = proposal.dispatch(RawOrigin::Members(yes, seats).into());
				Self::deposit_event(Event::Executed { proposal_hash, result: r.map(|_| ()).map_err(|e| e.error) });
			} else {
				Self::deposit_event(Event::Disapproved { proposal_hash });
			}
			ProposalOf::<T, I>::remove(&proposal_hash);
			Voting::<T, I>::remove(&proposal_hash);
			Proposals::<T, I>::mutate(|p| p.retain(|h| h != &proposal_hash));
			Ok(().into())
		}
	}
}
impl<T: Config<I>, I: 'static> Pallet<T, I> {
	pub fn do_propose_proposed(who: T::AccountId, threshold: MemberCount, proposal: Box<<T as Config<I>>::Proposal>, length_bound: MemberCount) -> Result<(u32, u32), DispatchError> {
		let len = proposal.encode().len();
		ensure!(len <= length_bound as usize, Error::<T, I>::WrongProposalLength);
		ensure!(proposal.get_dispatch_info().weight.all_lte(T::MaxProposalWeight::get()), Error::<T, I>::WrongProposalWeight);
		let h = T::Hashing::hash_of(&proposal);
		ensure!(!ProposalOf::<T, I>::contains_key(&h), Error::<T, I>::DuplicateProposal);
		let active = Proposals::<T, I>::try_mutate(|p| -> Result<usize, DispatchError> { p.try_push(h).map_err(|_| Error::<T, I>::TooManyProposals)?; Ok(p.len()) })?;
		let index = Self::proposal_count();
		ProposalCount::<T, I>::put(index + 1);
		ProposalOf::<T, I>::insert(&h, *proposal);
		Voting::<T, I>::insert(&h, Votes { index, threshold, ayes: vec![], nays: vec![], end: frame_system::Pallet::<T>::block_number() + T::MotionDuration::get() });
		Self::deposit_event(Event::Proposed { account: who, proposal_index: index, proposal_hash: h, threshold });
		Ok((len as u32, active as u32))
	}
}
impl<T: Config<I>, I: 'static> ChangeMembers<T::AccountId> for Pallet<T, I> {
	fn change_members_sorted(_i: &[T::AccountId], _o: &[T::AccountId], new: &[T::AccountId]) { Members::<T, I>::put(new.to_vec()) }
}
impl<T: Config<I>, I: 'static> InitializeMembers<T::AccountId> for Pallet<T, I> { fn initialize_members(m: &[T::AccountId]) { let mut m = m.to_vec(); m.sort(); if !m.is_empty() { Members::<T, I>::put(m) } } }
pub struct EnsureMember<A, I: 'static>(PhantomData<(A, I)>);
impl<O: Into<Result<RawOrigin<A, I>, O>> + From<RawOrigin<A, I>>, A, I> EnsureOrigin<O> for EnsureMember<A, I> {
	type Success = A;
	fn try_origin(o: O) -> Result<A, O> { o.into().and_then(|o| match o { RawOrigin::Member(id) => Ok(id), r => Err(O::from(r)) }) }
}
pub struct EnsureMembers<A, I: 'static, const N: u32>(PhantomData<(A, I)>);
impl<O: Into<Result<RawOrigin<A, I>, O>> + From<RawOrigin<A, I>>, A, I, const N: u32> EnsureOrigin<O> for EnsureMembers<A, I, N> {
	type Success = (MemberCount, MemberCount);
	fn try_origin(o: O) -> Result<Self::Success, O> { o.into().and_then(|o| match o { RawOrigin::Members(n, m) if n >= N => Ok((n, m)), r => Err(O::from(r)) }) }
}
pub struct EnsureProportionMoreThan<A, I: 'static, const N: u32, const D: u32>(PhantomData<(A, I)>);
impl<O: Into<Result<RawOrigin<A, I>, O>> + From<RawOrigin<A, I>>, A, I, const N: u32, const D: u32> EnsureOrigin<O> for EnsureProportionMoreThan<A, I, N, D> {
	type Success = ();
	fn try_origin(o: O) -> Result<(), O> { o.into().and_then(|o| match o { RawOrigin::Members(n, m) if n * D > N * m => Ok(()), r => Err(O::from(r)) }) }
}
pub struct EnsureProportionAtLeast<A, I: 'static, const N: u32, const D: u32>(PhantomData<(A, I)>);
impl<O: Into<Result<RawOrigin<A, I>, O>> + From<RawOrigin<A, I>>, A, I, const N: u32, const D: u32> EnsureOrigin<O> for EnsureProportionAtLeast<A, I, N, D> {
	type Success = ();
	fn try_origin(o: O) -> Result<(), O> { o.into().and_then(|o| match o { RawOrigin::Members(n, m) if n * D >= N * m => Ok(()), r => Err(O::from(r)) }) }
}
#[allow(unused)]
fn _u<T: Zero>() {}
