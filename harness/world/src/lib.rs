//! A runtime made of the repository's pallets, wired as the node's runtime wires them, with limits
//! that a case can choose. The call filters and the capacity call table are the node's own text.
pub use frame_support;
pub use frame_system;
pub use handles_utils;
pub use pallet_balances;
pub use pallet_capacity;
pub use pallet_collective;
pub use pallet_frequency_tx_payment;
pub use pallet_handles;
pub use pallet_messages;
pub use pallet_msa;
pub use pallet_passkey;
pub use pallet_schemas;
pub use pallet_stateful_storage;
pub use pallet_time_release;
pub use pallet_transaction_payment;
pub use pallet_utility;
pub use parity_scale_codec;
pub use common_primitives;
pub use common_runtime;
pub use sp_core;
pub use sp_io;
pub use sp_runtime;

use common_primitives::node::{AccountId, Balance};
use frame_support::{
	construct_runtime,
	dispatch::{DispatchClass, DispatchInfo, DispatchResultWithPostInfo, GetDispatchInfo, Pays, PostDispatchInfo},
	pallet_prelude::*,
	traits::{ConstU16, ConstU32, Contains, EitherOfDiverse, InstanceFilter, EnsureOrigin},
	weights::Weight,
};
use frame_system::{EnsureRoot, EnsureSigned, RawOrigin};
use parity_scale_codec::{Decode, Encode};
use sp_core::{ecdsa, ed25519, sr25519, Pair, H256};
use sp_runtime::{
	traits::{AccountIdLookup, BlakeTwo256, ConvertInto, Dispatchable, SignedExtension},
	transaction_validity::{InvalidTransaction, TransactionSource, TransactionValidityError, UnknownTransaction, ValidTransaction},
	BuildStorage, DispatchError, DispatchResult, MultiAddress, MultiSignature, Perbill,
};

pub mod calls;
pub mod drive;
pub mod grants;
pub use drive::*;

/// Limits a case may choose; each thread has its own.
macro_rules! knobs {
	($($n:ident : $t:ty = $d:expr;)*) => { $(
		#[derive(Clone, Copy, Debug, Default, PartialEq, Eq, Encode, Decode, MaxEncodedLen)]
		pub struct $n;
		impl $n {
			fn cell() -> &'static std::thread::LocalKey<std::cell::Cell<$t>> {
				thread_local!(static V: std::cell::Cell<$t> = const { std::cell::Cell::new($d) });
				&V
			}
			pub fn set(v: $t) { Self::cell().with(|c| c.set(v)) }
			pub fn get() -> $t { Self::cell().with(|c| c.get()) }
		}
		impl frame_support::traits::Get<$t> for $n { fn get() -> $t { $n::get() } }
		impl frame_support::traits::Get<Option<$t>> for $n { fn get() -> Option<$t> { Some($n::get()) } }
	)* 
	/// Every limit back to its default.
	pub fn reset_knobs() { $( $n::set($d); )* }
	};
}
knobs! {
	ExistentialDeposit: Balance = 1;
	MaxPublicKeysPerMsa: u8 = 25;
	MaxSchemaGrants: u32 = 30;
	MaxProviderNameSize: u32 = 16;
	MortalityWindow: u32 = 100;
	HandleMortality: u32 = 100;
	StatefulMortality: u32 = 100;
	MaxSignaturesStored: u32 = 50_000;
	HandleSuffixMin: u16 = 10;
	HandleSuffixMax: u16 = 99;
	MinSchemaModelSize: u32 = 8;
	MaxSchemaBytesLimit: u32 = 65_500;
	MaxSchemaRegistrations: u16 = 65_000;
	MaxSchemaSettings: u32 = 2;
	MaxMessageBytes: u32 = 3072;
	MaxItemizedPageBytes: u32 = 10260;
	MaxPaginatedPageBytes: u32 = 1024;
	MaxItemizedBlobBytes: u32 = 1024;
	MaxPaginatedPageId: u16 = 15;
	MaxItemizedActions: u32 = 5;
	MinimumStakingAmount: Balance = 10;
	MinimumTokenBalance: Balance = 10;
	MaxUnlockingChunks: u32 = 4;
	UnstakingThawPeriod: u16 = 2;
	MaxEpochLength: u32 = 100;
	CapacityPerToken: Perbill = Perbill::from_parts(20_000_000);
	MinReleaseTransfer: Balance = 0;
	MaxReleaseSchedules: u32 = 50;
	MaximumBatch: u8 = 10;
	FeePerByte: Balance = 1;
	FeePerWeight: Balance = 0;
	// 1: fees as on the main network, instead of the two above
	RealFees: u8 = 0;
	BaseWeight: u64 = 0;
	// 0: the filter of the test network, 1: of the main network, 2: no filter
	FilterKind: u8 = 0;
	// The clock of time-released funds (the relay chain's block number on the main network).
	RelayBlock: u32 = 0;
}
impl sp_runtime::traits::BlockNumberProvider for RelayBlock {
	type BlockNumber = u32;
	fn current_block_number() -> u32 {
		RelayBlock::get()
	}
}

/// The node's own call filters and tables, with the feature `frequency` off.
pub mod testnet {
	#![allow(unused_imports, dead_code, ambiguous_glob_reexports)]
	use super::{stubs::*, *};
	use frame_support::pallet_prelude::*;
	include!("../../../wrap/runtime-items/testnet.rs");
}
/// The same with the feature on.
pub mod mainnet {
	#![allow(unused_imports, dead_code, ambiguous_glob_reexports)]
	use super::{stubs::*, *};
	use frame_support::pallet_prelude::*;
	include!("../../../wrap/runtime-items/mainnet.rs");
}

/// Stand-ins for the framework's other pallets: the names of their calls, with no effect.
pub mod stubs {
	macro_rules! stub {
		($m:ident { $($i:tt $c:ident $(: $pays:ident)?),* $(,)? }) => {
			#[frame_support::pallet(dev_mode)]
			pub mod $m {
				use frame_support::pallet_prelude::*;
				use frame_system::pallet_prelude::*;
				#[pallet::pallet]
				pub struct Pallet<T>(_);
				#[pallet::config]
				pub trait Config: frame_system::Config {}
				#[pallet::call]
				impl<T: Config> Pallet<T> {
					$(
						#[pallet::call_index($i)]
						#[pallet::weight(Weight::from_parts(1_000, 0))]
						pub fn $c(_origin: OriginFor<T>, arg: Vec<u8>) -> DispatchResultWithPostInfo {
							let _ = arg;
							Ok(().into())
						}
					)*
				}
			}
			pub use $m as _;
		};
	}
	stub!(pallet_parachain_system { 0 set_validation_data, 1 sudo_send_upward_message, 2 authorize_upgrade, 3 enact_authorized_upgrade });
	stub!(pallet_timestamp { 0 set });
	stub!(pallet_sudo { 0 sudo, 1 sudo_unchecked_weight, 2 set_key, 3 sudo_as });
	stub!(pallet_preimage { 0 note_preimage, 1 unnote_preimage, 2 request_preimage, 3 unrequest_preimage });
	stub!(pallet_democracy { 0 propose, 1 second, 2 vote, 3 emergency_cancel, 4 external_propose, 10 delegate, 11 undelegate, 14 unlock });
	stub!(pallet_scheduler { 0 schedule, 1 cancel, 2 schedule_named, 4 schedule_after });
	stub!(pallet_treasury { 0 propose_spend, 1 reject_proposal, 2 approve_proposal, 3 spend_local });
	stub!(pallet_collator_selection { 0 set_invulnerables, 1 set_desired_candidates, 2 set_candidacy_bond, 3 register_as_candidate, 4 leave_intent, 7 update_bond });
	stub!(pallet_session { 0 set_keys, 1 purge_keys });
	stub!(pallet_multisig { 0 as_multi_threshold_1, 1 as_multi, 2 approve_as_multi, 3 cancel_as_multi });
	stub!(pallet_proxy { 0 proxy, 1 add_proxy, 2 remove_proxy, 3 remove_proxies, 4 create_pure, 5 kill_pure, 6 announce, 7 remove_announcement, 8 reject_announcement, 9 proxy_announced });
}
use stubs::*;

pub type Block = frame_system::mocking::MockBlockU32<Runtime>;
pub use pallet_collective::{Instance1, Instance2};

construct_runtime!(
	pub enum Runtime {
		System: frame_system::{Pallet, Call, Config<T>, Storage, Event<T>} = 0,
		ParachainSystem: pallet_parachain_system::{Pallet, Call} = 1,
		Timestamp: pallet_timestamp::{Pallet, Call} = 2,
		Sudo: pallet_sudo::{Pallet, Call} = 4,
		Preimage: pallet_preimage::{Pallet, Call} = 5,
		Democracy: pallet_democracy::{Pallet, Call} = 6,
		Scheduler: pallet_scheduler::{Pallet, Call} = 8,
		Utility: pallet_utility::{Pallet, Call, Event} = 9,
		Balances: pallet_balances::{Pallet, Call, Storage, Config<T>, Event<T>} = 10,
		TransactionPayment: pallet_transaction_payment::{Pallet, Storage, Event<T>} = 11,
		Council: pallet_collective::<Instance1>::{Pallet, Call, Config<T,I>, Storage, Event<T>, Origin<T>} = 12,
		TechnicalCommittee: pallet_collective::<Instance2>::{Pallet, Call, Config<T,I>, Storage, Event<T>, Origin<T>} = 13,
		Treasury: pallet_treasury::{Pallet, Call} = 14,
		CollatorSelection: pallet_collator_selection::{Pallet, Call} = 21,
		Session: pallet_session::{Pallet, Call} = 22,
		Multisig: pallet_multisig::{Pallet, Call} = 30,
		TimeRelease: pallet_time_release::{Pallet, Call, Storage, Event<T>, Config<T>, FreezeReason} = 40,
		Proxy: pallet_proxy::{Pallet, Call} = 43,
		Msa: pallet_msa::{Pallet, Call, Storage, Event<T>} = 60,
		Messages: pallet_messages::{Pallet, Call, Storage, Event<T>} = 61,
		Schemas: pallet_schemas::{Pallet, Call, Storage, Event<T>, Config<T>} = 62,
		StatefulStorage: pallet_stateful_storage::{Pallet, Call, Storage, Event<T>} = 63,
		Capacity: pallet_capacity::{Pallet, Call, Storage, Event<T>, FreezeReason} = 64,
		FrequencyTxPayment: pallet_frequency_tx_payment::{Pallet, Call, Event<T>} = 65,
		Handles: pallet_handles::{Pallet, Call, Storage, Event<T>} = 66,
		Passkey: pallet_passkey::{Pallet, Call, Storage, Event<T>, ValidateUnsigned} = 67,
	}
);

pub struct Filter;
impl Contains<RuntimeCall> for Filter {
	fn contains(c: &RuntimeCall) -> bool {
		match FilterKind::get() {
			0 => testnet::BaseCallFilter::contains(c),
			1 => mainnet::BaseCallFilter::contains(c),
			_ => true,
		}
	}
}
pub struct BlockWeights;
impl frame_support::traits::Get<frame_system::limits::BlockWeights> for BlockWeights {
	fn get() -> frame_system::limits::BlockWeights {
		frame_system::limits::BlockWeights::builder()
			.base_block(Weight::zero())
			.for_class(DispatchClass::all(), |w| w.base_extrinsic = Weight::from_parts(BaseWeight::get(), 0))
			.for_class(DispatchClass::non_mandatory(), |w| {
				w.max_total = Some(common_runtime::constants::NORMAL_DISPATCH_RATIO * common_runtime::constants::MAXIMUM_BLOCK_WEIGHT)
			})
			.build_or_panic()
	}
}
impl frame_system::Config for Runtime {
	type BaseCallFilter = Filter;
	type BlockWeights = BlockWeights;
	type BlockLength = ();
	type DbWeight = frame_support::weights::constants::RocksDbWeight;
	type RuntimeOrigin = RuntimeOrigin;
	type RuntimeCall = RuntimeCall;
	type Nonce = u32;
	type Block = Block;
	type Hash = H256;
	type Hashing = BlakeTwo256;
	type AccountId = AccountId;
	type Lookup = AccountIdLookup<AccountId, ()>;
	type RuntimeEvent = RuntimeEvent;
	type RuntimeTask = RuntimeTask;
	type BlockHashCount = ConstU32<250>;
	type Version = ();
	type PalletInfo = PalletInfo;
	type AccountData = pallet_balances::AccountData<Balance>;
	type OnNewAccount = ();
	type OnKilledAccount = ();
	type SystemWeightInfo = ();
	type SS58Prefix = ConstU16<42>;
	type OnSetCode = ();
	type MaxConsumers = ConstU32<16>;
}
impl pallet_balances::Config for Runtime {
	type DustRemoval = ();
	type RuntimeEvent = RuntimeEvent;
	type Balance = Balance;
	type MaxLocks = ConstU32<50>;
	type WeightInfo = ();
	type ReserveIdentifier = [u8; 8];
	type ExistentialDeposit = ExistentialDeposit;
	type AccountStore = System;
	type MaxReserves = ConstU32<50>;
	type FreezeIdentifier = RuntimeFreezeReason;
	type RuntimeFreezeReason = RuntimeFreezeReason;
	type MaxFreezes = ConstU32<2>;
	type MaxHolds = ConstU32<2>;
	type RuntimeHoldReason = RuntimeHoldReason;
}
pub struct WFee;
impl frame_support::weights::WeightToFee for WFee {
	type Balance = Balance;
	fn weight_to_fee(w: &Weight) -> Balance {
		if RealFees::get() == 1 {
			return <testnet::WeightToFee as frame_support::weights::WeightToFee>::weight_to_fee(w)
		}
		(w.ref_time() as Balance).saturating_mul(FeePerWeight::get()) / 1_000_000
	}
}
pub struct LFee;
impl frame_support::weights::WeightToFee for LFee {
	type Balance = Balance;
	fn weight_to_fee(w: &Weight) -> Balance {
		if RealFees::get() == 1 {
			return (w.ref_time() as Balance).saturating_mul(<common_runtime::constants::TransactionByteFee as frame_support::traits::Get<Balance>>::get())
		}
		(w.ref_time() as Balance).saturating_mul(FeePerByte::get())
	}
}
impl pallet_transaction_payment::Config for Runtime {
	type RuntimeEvent = RuntimeEvent;
	type OnChargeTransaction = pallet_transaction_payment::CurrencyAdapter<Balances, ()>;
	type WeightToFee = WFee;
	type LengthToFee = LFee;
	type FeeMultiplierUpdate = ();
	type OperationalFeeMultiplier = frame_support::traits::ConstU8<5>;
}
impl pallet_utility::Config for Runtime {
	type RuntimeEvent = RuntimeEvent;
	type RuntimeCall = RuntimeCall;
	type PalletsOrigin = OriginCaller;
	type WeightInfo = ();
}
impl pallet_parachain_system::Config for Runtime {}
impl pallet_timestamp::Config for Runtime {}
impl pallet_sudo::Config for Runtime {}
impl pallet_preimage::Config for Runtime {}
impl pallet_democracy::Config for Runtime {}
impl pallet_scheduler::Config for Runtime {}
impl pallet_treasury::Config for Runtime {}
impl pallet_collator_selection::Config for Runtime {}
impl pallet_session::Config for Runtime {}
impl pallet_multisig::Config for Runtime {}
impl pallet_proxy::Config for Runtime {}

pub type CouncilCollective = pallet_collective::Instance1;
pub type TechnicalCommitteeCollective = pallet_collective::Instance2;
macro_rules! collective {
	($i:ident) => {
		impl pallet_collective::Config<pallet_collective::$i> for Runtime {
			type RuntimeOrigin = RuntimeOrigin;
			type Proposal = RuntimeCall;
			type RuntimeEvent = RuntimeEvent;
			type MotionDuration = ConstU32<100>;
			type MaxProposals = ConstU32<25>;
			type MaxMembers = ConstU32<10>;
			type DefaultVote = pallet_collective::PrimeDefaultVote;
			type WeightInfo = ();
			type SetMembersOrigin = EnsureRoot<AccountId>;
			type MaxProposalWeight = MaxProposalWeight;
		}
	};
}
pub struct MaxProposalWeight;
impl frame_support::traits::Get<Weight> for MaxProposalWeight {
	fn get() -> Weight {
		Weight::from_parts(u64::MAX, u64::MAX)
	}
}
collective!(Instance1);
collective!(Instance2);

impl pallet_msa::Config for Runtime {
	type RuntimeEvent = RuntimeEvent;
	type WeightInfo = ();
	type ConvertIntoAccountId32 = ConvertInto;
	type MaxPublicKeysPerMsa = MaxPublicKeysPerMsa;
	type MaxSchemaGrantsPerDelegation = MaxSchemaGrants;
	type MaxProviderNameSize = MaxProviderNameSize;
	type SchemaValidator = Schemas;
	type HandleProvider = Handles;
	type MortalityWindowSize = MortalityWindow;
	type MaxSignaturesStored = MaxSignaturesStored;
	type Proposal = RuntimeCall;
	type ProposalProvider = testnet::CouncilProposalProvider;
	type CreateProviderViaGovernanceOrigin = testnet::origins::pallet_msa::CreateProviderViaGovernanceOrigin;
}
impl pallet_handles::Config for Runtime {
	type RuntimeEvent = RuntimeEvent;
	type WeightInfo = ();
	type ConvertIntoAccountId32 = ConvertInto;
	type MsaInfoProvider = Msa;
	type HandleSuffixMin = HandleSuffixMin;
	type HandleSuffixMax = HandleSuffixMax;
	type MortalityWindowSize = HandleMortality;
}
impl pallet_schemas::Config for Runtime {
	type RuntimeEvent = RuntimeEvent;
	type WeightInfo = ();
	type MinSchemaModelSizeBytes = MinSchemaModelSize;
	type SchemaModelMaxBytesBoundedVecLimit = MaxSchemaBytesLimit;
	type MaxSchemaRegistrations = MaxSchemaRegistrations;
	type MaxSchemaSettingsPerSchema = MaxSchemaSettings;
	type Proposal = RuntimeCall;
	type ProposalProvider = testnet::CouncilProposalProvider;
	type CreateSchemaViaGovernanceOrigin = testnet::origins::pallet_schemas::CreateSchemaViaGovernanceOrigin;
}
impl pallet_messages::Config for Runtime {
	type RuntimeEvent = RuntimeEvent;
	type WeightInfo = ();
	type MsaInfoProvider = Msa;
	type SchemaGrantValidator = Msa;
	type SchemaProvider = Schemas;
	type MessagesMaxPayloadSizeBytes = MaxMessageBytes;
}
impl pallet_stateful_storage::Config for Runtime {
	type RuntimeEvent = RuntimeEvent;
	type WeightInfo = ();
	type MsaInfoProvider = Msa;
	type SchemaGrantValidator = Msa;
	type SchemaProvider = Schemas;
	type MaxItemizedPageSizeBytes = MaxItemizedPageBytes;
	type MaxPaginatedPageSizeBytes = MaxPaginatedPageBytes;
	type MaxItemizedBlobSizeBytes = MaxItemizedBlobBytes;
	type MaxPaginatedPageId = MaxPaginatedPageId;
	type MaxItemizedActionsCount = MaxItemizedActions;
	type KeyHasher = frame_support::Twox128;
	type ConvertIntoAccountId32 = ConvertInto;
	type MortalityWindowSize = StatefulMortality;
}
impl pallet_capacity::Config for Runtime {
	type RuntimeEvent = RuntimeEvent;
	type WeightInfo = ();
	type Currency = Balances;
	type MinimumStakingAmount = MinimumStakingAmount;
	type MinimumTokenBalance = MinimumTokenBalance;
	type TargetValidator = Msa;
	type MaxUnlockingChunks = MaxUnlockingChunks;
	type UnstakingThawPeriod = UnstakingThawPeriod;
	type MaxEpochLength = MaxEpochLength;
	type EpochNumber = u32;
	type CapacityPerToken = CapacityPerToken;
	type RuntimeFreezeReason = RuntimeFreezeReason;
}
impl pallet_time_release::Config for Runtime {
	type RuntimeEvent = RuntimeEvent;
	type Balance = Balance;
	type Currency = Balances;
	type MinReleaseTransfer = MinReleaseTransfer;
	type TransferOrigin = testnet::origins::pallet_time_release::TransferOrigin;
	type WeightInfo = ();
	type MaxReleaseSchedules = MaxReleaseSchedules;
	type BlockNumberProvider = RelayBlock;
	type RuntimeFreezeReason = RuntimeFreezeReason;
}
impl pallet_frequency_tx_payment::Config for Runtime {
	type RuntimeEvent = RuntimeEvent;
	type RuntimeCall = RuntimeCall;
	type Capacity = Capacity;
	type WeightInfo = ();
	type CapacityCalls = testnet::CapacityEligibleCalls;
	type OnChargeCapacityTransaction = pallet_frequency_tx_payment::CapacityAdapter<Balances, Msa>;
	type BatchProvider = testnet::CapacityBatchProvider;
	type MaximumCapacityBatchLength = MaximumBatch;
}
impl pallet_passkey::Config for Runtime {
	type RuntimeEvent = RuntimeEvent;
	type RuntimeCall = RuntimeCall;
	type WeightInfo = ();
	type ConvertIntoAccountId32 = ConvertInto;
	type PasskeyCallFilter = testnet::PasskeyCallFilter;
}
