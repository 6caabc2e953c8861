//! Q02: the node's own queries: nonces missing from a pool, and the events of a block.
use super::*;
use world::sp_runtime::traits::Block as BlockT;

type Extrinsic = <Block as BlockT>::Extrinsic;
struct Tx {
	hash: u64,
	valid: ValidTransaction,
}
impl InPoolTransaction for Tx {
	type Transaction = Extrinsic;
	type Hash = u64;
	fn data(&self) -> &Extrinsic {
		unimplemented!("the content of a pooled transaction")
	}
	fn hash(&self) -> &u64 {
		&self.hash
	}
	fn priority(&self) -> &u64 {
		&self.valid.priority
	}
	fn longevity(&self) -> &u64 {
		&self.valid.longevity
	}
	fn requires(&self) -> &[Vec<u8>] {
		&self.valid.requires
	}
	fn provides(&self) -> &[Vec<u8>] {
		&self.valid.provides
	}
	fn is_propagable(&self) -> bool {
		self.valid.propagate
	}
}
#[derive(Default)]
struct Pool {
	ready: Vec<ValidTransaction>,
	future: Vec<ValidTransaction>,
}
impl TransactionPool for Pool {
	type Block = Block;
	type Hash = u64;
	type InPoolTransaction = Tx;
	type Error = ();
	fn ready(&self) -> Box<dyn ReadyTransactions<Item = Arc<Tx>> + Send> {
		Box::new(self.ready.iter().enumerate().map(|(i, v)| Arc::new(Tx { hash: i as u64, valid: v.clone() })).collect::<Vec<_>>().into_iter())
	}
	fn futures(&self) -> Vec<Tx> {
		self.future.iter().enumerate().map(|(i, v)| Tx { hash: 1000 + i as u64, valid: v.clone() }).collect()
	}
	fn hash_of(&self, _: &Extrinsic) -> u64 {
		0
	}
}
fn node(pool: Pool) -> impl FrequencyRpcApiServer<Block, AccountId, u32> {
	FrequencyRpcHandler::<Pool, Node, Block>::new(rpc::node(), Arc::new(pool))
}

pub fn missing(g: &mut Gen) -> R {
	reset_knobs();
	FilterKind::set(2);
	let k: Vec<Key> = (0..4).map(key).collect();
	chain(&k.iter().map(|k| (k.id.clone(), 1_000_000_000u128)).collect::<Vec<_>>(), || {
		let none: fn(u64) -> world::sp_runtime::DispatchResult = |_| Ok(());
		let mut queues: Vec<Vec<ValidTransaction>> = vec![];
		let mut future = vec![];
		let mut want: Vec<Vec<u32>> = vec![];
		// a transaction of this account as the pool knows it
		let tx = |g: &mut Gen, who: &AccountId, n: u32| -> Result<ValidTransaction, String> {
			let c: RuntimeCall = match g.weighted(&[4, 1, 1]) {
				0 => frame_system::Call::<Runtime>::remark { remark: vec![] }.into(),
				1 => pallet_msa::Call::<Runtime>::revoke_delegation_by_delegator { provider_msa_id: 2 }.into(),
				_ => pallet_schemas::Call::<Runtime>::propose_to_create_schema { model: Default::default(), model_type: ModelType::AvroBinary, payload_location: PayloadLocation::OnChain, settings: Default::default() }.into(),
			};
			pool(who, n, &c).or_else(|_| pool(who, n, &frame_system::Call::<Runtime>::remark { remark: vec![1] }.into())).map_err(|e| format!("the pool refuses number {n}: {e:?}"))
		};
		// the first account delegates, so that it can use a call free of charge
		let (m, _) = Msa::create_account(k[0].id.clone(), none).map_err(|e| format!("{e:?}"))?;
		let (p, _) = Msa::create_account(k[1].id.clone(), none).map_err(|e| format!("{e:?}"))?;
		Msa::create_provider_for(p, Default::default()).map_err(|e| format!("{e:?}"))?;
		Msa::add_provider(ProviderId(p), DelegatorId(m), vec![]).map_err(|e| format!("{e:?}"))?;
		for (i, k) in k.iter().enumerate() {
			let n0 = match g.weighted(&[6, 2, 1]) {
				0 => g.below(6) as u32,
				1 => g.uint(250, 260) as u32,
				_ => g.uint(65_530, 65_540) as u32,
			};
			frame_system::Account::<Runtime>::mutate(&k.id, |a| a.nonce = n0);
			let mut at = n0;
			let mut q = vec![];
			for _ in 0..g.weighted(&[3, 2, 2, 1]) {
				q.push(tx(g, &k.id, at)?);
				at += 1;
			}
			let mut waiting: BTreeSet<u32> = BTreeSet::new();
			let mut top = at;
			let mut doubles = 0;
			for _ in 0..g.weighted(&[3, 3, 3, 2, 1]) {
				top += match g.weighted(&[4, 4, 1, 1]) {
					0 => 1,
					1 => g.uint(2, 6) as u32,
					2 => g.uint(250, 1000) as u32,
					_ => g.uint(999, 1002) as u32,
				};
				waiting.insert(top);
				future.push(tx(g, &k.id, top)?);
				// another transaction with the same number, say with a higher tip
				if g.chance(1, 8) {
					future.push(tx(g, &k.id, top)?);
					doubles += 1;
				}
			}
			let lost: Vec<u32> = (at..top).filter(|n| !waiting.contains(n)).take(1000).collect();
			g.note(|| format!("account {i}: next number {n0}, {} ready, waiting {waiting:?} ({doubles} twice)", q.len()));
			if !lost.is_empty() {
				g.nontrivial();
			}
			g.label_if(doubles > 0, "number-twice");
			g.label_if(lost.len() == 1000, "limit-reached");
			want.push(lost);
			queues.push(q);
		}
		// the order across accounts is the pool's
		let mut ready = vec![];
		while queues.iter().any(|q| !q.is_empty()) {
			let i = g.below(4) as usize;
			let i = (0..4).map(|d| (i + d) % 4).find(|i| !queues[*i].is_empty()).unwrap_or(0);
			ready.push(queues[i].remove(0));
		}
		for i in (1..future.len()).rev() {
			future.swap(i, g.below(i as u64 + 1) as usize);
		}
		let h = node(Pool { ready, future });
		for (i, k) in k.iter().enumerate() {
			let got = said(guarded(|| h.get_missing_nonce_values(k.id.clone()))?)?;
			check_eq!(got, want[i], "numbers missing for account {i}");
		}
		let nobody = key(9).id;
		check_eq!(said(guarded(|| h.get_missing_nonce_values(nobody))?)?, Vec::<u32>::new(), "numbers missing for an account without transactions");
		Ok(())
	})
}

pub fn events(g: &mut Gen) -> R {
	reset_knobs();
	FilterKind::set(2);
	let k: Vec<Key> = (0..4).map(key).collect();
	chain(&k.iter().map(|k| (k.id.clone(), 1_000_000_000u128)).collect::<Vec<_>>(), || {
		let none: fn(u64) -> world::sp_runtime::DispatchResult = |_| Ok(());
		let h = node(Pool::default());
		next_block();
		let mut with = 0;
		let mut want: Vec<(Option<u32>, RuntimeEvent)> = events_since(0).into_iter().map(|e| (None, e)).collect();
		for k in &k[..2] {
			Msa::create_account(k.id.clone(), none).map_err(|e| format!("{e:?}"))?;
		}
		let mut i = 0u32;
		g.steps(5, |g, _| {
			let who = &k[g.below(4) as usize].id;
			let c = calls::small(g);
			let phase = if g.chance(1, 40) { g.uint(60, 70_000) as u32 } else { i };
			frame_system::ExecutionPhase::<Runtime>::put(frame_system::Phase::ApplyExtrinsic(phase));
			let from = event_count();
			let a = apply(who, System::account_nonce(who), &c);
			// a call may tell of the same thing several times
			if g.chance(1, 6) {
				if let Some(e) = events_since(from).pop() {
					System::deposit_event(e);
				}
			}
			let new = events_since(from);
			g.note(|| format!("transaction {phase}: {c:?}: {} events, {a:?}", new.len()));
			with += (!new.is_empty()) as u32;
			want.extend(new.into_iter().map(|e| (Some(phase), e)));
			i += 1;
			Ok(())
		})?;
		if g.bool() {
			frame_system::ExecutionPhase::<Runtime>::put(frame_system::Phase::Finalization);
			let from = event_count();
			System::deposit_event(RuntimeEvent::Msa(pallet_msa::Event::MsaCreated { msa_id: g.uint(0, 500), key: k[0].id.clone() }));
			want.extend(events_since(from).into_iter().map(|e| (None, e)));
		}
		frame_system::ExecutionPhase::<Runtime>::kill();
		let got = said(guarded(|| h.get_events(Default::default()))?)?;
		check_eq!(got.len(), want.len(), "number of events of the block");
		for (i, (e, (p, w))) in got.iter().zip(&want).enumerate() {
			check_eq!(e.phase, *p, "transaction event {i} ({w:?}) belongs to");
			let full = [vec![e.pallet, e.event], e.data.clone()].concat();
			check_eq!(RuntimeEvent::decode(&mut &full[..]).ok().as_ref().map(|e| e.encode()), Some(w.encode()), "event {i} as answered, {full:?}");
		}
		if with >= 2 {
			g.nontrivial();
		}
		Ok(())
	})
}
