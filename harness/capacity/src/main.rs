//! C01-C04: histories of staking, unstaking, withdrawing, spending and refilling over epochs
//! against a reference ledger.
use engine::{aspect, check, check_eq, Gen, Property, R};
use std::collections::{BTreeMap, BTreeSet};
use world::common_primitives::capacity::{Nontransferable, Replenishable};
use world::frame_support::traits::fungible::{Inspect, InspectFreeze};
use world::pallet_capacity::{Event, FreezeReason};
use world::sp_runtime::Perbill;
use world::*;

type Call = pallet_capacity::Call<Runtime>;
const NONE: fn(u64) -> world::sp_runtime::DispatchResult = |_| Ok(());

#[derive(Clone, Debug, Default, PartialEq)]
struct Staker {
	free: u128,
	active: u128,
	/// value, epoch from which it can be withdrawn
	unlocking: Vec<(u128, u32)>,
	/// amount, capacity issued for it
	targets: BTreeMap<u64, (u128, u128)>,
}
impl Staker {
	fn waiting(&self) -> u128 {
		self.unlocking.iter().map(|x| x.0).sum()
	}
	fn frozen(&self) -> u128 {
		self.active + self.waiting()
	}
}
#[derive(Clone, Debug, Default, PartialEq)]
struct Provider {
	remaining: u128,
	staked: u128,
	issued: u128,
	refilled: u32,
}
struct W {
	keys: Vec<Key>,
	stakers: Vec<Staker>,
	registered: Vec<u64>,
	/// all accounts, providers or not
	accounts: Vec<u64>,
	providers: BTreeMap<u64, Provider>,
	epoch: u32,
	epoch_start: u32,
	epoch_length: u32,
	stakes: u32,
	unstakes: u32,
	withdrawals: u32,
	refused: u32,
	spent: u32,
	refills: u32,
	epochs: u32,
}
fn frozen_for_staking(k: &Key) -> u128 {
	<Balances as InspectFreeze<_>>::balance_frozen(&RuntimeFreezeReason::Capacity(FreezeReason::CapacityStaking), &k.id)
}
fn free(k: &Key) -> u128 {
	<Balances as Inspect<_>>::balance(&k.id)
}
impl W {
	/// The whole ledger as the pallet reports it.
	fn agrees(&self) -> R {
		let mut sums: BTreeMap<u64, (u128, u128)> = BTreeMap::new();
		for (i, (k, s)) in self.keys.iter().zip(&self.stakers).enumerate() {
			check_eq!(frozen_for_staking(k), s.frozen(), "tokens of staker {i} frozen for staking (active {}, unlocking {:?})", s.active, s.unlocking);
			check_eq!(free(k), s.free, "balance of staker {i}");
			check_eq!(Capacity::get_staking_account_for(&k.id).map_or(0, |x| x.active), s.active, "active stake of staker {i}");
			let waiting: Vec<(u128, u32)> = Capacity::get_unstake_unlocking_for(&k.id).map_or(vec![], |l| l.iter().map(|c| (c.value, c.thaw_at)).collect());
			check_eq!(waiting, s.unlocking, "unlocking portions of staker {i}");
			check!(waiting.len() <= MaxUnlockingChunks::get() as usize, "staker {i} has {} unlocking portions, limit {}", waiting.len(), MaxUnlockingChunks::get());
			let mut sum = 0;
			for m in self.accounts.iter().cloned().chain(0..8u64).collect::<BTreeSet<_>>() {
				let t = Capacity::get_target_for(&k.id, m).map(|t| (t.amount, t.capacity));
				check_eq!(t, s.targets.get(&m).cloned(), "stake of staker {i} for {m}");
				if let Some((a, c)) = t {
					sum += a;
					let x = sums.entry(m).or_default();
					x.0 += a;
					x.1 += c;
				}
			}
			check_eq!(sum, s.active, "sum of the stakes of staker {i}");
		}
		for m in self.accounts.iter().cloned().chain(0..8u64).collect::<BTreeSet<_>>() {
			let got = Capacity::get_capacity_for(m).map(|c| Provider { remaining: c.remaining_capacity, staked: c.total_tokens_staked, issued: c.total_capacity_issued, refilled: c.last_replenished_epoch });
			check_eq!(got, self.providers.get(&m).cloned(), "capacity of provider {m}");
			if let Some(p) = got {
				check_eq!((p.staked, p.issued), sums.get(&m).cloned().unwrap_or_default(), "staked total and issued capacity of provider {m}, as sums over its stakers");
				check!(p.remaining <= p.issued, "provider {m} has {} of {} issued capacity", p.remaining, p.issued);
			}
			check_eq!(<Capacity as Nontransferable>::balance(m), self.providers.get(&m).map_or(0, |p| p.remaining), "capacity balance of provider {m}");
			check_eq!(<Capacity as Replenishable>::can_replenish(m), self.providers.get(&m).map_or(false, |p| p.refilled < self.epoch), "provider {m} can refill in epoch {}", self.epoch);
		}
		check_eq!(Capacity::get_current_epoch(), self.epoch, "epoch at block {} (length {}, started at {})", block(), self.epoch_length, self.epoch_start);
		check_eq!(Capacity::get_epoch_length(), self.epoch_length, "epoch length");
		Ok(())
	}
	fn supply(&self) -> u128 {
		self.stakers.iter().map(|s| s.free).sum()
	}
	fn tick(&mut self, g: &mut Gen) -> R {
		next_block();
		if block() - self.epoch_start >= self.epoch_length {
			self.epoch += 1;
			self.epoch_start = block();
			self.epochs += 1;
		}
		g.note(|| format!("block {} epoch {}", block(), self.epoch));
		check_eq!(Capacity::get_current_epoch(), self.epoch, "epoch at block {} (length {}, last started at {})", block(), self.epoch_length, self.epoch_start);
		Ok(())
	}
	fn refusal(&mut self, before: u64, what: &str) -> R {
		self.refused += 1;
		check_eq!(state(), before, "state after a refused {what}");
		Ok(())
	}
	fn stake(&mut self, g: &mut Gen, i: usize, target: u64, amount: u128) -> R {
		let s = &self.stakers[i];
		let stakable = amount.min(s.free.saturating_sub(MinimumTokenBalance::get()).saturating_sub(s.frozen()));
		let want = self.registered.contains(&target) && stakable > 0 && s.active + stakable >= MinimumStakingAmount::get();
		let (before, events) = (state(), event_count());
		let o = call(&self.keys[i].id, Call::stake { target, amount });
		g.note(|| format!("{i} stakes {amount} for {target} (free {}, frozen {}): {}", s.free, s.frozen(), why(&o)));
		check_eq!(o.is_ok(), want, "staker {i} stakes {amount} for {target} with {} free and {} frozen, minimum stake {}, kept {} ({})", s.free, s.frozen(), MinimumStakingAmount::get(), MinimumTokenBalance::get(), why(&o));
		if !want {
			return self.refusal(before, "stake");
		}
		self.stakes += 1;
		let had = s.targets.get(&target).map_or(0, |t| t.1);
		let now = Capacity::get_target_for(&self.keys[i].id, target).map_or(0, |t| t.capacity);
		check!(now >= had, "staking lowers the capacity from {had} to {now}");
		let capacity = now - had;
		// the ratio is given in parts of a thousand million; rounded to the nearest unit
		let parts = CapacityPerToken::get().deconstruct() as u128;
		let exact = |x: u128| (x / 1_000_000_000 * parts, x % 1_000_000_000 * parts);
		let (whole, rest) = exact(stakable);
		let low = whole + rest / 1_000_000_000;
		let part = rest % 1_000_000_000;
		check!((capacity == low && part <= 500_000_000) || (capacity == low + 1 && part >= 500_000_000), "staking {stakable} issues {capacity} capacity, the ratio gives {low} and {part} parts of a thousand million");
		let got: Vec<String> = events_since(events).iter().filter(|e| matches!(e, RuntimeEvent::Capacity(_))).map(|e| format!("{e:?}")).collect();
		let want = vec![format!("{:?}", RuntimeEvent::from(Event::Staked { account: self.keys[i].id.clone(), target, amount: stakable, capacity }))];
		check_eq!(got, want, "events of a stake");
		let s = &mut self.stakers[i];
		s.active += stakable;
		let t = s.targets.entry(target).or_default();
		t.0 += stakable;
		t.1 += capacity;
		let p = self.providers.entry(target).or_default();
		p.staked += stakable;
		p.issued += capacity;
		p.remaining += capacity;
		check!(s.free >= s.frozen() + MinimumTokenBalance::get(), "after staking, {} of {} are frozen; {} must stay spendable", s.frozen(), s.free, MinimumTokenBalance::get());
		Ok(())
	}
	fn unstake(&mut self, g: &mut Gen, i: usize, target: u64, amount: u128) -> R {
		let s = &self.stakers[i];
		let (staked, own) = s.targets.get(&target).cloned().unwrap_or_default();
		let want = amount > 0 && amount <= staked && s.unlocking.len() < MaxUnlockingChunks::get() as usize;
		let (before, events) = (state(), event_count());
		let o = call(&self.keys[i].id, Call::unstake { target, requested_amount: amount });
		g.note(|| format!("{i} unstakes {amount} of {staked} from {target}: {}", why(&o)));
		check_eq!(o.is_ok(), want, "staker {i} unstakes {amount} from {target} where {staked} are staked (active {}, {} portions unlocking) ({})", s.active, s.unlocking.len(), why(&o));
		if !want {
			return self.refusal(before, "unstake");
		}
		self.unstakes += 1;
		// a remainder of at most the minimum is unstaked too
		let actual = if s.active - amount <= MinimumStakingAmount::get() { staked } else { amount };
		let p = self.providers.get(&target).cloned().unwrap_or_default();
		let now = Capacity::get_target_for(&self.keys[i].id, target).map_or(0, |t| t.capacity);
		check!(now <= own, "unstaking raises the capacity of the stake from {own} to {now}");
		let reduction = own - now;
		if actual == staked {
			check_eq!(reduction, own, "capacity taken for unstaking all of {staked}");
		} else {
			// in proportion to the provider's totals, but never more than the staker's own
			let share = mul_div(p.issued, actual, p.staked);
			// the share is computed in parts of a thousand million, from numbers shortened to as many
			let slack = p.issued / 200_000_000 + 2;
			// where the numbers are small enough for that not to matter, a part of a unit counts whole:
			// unstaking in small steps must not leave more than unstaking at once
			let small = p.issued.checked_mul(p.staked).map_or(false, |x| x < 1_000_000_000);
			if small {
				let whole = (p.issued * actual).div_ceil(p.staked);
				check_eq!(reduction, whole.min(own), "capacity taken for unstaking {actual} of {} staked in total, which issued {} (own {own})", p.staked, p.issued);
			}
			let low = share.saturating_sub(slack).min(own);
			let high = (share + slack).min(own);
			check!(low <= reduction && reduction <= high, "unstaking {actual} of {} staked in total takes {reduction} of {} capacity, in proportion {share} (own {own})", p.staked, p.issued);
		}
		let got: Vec<String> = events_since(events).iter().filter(|e| matches!(e, RuntimeEvent::Capacity(_))).map(|e| format!("{e:?}")).collect();
		let want = vec![format!("{:?}", RuntimeEvent::from(Event::UnStaked { account: self.keys[i].id.clone(), target, amount: actual, capacity: reduction }))];
		check_eq!(got, want, "events of an unstake");
		let thaw = self.epoch + UnstakingThawPeriod::get() as u32;
		let s = &mut self.stakers[i];
		s.active -= actual;
		s.unlocking.push((actual, thaw));
		let t = s.targets.entry(target).or_default();
		t.0 -= actual;
		t.1 -= reduction;
		if t.0 == 0 {
			s.targets.remove(&target);
		}
		let p = self.providers.entry(target).or_default();
		p.staked -= actual;
		p.issued = p.issued.checked_sub(reduction).ok_or("more capacity taken than issued")?;
		p.remaining = p.remaining.saturating_sub(reduction);
		Ok(())
	}
	fn withdraw(&mut self, g: &mut Gen, i: usize) -> R {
		let s = &self.stakers[i];
		let thawed: u128 = s.unlocking.iter().filter(|x| x.1 <= self.epoch).map(|x| x.0).sum();
		let (before, events) = (state(), event_count());
		let o = call(&self.keys[i].id, Call::withdraw_unstaked {});
		g.note(|| format!("{i} withdraws ({thawed} thawed): {}", why(&o)));
		check_eq!(o.is_ok(), thawed > 0, "staker {i} withdraws with {thawed} thawed in epoch {} of {:?} ({})", self.epoch, s.unlocking, why(&o));
		if thawed == 0 {
			return self.refusal(before, "withdrawal");
		}
		self.withdrawals += 1;
		let got: Vec<String> = events_since(events).iter().filter(|e| matches!(e, RuntimeEvent::Capacity(_))).map(|e| format!("{e:?}")).collect();
		let want = vec![format!("{:?}", RuntimeEvent::from(Event::StakeWithdrawn { account: self.keys[i].id.clone(), amount: thawed }))];
		check_eq!(got, want, "events of a withdrawal");
		let epoch = self.epoch;
		self.stakers[i].unlocking.retain(|x| x.1 > epoch);
		Ok(())
	}
	fn spend(&mut self, g: &mut Gen, m: u64, amount: u128) -> R {
		let before = state();
		let r = <Capacity as Nontransferable>::deduct(m, amount);
		g.note(|| format!("{m} spends {amount}: {}", r.is_ok()));
		let want = self.providers.get(&m).map_or(false, |p| p.remaining >= amount);
		check_eq!(r.is_ok(), want, "provider {m} spends {amount} of {:?}", self.providers.get(&m));
		match self.providers.get_mut(&m) {
			Some(p) if want => {
				p.remaining -= amount;
				if amount > 0 {
					self.spent += 1;
				}
				Ok(())
			},
			_ => self.refusal(before, "deduction"),
		}
	}
	fn refill(&mut self, g: &mut Gen, m: u64) -> R {
		let can = self.providers.get(&m).map_or(false, |p| p.refilled < self.epoch);
		check_eq!(<Capacity as Replenishable>::can_replenish(m), can, "provider {m} can refill in epoch {}: {:?}", self.epoch, self.providers.get(&m));
		if can {
			let r = <Capacity as Replenishable>::replenish_all_for(m);
			g.note(|| format!("{m} refills: {}", r.is_ok()));
			check!(r.is_ok(), "refilling {m} failed");
			self.refills += 1;
			let e = self.epoch;
			if let Some(p) = self.providers.get_mut(&m) {
				p.remaining = p.issued;
				p.refilled = e;
			}
		}
		Ok(())
	}
	fn set_length(&mut self, g: &mut Gen, n: u32, root: bool) -> R {
		let before = state();
		let o = if root { call_root(Call::set_epoch_length { length: n }) } else { call(&self.keys[0].id, Call::set_epoch_length { length: n }) };
		g.note(|| format!("epoch length {n} by {}: {}", if root { "root" } else { "a user" }, why(&o)));
		let want = root && n <= MaxEpochLength::get();
		check_eq!(o.is_ok(), want, "epoch length {n} set by root: {root}, limit {} ({})", MaxEpochLength::get(), why(&o));
		if want {
			self.epoch_length = n;
			Ok(())
		} else {
			self.refusal(before, "change of the epoch length")
		}
	}
}
/// a * b / c for b <= c, without overflow
fn mul_div(a: u128, b: u128, c: u128) -> u128 {
	if c == 0 {
		return 0;
	}
	match a.checked_mul(b) {
		Some(x) => x / c,
		None => {
			// schoolbook, bit by bit
			let (mut q, mut r) = (0u128, 0u128);
			for i in (0..128).rev() {
				q <<= 1;
				r <<= 1;
				if (a >> i) & 1 == 1 {
					r += b;
				}
				if r >= c {
					q += r / c;
					r %= c;
				}
			}
			q
		},
	}
}

#[derive(Clone, Copy, PartialEq)]
enum Focus {
	Frozen,
	Ledger,
	Refill,
	Thaw,
}
fn history(g: &mut Gen, f: Focus) -> R {
	reset_knobs();
	let scale: u128 = *g.pick(&[1, 1, 1000, 100_000_000, 1_000_000_000_000_000]);
	MinimumStakingAmount::set(*g.pick(&[1, 5, 10, 50]) * scale);
	MinimumTokenBalance::set(*g.pick(&[1, 10, 40]) * scale);
	MaxUnlockingChunks::set(*g.pick(&[4, 1, 2, 8]));
	UnstakingThawPeriod::set(*g.pick(&[2, 0, 1, 3, 30]));
	MaxEpochLength::set(*g.pick(&[100, 3, 10]));
	CapacityPerToken::set(Perbill::from_parts(*g.pick(&[20_000_000, 1_000_000_000, 333_333_333, 500_000_000, 1, 0])));
	let n = g.usize(1, 4);
	let keys: Vec<Key> = (0..n as u32).map(key).collect();
	let balances: Vec<u128> = keys
		.iter()
		.map(|_| match g.weighted(&[6, 2, 1, 1]) {
			0 => g.uint(50, 500) as u128 * scale,
			1 => g.uint(500, 100_000) as u128 * scale,
			2 => g.uint(1, 60) as u128 * scale,
			_ => MinimumTokenBalance::get() + MinimumStakingAmount::get(),
		})
		.collect();
	let genesis: Vec<_> = keys.iter().zip(&balances).map(|(k, b)| (k.id.clone(), *b)).collect();
	let mut w = W {
		stakers: balances.iter().map(|b| Staker { free: *b, ..Default::default() }).collect(),
		keys,
		registered: vec![],
		accounts: vec![],
		providers: BTreeMap::new(),
		epoch: 0,
		epoch_start: 0,
		epoch_length: 100,
		stakes: 0,
		unstakes: 0,
		withdrawals: 0,
		refused: 0,
		spent: 0,
		refills: 0,
		epochs: 0,
	};
	let r = chain(&genesis, || -> R {
		// accounts 1.. of which the first few are providers
		let accounts = g.usize(1, 4);
		let providers = g.usize(1, accounts);
		for i in 0..accounts {
			scatter_accounts(g);
			let (m, _) = Msa::create_account(key(100 + i as u32).id, NONE).map_err(|_| "no account")?;
			w.accounts.push(m);
			if i < providers {
				Msa::create_provider_for(m, b"p".to_vec()).map_err(|_| "no provider")?;
				w.registered.push(m);
			}
		}
		w.epoch = Capacity::get_current_epoch();
		w.epoch_start = Capacity::get_current_epoch_info().epoch_start;
		w.epoch_length = Capacity::get_epoch_length();
		let length = g.uint(1, 4) as u32;
		w.set_length(g, length.min(MaxEpochLength::get()), true)?;
		let supply = w.supply();
		let weights: &[u64] = match f {
			Focus::Frozen => &[30, 22, 12, 16, 8, 2, 2, 1],
			Focus::Ledger => &[36, 32, 5, 10, 2, 4, 4, 1],
			Focus::Refill => &[12, 6, 2, 30, 1, 24, 20, 4],
			Focus::Thaw => &[20, 24, 24, 28, 1, 1, 1, 2],
		};
		g.steps(40, |g, _| {
			let i = g.usize(0, w.keys.len() - 1);
			match g.weighted(weights) {
				0 => {
					let target = if g.chance(1, 15) { if g.bool() { g.uint(0, 7) } else { *g.pick(&w.accounts) } } else { *g.pick(&w.registered) };
					let s = &w.stakers[i];
					let room = s.free.saturating_sub(MinimumTokenBalance::get()).saturating_sub(s.frozen());
					let amount = match g.weighted(&[10, 3, 2, 1, 1]) {
						0 => g.int_u128(room),
						1 => room,
						2 => MinimumStakingAmount::get().saturating_sub(g.below(2) as u128),
						3 => *g.pick(&[0, 1, u128::MAX, s.free, room + 1]),
						_ => g.int_u128(s.free * 2),
					};
					w.stake(g, i, target, amount)?;
				},
				1 => {
					let mine: Vec<u64> = w.stakers[i].targets.keys().cloned().collect();
					let target = if mine.is_empty() || g.chance(1, 15) { if g.bool() { g.uint(0, 7) } else { *g.pick(&w.accounts) } } else { *g.pick(&mine) };
					let s = &w.stakers[i];
					let here = s.targets.get(&target).map_or(0, |t| t.0);
					let amount = match g.weighted(&[10, 4, 2, 2, 1]) {
						0 => g.int_u128(here),
						1 => here,
						2 => s.active.saturating_sub(MinimumStakingAmount::get()).saturating_sub(g.below(3) as u128).saturating_add(1),
						3 => *g.pick(&[0, 1, here + 1, s.active, u128::MAX]),
						_ => g.int_u128(s.active + 1),
					};
					w.unstake(g, i, target, amount)?;
				},
				2 => w.withdraw(g, i)?,
				3 =>
					for _ in 0..if g.chance(1, 6) { g.uint(2, 40) } else { 1 } {
						w.tick(g)?;
					},
				4 => {
					let j = g.usize(0, w.keys.len() - 1);
					let room = w.stakers[i].free.saturating_sub(w.stakers[i].frozen().max(1));
					let amount = if g.chance(1, 5) { g.int_u128(w.stakers[i].free) } else { g.int_u128(room) };
					let o = call(&w.keys[i].id, world::pallet_balances::Call::<Runtime>::transfer_keep_alive { dest: w.keys[j].id.clone().into(), value: amount });
					g.note(|| format!("{i} sends {amount} to {j}: {}", why(&o)));
					if o.is_ok() && i != j {
						check!(amount <= room, "{amount} sent by staker {i} with {} free and {} frozen", w.stakers[i].free, w.stakers[i].frozen());
						w.stakers[i].free -= amount;
						w.stakers[j].free += amount;
					} else if i != j {
						check!(amount > room, "sending {amount} with {} free and {} frozen was refused: {}", w.stakers[i].free, w.stakers[i].frozen(), why(&o));
					}
				},
				5 => {
					let m = if g.chance(1, 10) { if g.bool() { g.uint(0, 7) } else { *g.pick(&w.accounts) } } else { *g.pick(&w.registered) };
					let have = w.providers.get(&m).map_or(0, |p| p.remaining);
					let amount = match g.weighted(&[6, 2, 1]) {
						0 => g.int_u128(have),
						1 => have,
						_ => have + 1,
					};
					w.spend(g, m, amount)?;
				},
				6 => {
					let m = if g.chance(1, 10) { if g.bool() { g.uint(0, 7) } else { *g.pick(&w.accounts) } } else { *g.pick(&w.registered) };
					w.refill(g, m)?;
				},
				_ => {
					let n = match g.weighted(&[6, 2, 1]) {
						0 => g.uint(0, 8) as u32,
						1 => MaxEpochLength::get() + g.below(2) as u32,
						_ => u32::MAX,
					};
					let root = g.chance(3, 4);
					w.set_length(g, n, root)?;
				},
			}
			w.agrees()
		})?;
		check_eq!(w.supply(), supply, "sum of all balances");
		check_eq!(<Balances as Inspect<_>>::total_issuance(), supply, "total issuance");
		if f == Focus::Frozen || f == Focus::Thaw {
			recover(g, &mut w)?;
		}
		Ok(())
	});
	g.label_if(w.refused > 0, "refusals");
	g.label_if(w.stakers.iter().any(|s| s.targets.len() > 1), "stakes with several providers");
	let enough = match f {
		Focus::Frozen => w.stakes >= 1 && w.unstakes >= 1,
		Focus::Ledger => w.stakes >= 2 && w.unstakes >= 1,
		Focus::Refill => w.spent >= 1 && w.refills >= 1,
		Focus::Thaw => w.unstakes >= 1 && w.withdrawals >= 1,
	};
	if enough {
		g.nontrivial();
	}
	r
}
/// Everybody gets everything back.
fn recover(g: &mut Gen, w: &mut W) -> R {
	g.note(|| "everybody leaves".to_string());
	w.set_length(g, 1, true)?;
	for i in 0..w.keys.len() {
		for _ in 0..60 {
			let Some((target, (amount, _))) = w.stakers[i].targets.iter().next().map(|(k, v)| (*k, *v)) else { break };
			if w.stakers[i].unlocking.len() < MaxUnlockingChunks::get() as usize {
				w.unstake(g, i, target, amount)?;
			} else {
				for _ in 0..=UnstakingThawPeriod::get() {
					w.tick(g)?;
				}
				w.withdraw(g, i)?;
			}
		}
	}
	for _ in 0..=UnstakingThawPeriod::get() {
		w.tick(g)?;
	}
	for i in 0..w.keys.len() {
		if !w.stakers[i].unlocking.is_empty() {
			w.withdraw(g, i)?;
		}
		check_eq!(frozen_for_staking(&w.keys[i]), 0, "tokens of staker {i} frozen after everything was unstaked and withdrawn");
		check_eq!(Capacity::get_staking_account_for(&w.keys[i].id).is_some(), false, "staker {i} is still recorded");
		check_eq!(Capacity::get_unstake_unlocking_for(&w.keys[i].id).is_some(), false, "staker {i} still has unlocking portions");
	}
	for (m, p) in &w.providers {
		check_eq!((p.staked, p.issued, p.remaining), (0, 0, 0), "capacity of provider {m} after everybody left");
	}
	w.agrees()
}
fn c01(g: &mut Gen) -> R {
	history(g, Focus::Frozen)
}
fn c02(g: &mut Gen) -> R {
	history(g, Focus::Ledger)
}
fn c03(g: &mut Gen) -> R {
	history(g, Focus::Refill)
}
/// What other pallets are offered: the two capacity traits, over providers with and without capacity.
fn interface(g: &mut Gen) -> R {
	use world::pallet_capacity::CapacityDetails;
	reset_knobs();
	let ratio = *g.pick(&[20_000_000u32, 1_000_000_000, 333_333_333, 1, 500_000_000]);
	CapacityPerToken::set(Perbill::from_parts(ratio));
	chain(&[(key(0).id, 1_000_000)], || {
		let base = *g.pick(&[0u64, 1 << 8, 1 << 32, u64::MAX - 8]);
		let ids: Vec<u64> = (1..=4).map(|i| base + i).collect();
		let big = |g: &mut Gen| match g.weighted(&[6, 2, 1]) {
			0 => g.int_u128(1_000),
			1 => g.int_u128(u64::MAX as u128 * 4),
			_ => g.int_u128(1 << 100),
		};
		let mut model: BTreeMap<u64, Provider> = BTreeMap::new();
		for m in &ids[..3] {
			let (staked, issued) = (big(g), big(g));
			let p = Provider { remaining: if g.bool() { issued } else { g.int_u128(issued) }, staked, issued, refilled: 0 };
			Capacity::set_capacity_for(*m, CapacityDetails { remaining_capacity: p.remaining, total_tokens_staked: p.staked, total_capacity_issued: p.issued, last_replenished_epoch: 0 });
			model.insert(*m, p);
		}
		check!(ok(&call_root(Call::set_epoch_length { length: g.uint(1, 4) as u32 })), "root sets the epoch length");
		let mut done = 0;
		g.steps(20, |g, _| {
			let m = *g.pick(&ids);
			let before = state();
			let p = model.get_mut(&m);
			let what = g.below(6);
			let (amount, epoch) = (big(g), Capacity::get_current_epoch());
			let (r, want, name) = match what {
				0 => {
					let amount = match (&p, g.bool()) {
						(Some(p), true) => p.remaining.saturating_add(g.below(3) as u128).saturating_sub(1),
						_ => amount,
					};
					let want = p.map_or(false, |p| {
						let fits = p.remaining >= amount;
						if fits {
							p.remaining -= amount;
						}
						fits
					});
					(<Capacity as Nontransferable>::deduct(m, amount), want, "deduct")
				},
				1 => {
					let want = p.map(|p| {
						let c = Perbill::from_parts(ratio) * amount;
						p.staked += amount;
						p.remaining += c;
						p.issued += c;
					});
					(<Capacity as Nontransferable>::deposit(m, amount), want.is_some(), "deposit")
				},
				2 => {
					let want = p.map(|p| {
						p.remaining += amount;
						p.refilled = epoch;
					});
					(<Capacity as Replenishable>::replenish_by_amount(m, amount), want.is_some(), "replenish by an amount")
				},
				3 => {
					let want = p.map(|p| {
						p.remaining = p.issued;
						p.refilled = epoch;
					});
					(<Capacity as Replenishable>::replenish_all_for(m), want.is_some(), "replenish all")
				},
				_ => {
					for _ in 0..g.uint(1, 5) {
						next_block();
					}
					return Ok(())
				},
			};
			g.note(|| format!("provider {m}: {name} {amount} in epoch {epoch}: {}", r.is_ok()));
			check_eq!(r.is_ok(), want, "{name} {amount} for provider {m}: {r:?}");
			done += want as u32;
			if !want {
				check_eq!(state(), before, "state after a refused {name}");
			}
			for m in &ids {
				let got = Capacity::get_capacity_for(*m).map(|c| Provider { remaining: c.remaining_capacity, staked: c.total_tokens_staked, issued: c.total_capacity_issued, refilled: c.last_replenished_epoch });
				check_eq!(got, model.get(m).cloned(), "capacity of provider {m} after {name}");
				check_eq!(<Capacity as Nontransferable>::balance(*m), model.get(m).map_or(0, |p| p.remaining), "capacity balance of provider {m}");
				check_eq!(<Capacity as Replenishable>::can_replenish(*m), model.get(m).map_or(false, |p| p.refilled < epoch), "provider {m} can refill in epoch {epoch}");
			}
			Ok(())
		})?;
		if done >= 3 {
			g.nontrivial();
		}
		Ok(())
	})
}
fn c04(g: &mut Gen) -> R {
	history(g, Focus::Thaw)
}
fn main() {
	engine::dict::load(&engine::root(), &["pallet-capacity"]);
	engine::main(vec![
		Property { id: "C01", rule: "histories of 1-4 stakers, 1-4 providers over epochs, ending with everybody leaving; non-trivial: one stake and one unstake accepted", aspects: vec![aspect("history", 16_000, 150_000, c01)], known: vec![] },
		Property { id: "C02", rule: "the same histories with mostly stakes and unstakes; non-trivial: two stakes and one unstake accepted", aspects: vec![aspect("history", 16_000, 150_000, c02)], known: vec![] },
		Property { id: "C03", rule: "the same histories with mostly spending, refills and new blocks; non-trivial: one amount spent and one refill (interface: three operations done)", aspects: vec![aspect("history", 16_000, 150_000, c03), aspect("interface", 20_000, 400_000, interface)], known: vec![] },
		Property { id: "C04", rule: "the same histories with mostly unstakes, withdrawals and new blocks; non-trivial: one unstake and one withdrawal accepted", aspects: vec![aspect("history", 16_000, 150_000, c04)], known: vec![] },
	]);
}
