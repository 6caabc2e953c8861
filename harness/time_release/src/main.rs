//! R01: the arithmetic of release schedules against reference arithmetic.
//! R02: histories of scheduled transfers, claims, replacements and ordinary transfers.
use engine::{aspect, check, check_eq, guarded, Gen, Property, R};
use world::frame_support::traits::fungible::{Inspect, InspectFreeze};
use world::frame_support::traits::BuildGenesisConfig;
use world::pallet_time_release::{Call, Event, FreezeReason, GenesisConfig, ReleaseSchedule};
use world::*;

type Schedule = ReleaseSchedule<u32, u128>;
type TokenCall = world::pallet_balances::Call<Runtime>;

// ---------------------------------------------------------------- reference arithmetic
/// The block at which everything is released, if there is such a block number.
fn ends(s: &Schedule) -> Option<u32> {
	u32::try_from(s.start as u64 + s.period as u64 * s.period_count as u64).ok()
}
fn total(s: &Schedule) -> Option<u128> {
	if s.period_count == 0 || s.per_period <= u128::MAX / s.period_count as u128 {
		Some(s.per_period * s.period_count as u128)
	} else {
		None
	}
}
fn valid(s: &Schedule) -> bool {
	s.period > 0 && s.period_count > 0 && ends(s).is_some() && total(s).map_or(false, |t| t >= MinReleaseTransfer::get())
}
/// What a valid schedule still locks at a block.
fn locks(s: &Schedule, now: u32) -> u128 {
	let passed = if now <= s.start { 0 } else { ((now - s.start) / s.period).min(s.period_count) };
	s.per_period * (s.period_count - passed) as u128
}
fn locked(l: &[Schedule], now: u32) -> u128 {
	l.iter().map(|s| locks(s, now)).sum()
}

// ---------------------------------------------------------------- R01
fn some_u32(g: &mut Gen) -> u32 {
	match g.weighted(&[6, 3, 2, 1]) {
		0 => g.uint(0, 20) as u32,
		1 => g.uint(0, 100_000) as u32,
		2 => g.uint(0, u32::MAX as u64) as u32,
		_ => u32::MAX - g.uint(0, 3) as u32,
	}
}
fn some_schedule(g: &mut Gen) -> Schedule {
	let period_count = some_u32(g);
	let period = match g.weighted(&[6, 2, 1]) {
		0 => some_u32(g),
		1 if period_count > 0 => (u32::MAX / period_count).saturating_add(g.below(3) as u32).saturating_sub(1),
		_ => g.uint(0, 5) as u32,
	};
	let full = period as u64 * period_count as u64;
	let start = match g.weighted(&[5, 2, 1]) {
		0 => some_u32(g),
		1 if full <= u32::MAX as u64 => (u32::MAX - full as u32).saturating_add(g.below(3) as u32).saturating_sub(1),
		_ => 0,
	};
	let per_period = match g.weighted(&[6, 2, 2, 1]) {
		0 => g.uint(0, 1000) as u128,
		1 => g.int_u128(u128::MAX),
		2 if period_count > 0 => (u128::MAX / period_count as u128).saturating_add(g.below(3) as u128).saturating_sub(1),
		_ => u128::MAX - g.below(3) as u128,
	};
	ReleaseSchedule { start, period, period_count, per_period }
}
/// Blocks at which something happens, and others.
fn some_time(g: &mut Gen, s: &Schedule) -> u32 {
	match g.weighted(&[5, 2, 2, 1]) {
		0 => {
			let k = g.int_u128(s.period_count as u128 + 1) as u64;
			let t = s.start as u64 + s.period as u64 * k + g.below(3) as u64;
			(t.saturating_sub(1)).min(u32::MAX as u64) as u32
		},
		1 => some_u32(g),
		2 => s.start.saturating_add(g.below(3) as u32).saturating_sub(1),
		_ => ends(s).unwrap_or(u32::MAX).saturating_add(g.below(3) as u32).saturating_sub(1),
	}
}
fn arithmetic(g: &mut Gen) -> R {
	reset_knobs();
	let s = some_schedule(g);
	g.note(|| format!("{s:?}"));
	check_eq!(s.end(), ends(&s), "end of {s:?}");
	check_eq!(s.total_amount(), total(&s), "total of {s:?}");
	// the same schedule with wider block numbers
	let wide = ReleaseSchedule::<u64, u128> { start: s.start as u64, period: s.period as u64, period_count: s.period_count, per_period: s.per_period };
	check_eq!(wide.end(), Some(s.start as u64 + s.period as u64 * s.period_count as u64), "end of {wide:?}");
	if !valid(&s) {
		g.label("not a valid schedule");
		return Ok(());
	}
	let mut times: Vec<u32> = (0..g.usize(2, 8)).map(|_| some_time(g, &s)).collect();
	times.sort();
	let mut before = total(&s).unwrap_or(0);
	for t in &times {
		let got = guarded(|| s.frozen_amount(*t)).map_err(|e| format!("locked amount of {s:?} at {t}: {e}"))?;
		check_eq!(got, locks(&s, *t), "amount locked by {s:?} at block {t}");
		check!(got <= before, "{s:?} locks {got} at block {t} and {before} earlier");
		check_eq!(wide.frozen_amount(*t as u64), got, "amount locked by {wide:?} at block {t}");
		before = got;
	}
	let end = ends(&s).unwrap_or(u32::MAX);
	check_eq!(s.frozen_amount(end), 0, "amount locked by {s:?} at its end {end}");
	check_eq!(s.frozen_amount(u32::MAX), 0, "amount locked by {s:?} at the last block");
	check_eq!(wide.frozen_amount(u64::MAX), 0, "amount locked by {wide:?} at the last block");
	if s.per_period > 0 {
		check!(s.frozen_amount(end - 1) > 0, "{s:?} locks nothing before its end {end}");
		if s.period_count > 1 {
			g.nontrivial();
		}
	}
	Ok(())
}
fn freeze_of(k: &Key) -> u128 {
	<Balances as InspectFreeze<_>>::balance_frozen(&RuntimeFreezeReason::TimeRelease(FreezeReason::TimeReleaseVesting), &k.id)
}
fn balance(k: &Key) -> u128 {
	<Balances as Inspect<_>>::balance(&k.id)
}
/// What the chain accepts as a schedule, and what a claim then leaves locked at any block.
fn accepted(g: &mut Gen) -> R {
	reset_knobs();
	let least = *g.pick(&[0, 1, 100, 1_000_000]);
	MinReleaseTransfer::set(least);
	let rich = u128::MAX / 2;
	let keys = [key(0), key(1)];
	chain(&[(keys[0].id.clone(), rich), (keys[1].id.clone(), rich)], || -> R {
		let mut s = some_schedule(g);
		if g.chance(1, 6) && s.period_count > 0 {
			s.per_period = (least / s.period_count as u128 + g.below(3) as u128).saturating_sub(1);
		}
		RelayBlock::set(some_time(g, &s));
		let start = RelayBlock::get();
		let dest = g.usize(0, 1);
		let replace = g.bool();
		let room = rich - 1;
		let want = valid(&s) && total(&s).map_or(false, |t| if replace { t <= rich } else { t <= room });
		let before = state();
		let o = guarded(|| {
			if replace {
				call_root(Call::update_release_schedules { who: keys[dest].id.clone().into(), release_schedules: vec![s.clone()] })
			} else {
				call(&keys[0].id, Call::transfer { dest: keys[dest].id.clone().into(), schedule: s.clone() })
			}
		})
		.map_err(|e| format!("{s:?} at block {start}: {e}"))?;
		let how = if replace { "replacement by" } else { "transfer with" };
		g.note(|| format!("{how} {s:?} at {start}: {}", why(&o)));
		check_eq!(o.is_ok(), want, "{how} {s:?} of total {:?} (least {least}, end {:?}): {}", total(&s), ends(&s), why(&o));
		if !want {
			check_eq!(state(), before, "state after the refused {how} {s:?}");
			return Ok(());
		}
		let mut times: Vec<u32> = (0..g.usize(1, 5)).map(|_| some_time(g, &s)).collect();
		times.sort();
		let who = &keys[dest];
		for t in times {
			RelayBlock::set(t);
			let o = guarded(|| call(&keys[1 - dest].id, Call::claim_for { dest: who.id.clone().into() })).map_err(|e| format!("claim of {s:?} at {t}: {e}"))?;
			check!(o.is_ok(), "claim of {s:?} at {t}: {}", why(&o));
			check_eq!(freeze_of(who), locks(&s, t), "tokens frozen after a claim of {s:?} at block {t}");
			check_eq!(TimeRelease::release_schedules(&who.id).len(), (locks(&s, t) > 0) as usize, "schedules kept after a claim of {s:?} at block {t}");
			if locks(&s, t) == 0 {
				break;
			}
		}
		if s.per_period > 0 {
			g.nontrivial();
		}
		Ok(())
	})
}

// ---------------------------------------------------------------- R02
struct W {
	keys: Vec<Key>,
	/// all schedules given, completed ones too
	lists: Vec<Vec<Schedule>>,
	/// upper bound of what may be frozen
	frozen: Vec<u128>,
	transfers: u32,
	claims: u32,
	freed: bool,
	refused: u32,
}
impl W {
	fn now(&self) -> u32 {
		RelayBlock::get()
	}
	fn live(&self, i: usize) -> Vec<Schedule> {
		let now = self.now();
		self.lists[i].iter().filter(|s| locks(s, now) > 0).cloned().collect()
	}
	fn agrees(&self, supply: u128) -> R {
		let now = self.now();
		let mut sum = 0;
		for (i, k) in self.keys.iter().enumerate() {
			let f = freeze_of(k);
			let due = locked(&self.lists[i], now);
			check!(f >= due, "account {i} has {f} tokens frozen at block {now}, its schedules {:?} lock {due}", self.lists[i]);
			check!(f <= self.frozen[i], "account {i} has {f} tokens frozen at block {now}, at most {} were to be", self.frozen[i]);
			check!(balance(k) >= due, "account {i} has {} tokens, its schedules lock {due}", balance(k));
			let stored = TimeRelease::release_schedules(&k.id);
			check!(stored.len() <= MaxReleaseSchedules::get() as usize, "account {i} has {} schedules, limit {}", stored.len(), MaxReleaseSchedules::get());
			let stored: Vec<Schedule> = stored.iter().filter(|s| locks(s, now) > 0).cloned().collect();
			check_eq!(stored, self.live(i), "schedules of account {i} which still lock at block {now}");
			sum += balance(k);
		}
		check_eq!(sum, supply, "sum of all balances");
		check_eq!(<Balances as Inspect<_>>::total_issuance(), supply, "total supply");
		Ok(())
	}
	fn events(&self, from: usize, want: Vec<Event<Runtime>>) -> R {
		let got: Vec<String> = events_since(from).iter().filter(|e| matches!(e, RuntimeEvent::TimeRelease(_))).map(|e| format!("{e:?}")).collect();
		let want: Vec<String> = want.into_iter().map(|e| format!("{:?}", RuntimeEvent::from(e))).collect();
		check_eq!(got, want, "events");
		Ok(())
	}
	fn refusal(&mut self, before: u64, what: &str) -> R {
		self.refused += 1;
		check_eq!(state(), before, "state after the refused {what}");
		Ok(())
	}
	fn transfer(&mut self, g: &mut Gen, i: usize, j: usize, s: Schedule) -> R {
		let now = self.now();
		let sum = total(&s);
		// tokens leave the sender as by an ordinary transfer
		let movable = sum.map_or(false, |t| frozen(|| call(&self.keys[i].id, TokenCall::transfer_allow_death { dest: self.keys[j].id.clone().into(), value: t }).is_ok()));
		let live = self.live(j);
		let want = valid(&s)
			&& movable
			&& live.len() < MaxReleaseSchedules::get() as usize
			&& locked(&live, now).checked_add(sum.unwrap_or(0)).is_some()
			&& (i != j || balance(&self.keys[i]) >= sum.unwrap_or(0));
		let (before, events) = (state(), event_count());
		let (a, b) = (balance(&self.keys[i]), balance(&self.keys[j]));
		let c = Call::transfer { dest: self.keys[j].id.clone().into(), schedule: s.clone() };
		let root = g.chance(1, 30);
		let o = if root { call_root(c) } else { call(&self.keys[i].id, c) };
		g.note(|| format!("at {now}: {}{i} -> {j} {s:?} (has {a}, frozen {}): {}", if root { "root for " } else { "" }, freeze_of(&self.keys[i]), why(&o)));
		if root {
			check!(o.is_err(), "a scheduled transfer by root was accepted");
			return self.refusal(before, "transfer by root");
		}
		check_eq!(o.is_ok(), want, "scheduled transfer {i} -> {j} of {s:?}, sender has {a} ({} frozen), receiver has {} live schedules of at most {} ({})", freeze_of(&self.keys[i]), live.len(), MaxReleaseSchedules::get(), why(&o));
		if !want {
			return self.refusal(before, "transfer");
		}
		let sum = sum.unwrap_or(0);
		if i != j {
			// a rest too small for an account to exist with is dropped, as by an ordinary transfer
			let rest = if a - sum < ExistentialDeposit::get() { 0 } else { a - sum };
			check_eq!((balance(&self.keys[i]), balance(&self.keys[j]) - b), (rest, sum), "what the sender has left of {a} and what the receiver got by the transfer of {s:?}");
		} else {
			check_eq!(balance(&self.keys[i]), a, "balance after a scheduled transfer to self");
		}
		let from = self.keys[i].id.clone();
		let to = self.keys[j].id.clone();
		self.events(events, vec![Event::ReleaseScheduleAdded { from, to, release_schedule: s.clone() }])?;
		self.frozen[j] = locked(&live, now) + sum;
		self.lists[j] = live;
		self.lists[j].push(s);
		self.transfers += 1;
		Ok(())
	}
	fn claim(&mut self, g: &mut Gen, by: usize, i: usize) -> R {
		let now = self.now();
		let (before, events) = (state(), event_count());
		let direct = by == i && g.bool();
		let c = if direct { Call::claim {} } else { Call::claim_for { dest: self.keys[i].id.clone().into() } };
		let root = g.chance(1, 30);
		let o = if root { call_root(c) } else { call(&self.keys[by].id, c) };
		g.note(|| format!("at {now}: {} claims for {i}: {}", if root { "root".to_string() } else { by.to_string() }, why(&o)));
		if root {
			check!(o.is_err(), "a claim by root was accepted");
			return self.refusal(before, "claim by root");
		}
		check!(o.is_ok(), "claim for account {i}: {}", why(&o));
		let live = self.live(i);
		let due = locked(&live, now);
		check_eq!(freeze_of(&self.keys[i]), due, "tokens of account {i} frozen after a claim at block {now}, its schedules {live:?} lock {due}");
		check_eq!(TimeRelease::release_schedules(&self.keys[i].id).to_vec(), live, "schedules of account {i} after a claim at block {now}");
		self.events(events, vec![Event::Claimed { who: self.keys[i].id.clone(), amount: due }])?;
		self.freed |= due < self.frozen[i];
		self.frozen[i] = due;
		self.lists[i] = live;
		self.claims += 1;
		Ok(())
	}
	fn replace(&mut self, g: &mut Gen, i: usize, list: Vec<Schedule>) -> R {
		let now = self.now();
		let sum = list.iter().try_fold(0u128, |a, s| if valid(s) { a.checked_add(total(s)?) } else { None });
		let root = g.chance(9, 10);
		let want = root && list.len() <= MaxReleaseSchedules::get() as usize && sum.map_or(false, |t| list.is_empty() || t <= balance(&self.keys[i]));
		let (before, events) = (state(), event_count());
		let c = Call::update_release_schedules { who: self.keys[i].id.clone().into(), release_schedules: list.clone() };
		let o = if root { call_root(c) } else { call(&self.keys[i].id, c) };
		g.note(|| format!("at {now}: schedules of {i} become {list:?}{}: {}", if root { "" } else { " (not by root)" }, why(&o)));
		check_eq!(o.is_ok(), want, "replacement of the schedules of {i}, who has {}, by {list:?} (by root: {root}): {}", balance(&self.keys[i]), why(&o));
		if !want {
			return self.refusal(before, "replacement");
		}
		check_eq!(TimeRelease::release_schedules(&self.keys[i].id).to_vec(), list, "schedules of account {i} after the replacement");
		self.events(events, vec![Event::ReleaseSchedulesUpdated { who: self.keys[i].id.clone() }])?;
		self.frozen[i] = sum.unwrap_or(0);
		self.lists[i] = list;
		Ok(())
	}
}
/// A schedule worth accepting most of the time.
fn small_schedule(g: &mut Gen, now: u32, room: u128) -> Schedule {
	if g.chance(1, 25) {
		return some_schedule(g);
	}
	let period_count = g.uint(1, 5) as u32;
	let period = g.uint(1, 6) as u32;
	let start = match g.weighted(&[4, 3, 1]) {
		0 => now.saturating_add(g.uint(0, 8) as u32),
		1 => now.saturating_sub(g.uint(0, 20) as u32),
		_ => g.uint(0, 60) as u32,
	};
	let per_period = match g.weighted(&[8, 2, 1]) {
		0 => g.int_u128(room / period_count as u128),
		1 => room / period_count as u128 + g.below(2) as u128,
		_ => g.below(3) as u128,
	};
	ReleaseSchedule { start, period, period_count, per_period }
}
fn histories(g: &mut Gen) -> R {
	reset_knobs();
	ExistentialDeposit::set(*g.pick(&[1, 10]));
	MinReleaseTransfer::set(*g.pick(&[0, 1, 20]));
	MaxReleaseSchedules::set(*g.pick(&[3, 1, 2, 50]));
	MinimumStakingAmount::set(5);
	let n = g.usize(1, 4);
	let keys: Vec<Key> = (0..n as u32).map(key).collect();
	let balances: Vec<u128> = (0..n).map(|_| if g.chance(1, 6) { 0 } else { g.uint(20, 2000) as u128 }).collect();
	let genesis: Vec<_> = keys.iter().zip(&balances).filter(|x| *x.1 > 0).map(|(k, b)| (k.id.clone(), *b)).collect();
	let supply: u128 = balances.iter().sum();
	let mut w = W { keys, lists: vec![vec![]; n], frozen: vec![0; n], transfers: 0, claims: 0, freed: false, refused: 0 };
	let r = chain(&genesis, || -> R {
		RelayBlock::set(g.uint(0, 30) as u32);
		let (provider, _) = Msa::create_account(key(100).id, |_| Ok(())).map_err(|_| "no account")?;
		Msa::create_provider_for(provider, b"p".to_vec()).map_err(|_| "no provider")?;
		if g.chance(1, 3) {
			genesis_schedules(g, &mut w)?;
			w.agrees(supply)?;
		}
		g.steps(40, |g, _| {
			let (i, j) = (g.usize(0, n - 1), g.usize(0, n - 1));
			let now = w.now();
			match g.weighted(&[30, 20, 20, 8, 12, 3, 3]) {
				0 => {
					let room = balance(&w.keys[i]).saturating_sub(if g.chance(1, 8) { 0 } else { freeze_of(&w.keys[i]) });
					let s = small_schedule(g, now, room);
					w.transfer(g, i, j, s)?;
				},
				1 => w.claim(g, i, j)?,
				2 => {
					let by = match g.weighted(&[8, 3, 1]) {
						0 => g.uint(1, 4),
						1 => g.uint(5, 30),
						_ => g.uint(30, 100),
					};
					RelayBlock::set(now.saturating_add(by as u32));
				},
				3 => {
					let room = balance(&w.keys[i]);
					let k = match g.weighted(&[6, 2, 1]) {
						0 => g.usize(1, 3),
						1 => 0,
						_ => MaxReleaseSchedules::get() as usize + g.below(2) as usize,
					};
					let list = (0..k).map(|_| {
						let each = if g.chance(1, 5) { room } else { room / k as u128 };
						small_schedule(g, now, each)
					}).collect();
					w.replace(g, i, list)?;
				},
				4 | 5 => {
					let (have, hold) = (balance(&w.keys[i]), freeze_of(&w.keys[i]));
					let value = match g.weighted(&[4, 2, 2]) {
						0 => g.int_u128(have),
						1 => have.saturating_sub(hold) + g.below(2) as u128,
						_ => have,
					};
					let dest = w.keys[j].id.clone().into();
					let c = match g.weighted(&[3, 2, 1]) {
						0 => TokenCall::transfer_allow_death { dest, value },
						1 => TokenCall::transfer_keep_alive { dest, value },
						_ => TokenCall::transfer_all { dest, keep_alive: g.bool() },
					};
					let o = call(&w.keys[i].id, c.clone());
					g.note(|| format!("{i} sends {value} to {j} ({}): {}", format!("{c:?}").chars().take(24).collect::<String>(), why(&o)));
					check!(i == j || balance(&w.keys[i]) >= hold, "account {i} sent frozen tokens: {} left, {hold} frozen", balance(&w.keys[i]));
				},
				_ => {
					let amount = g.int_u128(balance(&w.keys[i]));
					let o = call(&w.keys[i].id, pallet_capacity::Call::<Runtime>::stake { target: provider, amount });
					g.note(|| format!("{i} stakes {amount}: {}", why(&o)));
				},
			}
			// tokens below the least balance an account may hold are dropped from the supply
			let lost: u128 = supply.saturating_sub(w.keys.iter().map(balance).sum::<u128>());
			check!(lost < ExistentialDeposit::get() * 41, "{lost} tokens vanished");
			w.agrees(supply - lost)
		})?;
		recover(g, &mut w)
	});
	g.label_if(w.refused > 0, "refusals");
	g.label_if(w.freed, "a claim freed tokens");
	g.label_if(w.lists.iter().any(|l| l.len() > 1), "several schedules at once");
	if w.transfers >= 1 && w.freed {
		g.nontrivial();
	}
	r
}
/// Schedules of the first block: what the account has is locked, or the chain does not start.
fn genesis_schedules(g: &mut Gen, w: &mut W) -> R {
	let n = w.keys.len();
	let k = g.usize(1, 3);
	let mut items = vec![];
	let mut lists = vec![vec![]; n];
	let mut good = true;
	for _ in 0..k {
		let i = g.usize(0, n - 1);
		let room = balance(&w.keys[i]);
		let parts = if g.chance(1, 4) { 1 } else { k as u128 };
		let s = small_schedule(g, 0, room / parts);
		items.push((w.keys[i].id.clone(), s.start, s.period, s.period_count, s.per_period));
		lists[i].push(s);
		// each schedule, and with it those before
		let sum = lists[i].iter().try_fold(0u128, |a, s| if valid(s) { a.checked_add(total(s)?) } else { None });
		good &= lists[i].len() <= MaxReleaseSchedules::get() as usize && sum.map_or(false, |t| t <= room);
	}
	g.note(|| format!("first block: {lists:?}"));
	if !good {
		let r = frozen(|| guarded(|| GenesisConfig::<Runtime> { schedules: items, ..Default::default() }.build()));
		check!(r.is_err(), "a first block with schedules {lists:?} was accepted");
		return Ok(());
	}
	guarded(|| GenesisConfig::<Runtime> { schedules: items, ..Default::default() }.build()).map_err(|e| format!("first block with {lists:?}: {e}"))?;
	w.frozen = lists.iter().map(|l| l.iter().filter_map(total).sum()).collect();
	w.lists = lists;
	Ok(())
}
/// Once all schedules have ended, a claim frees everything.
fn recover(g: &mut Gen, w: &mut W) -> R {
	let end = w.lists.iter().flatten().filter_map(ends).max().unwrap_or(0);
	RelayBlock::set(end.max(w.now()));
	let n = w.keys.len();
	for i in 0..n {
		loop {
			w.claim(g, (i + 1) % n, i)?;
			// a claim by root claims nothing
			if w.lists[i].is_empty() && w.frozen[i] == 0 {
				break;
			}
		}
		check_eq!(freeze_of(&w.keys[i]), 0, "tokens of account {i} frozen after all schedules ended");
		check_eq!(TimeRelease::release_schedules(&w.keys[i].id).len(), 0, "schedules of account {i} after all ended");
		let staked = <Balances as InspectFreeze<_>>::balance_frozen(&RuntimeFreezeReason::Capacity(pallet_capacity::FreezeReason::CapacityStaking), &w.keys[i].id);
		let have = balance(&w.keys[i]);
		if staked == 0 && have >= ExistentialDeposit::get() {
			let o = call(&w.keys[i].id, TokenCall::transfer_allow_death { dest: key(200).id.into(), value: have });
			check!(o.is_ok(), "account {i} cannot send its {have} tokens after all schedules ended: {}", why(&o));
		}
	}
	Ok(())
}
fn main() {
	engine::dict::load(&engine::root(), &["pallet-time-release"]);
	engine::main(vec![
		Property {
			id: "R01",
			rule: "schedules over the whole ranges of their numbers, at blocks around each instalment; non-trivial: a valid schedule of several instalments (arithmetic), an accepted one (accepted)",
			aspects: vec![aspect("arithmetic", 4_000_000, 100_000_000, arithmetic), aspect("accepted", 400_000, 5_000_000, accepted)],
			known: vec![],
		},
		Property { id: "R02", rule: "histories of 1-4 accounts, ending with all schedules over; non-trivial: a scheduled transfer was accepted and a claim freed tokens", aspects: vec![aspect("history", 16_000, 200_000, histories)], known: vec![] },
	]);
}
