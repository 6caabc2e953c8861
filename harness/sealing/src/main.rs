//! O02: when a development node makes, seals and finalizes blocks.
use cli_opt::SealingMode;
use engine::{aspect, check, check_eq, Gen, Property};
use frequency_sealing::{
	block_sealing::frequency_dev_sealing,
	stubs::{
		sc_consensus_manual_seal::{CreatedBlock, EngineCommand, Error},
		sc_service::{Configuration, Offchain, Role},
		Act, Shared, State,
	},
};
use futures::channel::oneshot::{self, Canceled};
use std::{
	sync::{Arc, Mutex},
	time::Duration,
};
use tokio::time::{sleep_until, timeout, Instant};

type R = Result<(), String>;

#[derive(Clone, Debug)]
enum Event {
	/// A transaction becomes ready in the pool.
	Tx(u64),
	Seal { create_empty: bool, finalize: bool, parent: Option<u64> },
	Finalize { hash: u64, justification: Option<Vec<u8>> },
}
#[derive(Clone, Debug)]
struct Plan {
	mode: SealingMode,
	interval: u16,
	empty: bool,
	authority: bool,
	offchain: bool,
	takes: u64,
	/// Events with the millisecond at which they happen, in order.
	events: Vec<(u64, Event)>,
	end: u64,
}
#[derive(Debug)]
enum Reply {
	Block(Result<Result<CreatedBlock<u64>, Error>, Canceled>),
	Final(Result<Result<(), Error>, Canceled>),
	Never,
}
struct Outcome {
	acts: Vec<Act>,
	replies: Vec<Reply>,
	ready: Vec<u64>,
	sink: bool,
	handlers: u32,
	network: bool,
}

fn run(p: &Plan) -> Result<Outcome, String> {
	let rt = tokio::runtime::Builder::new_current_thread().enable_time().start_paused(true).build().unwrap();
	rt.block_on(async {
		let node: Shared = Arc::new(Mutex::new(State { takes: p.takes, ..Default::default() }));
		let start = Instant::now();
		node.lock().unwrap().start = Some(start);
		let config = Configuration { node: node.clone(), network: (), offchain_worker: Offchain { enabled: p.offchain }, role: Role(p.authority) };
		let _tasks = frequency_dev_sealing(config, p.mode, p.interval, p.empty).map_err(|e| e.0)?;
		let futures = std::mem::take(&mut node.lock().unwrap().tasks);
		let running: Vec<_> = futures.into_iter().map(|(_, f)| tokio::spawn(f)).collect();
		let mut sink = node.lock().unwrap().sink.clone();
		enum Wait {
			Block(oneshot::Receiver<Result<CreatedBlock<u64>, Error>>),
			Final(oneshot::Receiver<Result<(), Error>>),
			Refused,
		}
		let mut waits = vec![];
		for (at, e) in &p.events {
			sleep_until(start + Duration::from_millis(*at)).await;
			match e.clone() {
				Event::Tx(t) => {
					let mut s = node.lock().unwrap();
					s.ready.push(t);
					for l in s.listeners.iter_mut() {
						let _ = l.try_send(t);
					}
				},
				Event::Seal { create_empty, finalize, parent } => {
					let (s, r) = oneshot::channel();
					let c = EngineCommand::SealNewBlock { create_empty, finalize, parent_hash: parent, sender: Some(s) };
					let sent = sink.as_mut().map_or(false, |k| k.try_send(c).is_ok());
					waits.push(if sent { Wait::Block(r) } else { Wait::Refused });
				},
				Event::Finalize { hash, justification } => {
					let (s, r) = oneshot::channel();
					let c = EngineCommand::FinalizeBlock { hash, sender: Some(s), justification };
					let sent = sink.as_mut().map_or(false, |k| k.try_send(c).is_ok());
					waits.push(if sent { Wait::Final(r) } else { Wait::Refused });
				},
			}
		}
		sleep_until(start + Duration::from_millis(p.end)).await;
		let acts = node.lock().unwrap().acts.clone();
		let soon = Duration::from_nanos(1);
		let mut replies = vec![];
		for w in waits {
			replies.push(match w {
				Wait::Block(r) => timeout(soon, r).await.map_or(Reply::Never, Reply::Block),
				Wait::Final(r) => timeout(soon, r).await.map_or(Reply::Never, Reply::Final),
				Wait::Refused => Reply::Never,
			});
		}
		let s = node.lock().unwrap();
		let out = Outcome { acts, replies, ready: s.ready.clone(), sink: s.sink.is_some(), handlers: s.handlers, network: s.network_started };
		drop(s);
		for t in running {
			t.abort();
		}
		Ok(out)
	})
}

fn command(g: &mut Gen, n: u64, named: bool) -> Event {
	if g.chance(1, 4) {
		let justification = g.bool().then(|| g.bytes(0, 6));
		Event::Finalize { hash: 1000 + n, justification }
	} else {
		let parent = (named || g.bool()).then_some(1000 + n);
		Event::Seal { create_empty: g.bool(), finalize: g.bool(), parent }
	}
}
/// Times are odd multiples of 5 ms, so none falls on a whole second.
fn events(g: &mut Gen, span: u64, named: bool) -> Vec<(u64, Event)> {
	let mut out = vec![];
	let (mut t, mut n) = (5u64, 0u64);
	let steps = g.usize(0, 14);
	for _ in 0..steps {
		n += 1;
		let e = if g.chance(3, 5) { Event::Tx(n) } else { command(g, n, named) };
		out.push((t, e));
		// often at the same moment as the one before
		if g.chance(2, 3) {
			let by = match g.weighted(&[3, 2, 2]) {
				0 => 1,
				1 => g.below(40),
				_ => g.below(span / 10 / 4 + 2),
			};
			t += 10 * by;
		}
	}
	out
}
fn made(acts: &[Act]) -> Vec<(u64, bool, Option<u64>, Vec<u64>)> {
	acts.iter()
		.filter_map(|a| match a {
			Act::Seal { at, finalize, parent, made: Some(m), .. } => Some((*at, *finalize, *parent, m.clone())),
			_ => None,
		})
		.collect()
}
fn commands(p: &Plan) -> Vec<(u64, Event)> {
	p.events.iter().filter(|(_, e)| !matches!(e, Event::Tx(_))).cloned().collect()
}
fn txs(p: &Plan) -> Vec<(u64, u64)> {
	p.events.iter().filter_map(|(t, e)| if let Event::Tx(n) = e { Some((*t, *n)) } else { None }).collect()
}
fn finalized(j: &Option<Vec<u8>>) -> Option<Vec<u8>> {
	j.as_ref().map(|j| [&b"manl"[..], j].concat())
}
fn started(p: &Plan, o: &Outcome) -> R {
	check!(o.network, "the network was not started ({:?})", p.mode);
	check!(o.handlers > 0, "no RPC handler was built ({:?})", p.mode);
	check_eq!(o.sink, p.authority, "commands can be given to the node (authority: {}, {:?})", p.authority, p.mode);
	Ok(())
}
/// The given commands were carried out in their order and as given; what they did is taken out of
/// the acts and the rest is returned. Commands that seal name a parent of their own.
fn obeyed(p: &Plan, o: &Outcome, skippable: impl Fn(u64) -> bool) -> Result<Vec<Act>, String> {
	let mut rest = vec![];
	let mut mine = vec![];
	for a in &o.acts {
		match a {
			Act::Seal { parent: None, .. } => rest.push(a.clone()),
			_ => mine.push(a.clone()),
		}
	}
	let mut mine = mine.into_iter().peekable();
	for ((t, e), reply) in commands(p).into_iter().zip(&o.replies) {
		match e {
			Event::Seal { create_empty, finalize, parent } => {
				let found = matches!(mine.peek(), Some(Act::Seal { parent: q, .. }) if *q == parent);
				if !found {
					check!(!create_empty && skippable(t), "the command at {t} to seal on {parent:?} (create_empty {create_empty}) was not carried out: {:?}", o.acts);
					check!(!matches!(reply, Reply::Block(Ok(Ok(_)))), "the command at {t} was answered {reply:?} without a block");
					check!(!matches!(reply, Reply::Never), "the command at {t} was never answered");
					continue
				}
				let Some(Act::Seal { at, create_empty: c, finalize: f, made, .. }) = mine.next() else { unreachable!() };
				check_eq!((c, f), (create_empty, finalize), "create_empty and finalize of the block asked for at {t}");
				if p.takes == 0 {
					check_eq!(at, t, "time of the block asked for at {t}");
				}
				match made {
					Some(_) => check!(matches!(reply, Reply::Block(Ok(Ok(_)))), "the block asked for at {t} was made but the answer is {reply:?}"),
					None => check!(matches!(reply, Reply::Block(Ok(Err(_)) | Err(_))), "no block was made at {t} but the answer is {reply:?}"),
				}
			},
			Event::Finalize { hash, justification } => {
				let Some(Act::Finalize { at, hash: h, justification: j }) = mine.next() else {
					return Err(format!("the command at {t} to finalize {hash} was not carried out in its turn: {:?}", o.acts))
				};
				check_eq!((h, j), (hash, finalized(&justification)), "what was finalized on the command at {t}");
				if p.takes == 0 {
					check_eq!(at, t, "time of finalizing on the command at {t}");
				}
				check!(matches!(reply, Reply::Final(Ok(Ok(())))), "finalizing at {t} was answered {reply:?}");
			},
			Event::Tx(_) => unreachable!(),
		}
	}
	check!(mine.next().is_none(), "something was done that no command asked for: {:?}", o.acts);
	Ok(rest)
}
/// Every transaction is in exactly one block.
fn once(p: &Plan, o: &Outcome) -> R {
	let all: Vec<u64> = made(&o.acts).into_iter().flat_map(|b| b.3).collect();
	for (t, n) in txs(p) {
		let times = all.iter().filter(|x| **x == n).count();
		let waiting = o.ready.contains(&n) as usize;
		check_eq!(times + waiting, 1, "blocks with the transaction of {t}, or waiting");
	}
	Ok(())
}
fn base(g: &mut Gen, mode: SealingMode) -> Plan {
	let interval = match g.weighted(&[6, 2, 2]) {
		0 => g.int(1, 4) as u16,
		1 => g.int(5, 700) as u16,
		_ => *g.pick(&[1, 255, 256, 257, 3600, 32768, 65535]),
	};
	let takes = if g.chance(1, 3) { 3 } else { 0 };
	Plan { mode, interval, empty: g.bool(), authority: true, offchain: g.bool(), takes, events: vec![], end: 0 }
}
fn finish(p: &mut Plan) {
	p.end = p.events.last().map_or(0, |e| e.0) + 10 * (p.events.len() as u64 + 20);
}

fn instant(g: &mut Gen) -> R {
	let mut p = base(g, SealingMode::Instant);
	p.events = events(g, 4000, true);
	finish(&mut p);
	let o = run(&p)?;
	started(&p, &o)?;
	let blocks = made(&o.acts);
	let taken_by = |t: u64| txs(&p).iter().filter(|x| x.0 <= t).all(|x| blocks.iter().any(|b| b.0 <= t + p.takes * 40 && b.3.contains(&x.1)));
	let rest = obeyed(&p, &o, taken_by)?;
	once(&p, &o)?;
	check!(o.ready.is_empty(), "transactions left in the pool with instant sealing: {:?}", o.ready);
	let own = made(&rest);
	let arrivals = txs(&p);
	check!(own.len() <= arrivals.len(), "{} blocks for {} transactions", own.len(), arrivals.len());
	for (at, finalize, _, _) in &own {
		check!(*finalize, "the block made at {at} is not finalized");
		check!(arrivals.iter().any(|a| a.0 <= *at), "a block at {at} before any transaction");
	}
	if p.takes == 0 {
		for (at, n) in &arrivals {
			let b = blocks.iter().find(|b| b.3.contains(n)).unwrap();
			check_eq!(b.0, *at, "time of the block of a transaction that arrived at {at}");
		}
		for (at, ..) in &own {
			check!(arrivals.iter().any(|a| a.0 == *at), "a block at {at} without a transaction arriving");
		}
	}
	g.label_if(arrivals.len() > 1 && arrivals.windows(2).any(|w| w[0].0 == w[1].0), "two at once");
	g.label_if(p.takes > 0, "slow blocks");
	g.label_if(!commands(&p).is_empty(), "commands too");
	if !arrivals.is_empty() {
		g.nontrivial();
	}
	Ok(())
}
fn interval(g: &mut Gen) -> R {
	let mut p = base(g, SealingMode::Interval);
	let step = p.interval as u64 * 1000;
	let rounds = g.int(1, 5) as u64;
	p.events = events(g, step * rounds, true);
	if p.takes > 0 {
		// a command's block must not be in the making when the interval ends
		p.events.retain(|e| matches!(e.1, Event::Tx(_)));
	}
	let last = p.events.last().map_or(0, |e| e.0);
	let rounds = rounds.max(last / step + 1);
	p.end = rounds * step + 7;
	let o = run(&p)?;
	started(&p, &o)?;
	let blocks = made(&o.acts);
	let taken_by = |t: u64| txs(&p).iter().filter(|x| x.0 <= t).all(|x| blocks.iter().any(|b| b.0 <= t && b.3.contains(&x.1)));
	let rest = obeyed(&p, &o, taken_by)?;
	once(&p, &o)?;
	let own = made(&rest);
	for (at, finalize, _, m) in &own {
		check_eq!(at % step, 0, "time of a block into the interval of {step} ms (block at {at})");
		check!(*finalize, "the block made at {at} is not finalized");
		check!(p.empty || !m.is_empty(), "an empty block at {at} though empty blocks are not to be made");
	}
	for w in own.windows(2) {
		check!(w[0].0 < w[1].0, "two blocks in one interval, at {} and {}", w[0].0, w[1].0);
	}
	// what had arrived and was in no earlier block at each interval's end
	for k in 1..=rounds {
		let end = k * step;
		let waiting = txs(&p).iter().any(|x| x.0 < end && !blocks.iter().any(|b| b.0 < end && b.3.contains(&x.1)));
		let made = own.iter().any(|b| b.0 == end);
		check_eq!(made, p.empty || waiting, "a block at {end} (interval {step} ms, empty blocks {}, waiting {waiting})", p.empty);
		for (at, n) in txs(&p).iter().filter(|x| x.0 < end) {
			check!(blocks.iter().any(|b| b.0 <= end && b.3.contains(n)), "the transaction of {at} is in no block at {end} (interval {step} ms)");
		}
		g.label(if !made { "no block" } else if waiting { "block" } else { "empty block" });
	}
	g.label_if(p.interval > 255, "long interval");
	g.nontrivial();
	Ok(())
}
fn manual(g: &mut Gen) -> R {
	let mut p = base(g, SealingMode::Manual);
	p.events = events(g, 4000, false);
	finish(&mut p);
	p.end += p.interval as u64 * 1000;
	let o = run(&p)?;
	started(&p, &o)?;
	// one command after the other, each with what the pool holds when its turn comes
	let mut want = vec![];
	let mut now = 0;
	let mut sealed: Vec<u64> = vec![];
	let mut replies = o.replies.iter();
	for (t, e) in commands(&p) {
		if now > t && txs(&p).iter().any(|x| x.0 == now) {
			g.exclude();
			return Ok(())
		}
		now = now.max(t);
		let reply = replies.next().unwrap();
		match e {
			Event::Seal { create_empty, finalize, parent } => {
				let ready: Vec<u64> = txs(&p).iter().filter(|x| x.0 <= now && !sealed.contains(&x.1)).map(|x| x.1).collect();
				if create_empty || !ready.is_empty() {
					g.label(if ready.is_empty() { "empty block" } else { "block" });
					sealed.extend(&ready);
					want.push((now, Some((finalize, parent, ready)), None));
					now += p.takes;
					check!(matches!(reply, Reply::Block(Ok(Ok(_)))), "a block was due at {t} but the answer is {reply:?}");
				} else {
					g.label("nothing to seal");
					check!(matches!(reply, Reply::Block(Ok(Err(_)) | Err(_))), "no block was due at {t} but the answer is {reply:?}");
				}
			},
			Event::Finalize { hash, justification } => {
				g.label("finalize");
				want.push((now, None, Some((hash, finalized(&justification)))));
				check!(matches!(reply, Reply::Final(Ok(Ok(())))), "finalizing at {t} was answered {reply:?}");
			},
			Event::Tx(_) => unreachable!(),
		}
	}
	let got: Vec<_> = o
		.acts
		.iter()
		.filter_map(|a| match a.clone() {
			Act::Seal { made: None, .. } => None,
			Act::Seal { at, finalize, parent, made: Some(m), .. } => Some((at, Some((finalize, parent, m)), None)),
			Act::Finalize { at, hash, justification } => Some((at, None, Some((hash, justification)))),
		})
		.collect();
	check_eq!(got, want, "what the node did with manual sealing");
	once(&p, &o)?;
	if !want.is_empty() {
		g.nontrivial();
	}
	Ok(())
}
fn bystander(g: &mut Gen) -> R {
	let mode = *g.pick(&[SealingMode::Instant, SealingMode::Manual, SealingMode::Interval]);
	let mut p = base(g, mode);
	p.authority = false;
	p.events = events(g, 4000, false);
	finish(&mut p);
	p.end += p.interval as u64 * 2000;
	let o = run(&p)?;
	started(&p, &o)?;
	check!(o.acts.is_empty(), "a node that is no authority made or finalized blocks: {:?}", o.acts);
	g.label(match mode {
		SealingMode::Instant => "instant",
		SealingMode::Manual => "manual",
		_ => "interval",
	});
	if !p.events.is_empty() {
		g.nontrivial();
	}
	Ok(())
}

fn main() {
	engine::main(vec![Property {
		id: "O02",
		rule: "a transaction arrived (instant), an interval passed (interval), a command was carried out (manual), or anything was asked of a node that is no authority",
		aspects: vec![
			aspect("instant", 20_000, 1_500_000, instant),
			aspect("interval", 20_000, 1_500_000, interval),
			aspect("manual", 20_000, 1_500_000, manual),
			aspect("no-authority", 4000, 200_000, bystander),
		],
		known: vec![],
	}])
}
