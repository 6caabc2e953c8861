//! O01: reading and printing of the sealing mode option.
use clap::{builder::EnumValueParser, Arg, Command, ValueEnum};
use cli_opt::SealingMode;
use engine::{aspect, check, check_eq, enumerated, Gen, Property};

type R = Result<(), String>;
/// The documented modes: name on the command line and the mode it stands for.
const DOC: [(&str, SealingMode); 3] =
	[("instant", SealingMode::Instant), ("manual", SealingMode::Manual), ("interval", SealingMode::Interval)];

fn reference(s: &str, ignore_case: bool) -> Option<usize> {
	DOC.iter().position(|(n, _)| if ignore_case { n.eq_ignore_ascii_case(s) } else { *n == s })
}
fn index(m: &SealingMode) -> Option<usize> {
	match m {
		SealingMode::Instant => Some(0),
		SealingMode::Manual => Some(1),
		SealingMode::Interval => Some(2),
		#[allow(unreachable_patterns)]
		_ => None,
	}
}
fn command() -> Command {
	Command::new("node").arg(
		Arg::new("sealing").long("sealing").value_parser(EnumValueParser::<SealingMode>::new()).default_value("instant"),
	)
}
fn word(g: &mut Gen) -> String {
	let mut s: String = match g.weighted(&[8, 2, 1, 2]) {
		0 => g.pick(&DOC).0.to_string(),
		1 => {
			let odd = ["Instant", "INTERVAL", "instant-seal", "manual_seal", "none", "0", "1", "", "seal", "auto", "man", "inst", "int", "i", "finalize"];
			g.pick(&odd).to_string()
		},
		2 => g.dict_str(),
		_ => g.list(12, 6, |g| char::from_u32(g.int(0, 0x2FFF) as u32).unwrap_or('x')).into_iter().collect(),
	};
	for _ in 0..g.usize(0, 3) {
		let mut cs: Vec<char> = s.chars().collect();
		let i = g.usize(0, cs.len());
		match g.below(7) {
			0 if i < cs.len() => {
				cs.remove(i);
			},
			1 if i < cs.len() => {
				let c = cs[i];
				cs[i] = if c.is_ascii_uppercase() { c.to_ascii_lowercase() } else { c.to_ascii_uppercase() };
			},
			2 => cs.insert(i, *g.pick(&[' ', '-', '_', 's', 'l', 'a', '\t', '\0', 'ı', '\u{301}', '\u{200b}'])),
			3 => cs.truncate(i),
			4 => cs = cs.iter().map(|c| c.to_ascii_uppercase()).collect(),
			5 => cs.extend(g.pick(&DOC).0.chars()),
			_ => {
				if i + 1 < cs.len() {
					cs.swap(i, i + 1)
				}
			},
		}
		s = cs.into_iter().collect();
	}
	s
}
fn parse(g: &mut Gen) -> R {
	let s = word(g);
	g.note(|| format!("{s:?}"));
	g.label(if reference(&s, false).is_some() {
		"mode"
	} else if reference(&s, true).is_some() {
		"mode in other letter case"
	} else {
		"other text"
	});
	if !s.is_empty() {
		g.nontrivial();
	}
	for ic in [false, true] {
		let got = SealingMode::from_str(&s, ic).ok();
		match (reference(&s, ic), &got) {
			(Some(i), Some(m)) => check_eq!(index(m), Some(i), "{s:?} names {m:?} (ignoring case: {ic})"),
			(None, None) => {},
			(Some(i), None) => return Err(format!("{:?} written {s:?} is refused (ignoring case: {ic})", DOC[i].1)),
			(None, Some(m)) => return Err(format!("{s:?} is accepted as {m:?} (ignoring case: {ic})")),
		}
	}
	// through an option of the kind the node declares
	let form = g.bool();
	let args: Vec<String> =
		if form { vec!["node".into(), format!("--sealing={s}")] } else { vec!["node".into(), "--sealing".into(), s.clone()] };
	if !form && s.starts_with('-') {
		return Ok(());
	}
	let m = command().try_get_matches_from(args).ok().and_then(|m| m.get_one::<SealingMode>("sealing").cloned());
	check_eq!(m.as_ref().and_then(index), reference(&s, false), "option --sealing {s:?} gives {m:?}");
	Ok(())
}
fn print(g: &mut Gen) -> R {
	let n = g.below(9) as usize;
	let (a, b) = (n / 3, n % 3);
	let (name, m) = (DOC[a].0, DOC[a].1.clone());
	g.note(|| format!("{name}, {}", DOC[b].0));
	g.nontrivial();
	let shown = m.to_string();
	check!(shown.eq_ignore_ascii_case(name), "{name} prints as {shown:?}");
	check_eq!(SealingMode::from_str(&shown, true).ok().as_ref().and_then(index), Some(a), "{shown:?} does not read back");
	check_eq!(format!("{m:>12}").trim().to_string(), shown, "padded print");
	check_eq!(m == DOC[b].1, a == b, "{m:?} compared with {:?}", DOC[b].1);
	check_eq!(index(&m.clone()), Some(a), "copy of {m:?}");
	let pv = m.to_possible_value().map(|p| (p.get_name_and_aliases().map(str::to_string).collect::<Vec<_>>(), p.is_hide_set()));
	check_eq!(pv, Some((vec![name.to_string()], false)), "texts that select {m:?}");
	let all: Vec<usize> = SealingMode::value_variants().iter().filter_map(index).collect();
	check!(all.len() == SealingMode::value_variants().len(), "undocumented mode offered: {:?}", SealingMode::value_variants());
	let mut sorted = all.clone();
	sorted.sort();
	check_eq!(sorted, vec![0, 1, 2], "offered modes");
	let d = command().try_get_matches_from(["node"]).ok().and_then(|m| m.get_one::<SealingMode>("sealing").cloned());
	check_eq!(d.as_ref().and_then(index), Some(0), "default");
	Ok(())
}
fn main() {
	engine::dict::load(&engine::root(), &["cli-opt"]);
	engine::main(vec![Property {
		id: "O01",
		rule: "mutations of the documented mode names and unrelated text; non-trivial: the text is not empty",
		aspects: vec![aspect("parse", 600_000, 2_000_000, parse), enumerated("print", 9, print)],
		known: vec![],
	}]);
}
