//! H01-H04: the pure handle functions of pallets/handles/src/handles-utils.
use engine::{aspect, check, check_eq, enumerated, Gen, Known, Property, R};
use handles_utils::{
	consists_of_supported_unicode_character_sets, contains_blocked_characters, convert_to_canonical, is_reserved_handle,
	replace_confusables, split_display_name, strip_diacriticals, strip_unicode_whitespace,
	suffix::{generate_seed, generate_unique_suffixes},
};
use std::collections::{BTreeMap, BTreeSet};
use std::sync::OnceLock;
use unicode_normalization::{char::is_combining_mark, UnicodeNormalization};

mod refseq;

/// Published script ranges (README / chain specification), as of the pinned commit.
const RANGES: [(u32, u32); 21] = [
	(0x0020, 0x007F),
	(0x0080, 0x00FF),
	(0x0100, 0x017F),
	(0x0370, 0x03FF),
	(0x0400, 0x04FF),
	(0x0500, 0x052F),
	(0x0590, 0x05FF),
	(0x0600, 0x06FF),
	(0x0900, 0x097F),
	(0x0980, 0x09FF),
	(0x0E00, 0x0E7F),
	(0x1100, 0x11FF),
	(0x1E00, 0x1EFF),
	(0x1F00, 0x1FFF),
	(0x3040, 0x309F),
	(0x30A0, 0x30FF),
	(0x3400, 0x4DBF),
	(0x4E00, 0x9FFF),
	(0xAC00, 0xD7AF),
	(0xF900, 0xFAFF),
	(0xFB50, 0xFDFF),
];
const RESERVED: [&str; 8] = ["admin", "everyone", "all", "administrator", "mod", "moderator", "here", "channel"];
const BLOCKED: &str = "\"#%(),.:;<>@\\`{}";

fn supported_char(c: char) -> bool {
	let v = c as u32;
	RANGES.iter().any(|(a, b)| *a <= v && v <= *b)
}

struct Table {
	/// look-alike -> canonical, both supported
	map: BTreeMap<char, char>,
	/// rows of mutually look-alike supported characters (head first)
	rows: Vec<Vec<char>>,
	/// rows restricted to characters that have no decomposition of their own
	plain_rows: Vec<Vec<char>>,
	keys: Vec<char>,
	marks: Vec<char>,
	spaces: Vec<char>,
}

fn table() -> &'static Table {
	static T: OnceLock<Table> = OnceLock::new();
	T.get_or_init(|| {
		let text = include_str!("../../data/confusable_characters.txt");
		let (mut map, mut rows) = (BTreeMap::new(), vec![]);
		for line in text.lines() {
			let cs: Vec<char> = line.chars().collect();
			if cs.is_empty() || !supported_char(cs[0]) {
				continue;
			}
			let mut row = vec![cs[0]];
			for c in &cs[1..] {
				if supported_char(*c) {
					map.insert(*c, cs[0]);
					row.push(*c);
				}
			}
			if row.len() > 1 {
				rows.push(row);
			}
		}
		let plain = |c: char| c.nfkd().eq(std::iter::once(c)) && !is_combining_mark(c) && !c.is_whitespace();
		let plain_rows = rows
			.iter()
			.map(|r: &Vec<char>| r.iter().copied().filter(|c| plain(*c)).collect::<Vec<_>>())
			.filter(|r| r.len() > 1)
			.collect();
		let all = || (0..=0x10FFFFu32).filter_map(char::from_u32);
		Table {
			keys: map.keys().copied().collect(),
			marks: all().filter(|c| is_combining_mark(*c)).collect(),
			spaces: all().filter(|c| c.is_whitespace()).collect(),
			map,
			rows,
			plain_rows,
		}
	})
}

/// Reference canonical form of one character.
fn ref_char(c: char) -> String {
	if c.is_whitespace() {
		return String::new();
	}
	c.nfkd()
		.filter(|d| !is_combining_mark(*d))
		.map(|d| table().map.get(&d).copied().unwrap_or(d))
		.map(|d| if d.is_ascii_uppercase() { (d as u8 + 32) as char } else { d })
		.collect()
}

fn gen_supported(g: &mut Gen) -> char {
	let (a, b) = *g.pick(&RANGES);
	char::from_u32(g.int(a as u64, b as u64) as u32).unwrap_or('a')
}
fn gen_any(g: &mut Gen) -> char {
	let v = match g.below(4) {
		0 => g.int(0, 0xFFFF),
		1 => g.int(0x10000, 0x10FFFF),
		2 => {
			// a value whose low 16 bits fall into a supported range
			let c = gen_supported(g) as u64;
			(g.int(1, 16) << 16) | (c & 0xFFFF)
		},
		_ => {
			// next to the edge of a range
			let (a, b) = *g.pick(&RANGES);
			let e = if g.bool() { a } else { b } as i64;
			(e + g.below(7) as i64 - 3).max(0) as u64
		},
	};
	char::from_u32(v as u32).unwrap_or('\u{FFFD}')
}
fn gen_char(g: &mut Gen) -> char {
	let t = table();
	match g.weighted(&[6, 4, 5, 2, 2, 2, 1]) {
		0 => g.int(0x61, 0x7A) as u8 as char,
		1 => g.int(0x20, 0x7E) as u8 as char,
		2 => gen_supported(g),
		3 => *g.pick(&t.keys),
		4 => *g.pick(&t.marks),
		5 => *g.pick(&t.spaces),
		_ => gen_any(g),
	}
}
fn gen_text(g: &mut Gen) -> String {
	if g.chance(1, 24) {
		// around a literal of the code under test, possibly long
		let (a, b) = (g.list(20, 2, gen_char), g.list(20, 2, gen_char));
		let mid = if g.bool() { g.dict_str() } else { gen_char(g).to_string().repeat(g.int(0, 300) as usize) };
		return a.into_iter().collect::<String>() + &mid + &b.into_iter().collect::<String>();
	}
	g.list(40, 9, gen_char).into_iter().collect()
}
fn esc(s: &str) -> String {
	s.escape_unicode().to_string().replace("\\u{", "U+").replace('}', " ") + &format!(" = {s:?}")
}

// ------------------------------------------------------------------ H01
fn gen_handle(g: &mut Gen) -> String {
	match g.below(3) {
		0 => convert_to_canonical(&gen_text(g)),
		1 => g.list(24, 8, |g| g.int(0x61, 0x7A) as u8 as char).into_iter().collect(),
		_ => gen_text(g),
	}
}
fn gen_range(g: &mut Gen) -> (u16, u16) {
	match g.weighted(&[4, 2, 2, 2, 1]) {
		0 => {
			let min = g.int(0, 65535);
			let len = g.int(0, 300);
			(min as u16, (min + len).min(65535) as u16)
		},
		1 => {
			let max = 65535 - g.int(0, 3);
			(max.saturating_sub(g.int(0, 400)) as u16, max as u16)
		},
		2 => (g.int(0, 2) as u16, g.int(2, 400) as u16),
		3 => {
			let v = g.int(0, 65535) as u16;
			(v, v)
		},
		_ => {
			let a = g.int(0, 65535) as u16;
			let b = g.int(0, 65535) as u16;
			(a.min(b), a.max(b))
		},
	}
}
fn h01_permutation(g: &mut Gen) -> R {
	let (min, max) = gen_range(g);
	let h = gen_handle(g);
	g.note(|| format!("range {min}..={max}, handle {}", esc(&h)));
	if max > min {
		g.nontrivial();
	}
	g.label_if(max == 65535, "range ends at 65535");
	g.label_if(min == max, "one element");
	g.label_if(min == 0, "range starts at 0");
	g.label_if(max - min > 1000, "more than 1000 numbers");
	let want = max as usize - min as usize + 1;
	let mut it = generate_unique_suffixes(min, max, &h);
	let mut seq = Vec::with_capacity(want);
	for _ in 0..want {
		match it.next() {
			Some(v) => seq.push(v),
			None => return Err(format!("sequence ends after {} of {want} numbers", seq.len())),
		}
	}
	check!(it.next().is_none(), "sequence continues after {want} numbers");
	let set: BTreeSet<u16> = seq.iter().copied().collect();
	check_eq!(set.len(), want, "distinct numbers");
	check!(seq.iter().all(|v| (min..=max).contains(v)), "number outside of the range: {seq:?}");
	// the same again, also through a separately built equal string and when only a part is consumed
	let h2: String = h.chars().collect();
	let k = g.usize(0, want.min(200));
	let again: Vec<u16> = generate_unique_suffixes(min, max, &h2).take(k).collect();
	check_eq!(again, seq[..k].to_vec(), "second sequence of the same handle and range");
	let j = g.usize(0, want - 1);
	check_eq!(generate_unique_suffixes(min, max, &h).nth(j), Some(seq[j]), "element {j} of a new sequence");
	Ok(())
}
fn h01_reference(g: &mut Gen) -> R {
	let (min, max) = gen_range(g);
	let h = gen_handle(g);
	g.note(|| format!("range {min}..={max}, handle {}", esc(&h)));
	if max > min && !h.is_empty() {
		g.nontrivial();
	}
	check_eq!(generate_seed(&h), refseq::seed(&h), "seed of {h:?}");
	let k = (max as usize - min as usize + 1).min(400);
	let got: Vec<u16> = generate_unique_suffixes(min, max, &h).take(k).collect();
	check_eq!(got, refseq::suffixes(min, max, &h, k), "first {k} numbers");
	Ok(())
}
fn h01_handles_differ(g: &mut Gen) -> R {
	let min = g.int(0, 60000) as u16;
	let len = g.int(30, 5000) as u16;
	let max = min.saturating_add(len);
	let a: String = if g.bool() { gen_handle(g) } else { "handle".to_string() + &gen_handle(g) };
	let mut cs: Vec<char> = a.chars().collect();
	let i = g.usize(0, cs.len());
	if i == cs.len() {
		cs.push('x');
	} else if g.bool() {
		cs[i] = if cs[i] == 'q' { 'z' } else { 'q' };
	} else {
		cs.insert(i, 'k');
	}
	let b: String = cs.into_iter().collect();
	if a == b {
		return Ok(());
	}
	g.note(|| format!("range {min}..={max}, handles {a:?} and {b:?}"));
	g.nontrivial();
	let sa: Vec<u16> = generate_unique_suffixes(min, max, &a).collect();
	let sb: Vec<u16> = generate_unique_suffixes(min, max, &b).collect();
	check!(sa != sb, "two handles share one order: {a:?} {b:?}");
	check!(sa[..10] != sb[..10], "two handles share the first ten suffixes: {a:?} {b:?}");
	let up: Vec<u16> = (min..=max).collect();
	let down: Vec<u16> = (min..=max).rev().collect();
	check!(sa != up && sa != down, "the order is plain counting");
	let same = sa.iter().zip(&up).filter(|(x, y)| x == y).count();
	check!(same * 3 < up.len(), "{same} of {} numbers stand at their counting position", up.len());
	Ok(())
}

// ------------------------------------------------------------------ H02
fn h02_each_code_point(g: &mut Gen) -> R {
	let block = g.below(0) as u32;
	let t = table();
	let mut interesting = false;
	for v in (block << 8)..((block + 1) << 8) {
		let Some(c) = char::from_u32(v) else { continue };
		let want = ref_char(c);
		let s = c.to_string();
		interesting |= want != s;
		check_eq!(convert_to_canonical(&s), want, "canonical form of U+{v:04X}");
		check_eq!(
			replace_confusables(&s),
			t.map.get(&c).copied().unwrap_or(c).to_string(),
			"look-alike replacement of U+{v:04X}"
		);
		check_eq!(strip_unicode_whitespace(&s).is_empty(), c.is_whitespace(), "whitespace removal of U+{v:04X}");
		let d: String = c.nfkd().filter(|d| !is_combining_mark(*d)).collect();
		check_eq!(strip_diacriticals(&s), d, "mark removal of U+{v:04X}");
	}
	if interesting {
		g.nontrivial();
	}
	g.note(|| format!("all code points U+{:04X}..U+{:04X}", block << 8, ((block + 1) << 8) - 1));
	Ok(())
}
fn h02_text(g: &mut Gen) -> R {
	let s = gen_text(g);
	g.note(|| esc(&s));
	let want: String = s.chars().map(ref_char).collect();
	if want != s && s.chars().count() > 1 {
		g.nontrivial();
	}
	check_eq!(convert_to_canonical(&s), want, "canonical form of {}", esc(&s));
	let cut = g.usize(0, s.chars().count());
	let a: String = s.chars().take(cut).collect();
	let b: String = s.chars().skip(cut).collect();
	check_eq!(convert_to_canonical(&a) + &convert_to_canonical(&b), want, "canonical form of the two parts of {}", esc(&s));
	let spaces: String = s.chars().filter(|c| !c.is_whitespace()).collect();
	check_eq!(strip_unicode_whitespace(&s), spaces, "whitespace removal");
	Ok(())
}
fn h02_lookalikes(g: &mut Gen) -> R {
	let t = table();
	let base: Vec<char> = g.list(24, 8, |g| match g.weighted(&[4, 4, 3]) {
		0 => g.int(0x21, 0x7E) as u8 as char,
		1 => {
			let r = g.pick(&t.plain_rows);
			*g.pick(r)
		},
		_ => gen_supported(g),
	});
	let s: String = base.iter().collect();
	let canon = convert_to_canonical(&s);
	let mut cur = base;
	let n = g.usize(1, 8);
	let mut desc = vec![];
	for _ in 0..n {
		match g.below(5) {
			0 => {
				let i = g.usize(0, cur.len());
				let c = *g.pick(&t.spaces);
				cur.insert(i, c);
				desc.push("whitespace");
				g.label("whitespace inserted");
			},
			1 => {
				let i = g.usize(0, cur.len());
				let c = *g.pick(&t.marks);
				cur.insert(i, c);
				desc.push("mark");
				g.label("combining mark inserted");
			},
			2 if !cur.is_empty() => {
				let i = g.usize(0, cur.len() - 1);
				let c = cur[i];
				if c == 'l' || c == 'L' {
					g.exclude(); // recorded finding ascii-l-case
				} else {
					cur[i] = if c.is_ascii_lowercase() { c.to_ascii_uppercase() } else { c.to_ascii_lowercase() };
					desc.push("case");
					g.label("letter case changed");
				}
			},
			3 if !cur.is_empty() => {
				let i = g.usize(0, cur.len() - 1);
				let rows: Vec<&Vec<char>> = t.plain_rows.iter().filter(|r| r.contains(&cur[i])).collect();
				if let Some(r) = rows.first() {
					// the head of the row is a look-alike of all; a head that is a key elsewhere is not
					let r: Vec<char> = r.iter().copied().filter(|c| t.plain_rows.iter().filter(|x| x.contains(c)).count() == 1).collect();
					if r.contains(&cur[i]) {
						cur[i] = *g.pick(&r);
						desc.push("look-alike");
						g.label("look-alike substituted");
					}
				}
			},
			_ => {
				let s: String = cur.iter().collect();
				cur = if g.bool() { s.nfd().collect() } else { s.nfc().collect() };
				desc.push("re-spelled");
				g.label("composed/decomposed");
			},
		}
	}
	let v: String = cur.into_iter().collect();
	if v != s {
		g.nontrivial();
	}
	g.note(|| format!("{} | variant ({}) {}", esc(&s), desc.join(","), esc(&v)));
	check_eq!(convert_to_canonical(&v), canon, "canonical form of the variant {} of {}", esc(&v), esc(&s));
	Ok(())
}
/// Every documented look-alike of every row, one row per case.
fn h02_rows(g: &mut Gen) -> R {
	let t = table();
	let i = g.below(0) as usize;
	let Some(row) = t.plain_rows.get(i) else { return Ok(()) };
	g.nontrivial();
	g.note(|| format!("row {row:?}"));
	let all = &t.rows;
	for c in row {
		if all.iter().filter(|r| r.contains(c)).count() > 1 {
			continue;
		}
		for d in row {
			if all.iter().filter(|r| r.contains(d)).count() > 1 {
				continue;
			}
			check_eq!(
				convert_to_canonical(&c.to_string()),
				convert_to_canonical(&d.to_string()),
				"canonical forms of the look-alikes U+{:04X} and U+{:04X}",
				*c as u32,
				*d as u32
			);
		}
	}
	Ok(())
}
fn probe_l() -> Option<String> {
	let (a, b) = (convert_to_canonical("L"), convert_to_canonical("l"));
	(a != b).then(|| format!("\"L\" and \"l\" differ only in letter case, canonical forms {a:?} and {b:?}"))
}

// ------------------------------------------------------------------ H03
fn h03_roundtrip(g: &mut Gen) -> R {
	let base: String = gen_text(g).chars().filter(|c| *c != '.').collect();
	let n = g.int(0, 65535) as u16;
	let text = format!("{base}.{n}");
	g.note(|| format!("{text:?}"));
	if !base.is_empty() {
		g.nontrivial();
	}
	g.label_if(n > 9999, "five-digit suffix");
	check_eq!(split_display_name(&text), Some((base.clone(), n)), "split of {text:?}");
	Ok(())
}
/// Some(Some(x)) must be x, Some(None) must be refused, None: either reading is fine.
fn expected_split(s: &str) -> Option<Option<(String, u16)>> {
	let dots = s.chars().filter(|c| *c == '.').count();
	if dots != 1 {
		return Some(None);
	}
	let at = s.find('.').unwrap_or(0);
	let (b, n) = (&s[..at], &s[at + 1..]);
	let (sign, digits) = match n.strip_prefix('+') {
		Some(r) => (true, r),
		None => (false, n),
	};
	if digits.is_empty() || !digits.bytes().all(|c| c.is_ascii_digit()) {
		return Some(None);
	}
	let sig = digits.trim_start_matches('0');
	if sig.len() > 5 {
		return Some(None);
	}
	let v = sig.bytes().fold(0u32, |a, d| a * 10 + (d - b'0') as u32);
	if v > 65535 {
		return Some(None);
	}
	// an explicit plus sign or leading zeros: reading the number or refusing are both fine
	if sign || (digits.len() > 1 && digits.starts_with('0')) {
		return None;
	}
	Some(Some((b.to_string(), v as u16)))
}
fn gen_suffix_text(g: &mut Gen) -> String {
	match g.below(9) {
		0 => format!("{}", g.int(0, 70000)),
		1 => format!("{}", 65530 + g.int(0, 12)),
		2 => format!("{}", g.int(65536, u64::MAX)),
		3 => format!("-{}", g.int(0, 70000)),
		4 => format!("+{}", g.int(0, 70000)),
		5 => format!("{:07}", g.int(0, 70000)),
		6 => {
			let mut v: Vec<char> = format!("{}", g.int(0, 65535)).chars().collect();
			let i = g.usize(0, v.len());
			let c = match g.below(4) {
				0 => ' ',
				1 => '\u{0660}',
				2 => '_',
				_ => gen_char(g),
			};
			v.insert(i, c);
			v.into_iter().collect()
		},
		7 => String::new(),
		_ => gen_text(g),
	}
}
fn h03_texts(g: &mut Gen) -> R {
	let s = match g.below(5) {
		0 => gen_text(g),
		1 | 2 => format!("{}.{}", gen_text(g), gen_suffix_text(g)),
		3 => format!("{}.{}.{}", gen_text(g), gen_suffix_text(g), gen_suffix_text(g)),
		_ => {
			let delim = *g.pick(&['\u{2024}', '\u{FF0E}', '\u{3002}', ',', '·', ' ', '\u{0660}']);
			format!("{}{delim}{}", gen_text(g), gen_suffix_text(g))
		},
	};
	g.note(|| format!("{s:?}"));
	let got = split_display_name(&s);
	match expected_split(&s) {
		Some(want) => {
			g.label(if want.is_some() { "well-formed" } else { "malformed" });
			if s.contains('.') {
				g.nontrivial();
			}
			check_eq!(got, want, "split of {s:?}");
		},
		None => {
			g.label("sign or leading zeros");
			if let Some((b, n)) = got {
				check_eq!(b, s[..s.find('.').unwrap_or(0)].to_string(), "base of {s:?}");
				let d = s[s.find('.').unwrap_or(0) + 1..].trim_start_matches('+').trim_start_matches('0').to_string();
				check_eq!(n.to_string(), if d.is_empty() { "0".into() } else { d }, "suffix of {s:?}");
			}
		},
	}
	Ok(())
}

// ------------------------------------------------------------------ H04
fn h04_each_code_point(g: &mut Gen) -> R {
	let block = g.below(0) as u32;
	let mut hit = false;
	for v in (block << 8)..((block + 1) << 8) {
		let Some(c) = char::from_u32(v) else { continue };
		let s = c.to_string();
		let want = supported_char(c);
		hit |= want;
		check_eq!(consists_of_supported_unicode_character_sets(&s), want, "support of U+{v:04X}");
		check_eq!(contains_blocked_characters(&s), BLOCKED.contains(c), "blocking of U+{v:04X}");
		check_eq!(is_reserved_handle(&s), false, "reservation of U+{v:04X}");
	}
	if hit || (0x10..0x111).contains(&(block >> 4)) {
		g.nontrivial();
	}
	g.note(|| format!("all code points U+{:04X}..U+{:04X}", block << 8, ((block + 1) << 8) - 1));
	Ok(())
}
fn h04_text(g: &mut Gen) -> R {
	let mut cs: Vec<char> = if g.bool() {
		g.list(30, 8, gen_supported)
	} else {
		g.list(30, 8, |g| g.int(0x61, 0x7A) as u8 as char)
	};
	match g.below(4) {
		0 => {
			let i = g.usize(0, cs.len());
			let c = gen_any(g);
			cs.insert(i, c);
		},
		1 => {
			let i = g.usize(0, cs.len());
			let b: Vec<char> = BLOCKED.chars().collect();
			let c = *g.pick(&b);
			cs.insert(i, c);
		},
		2 => {
			let i = g.usize(0, cs.len());
			let c = *g.pick(&['!', '$', '&', '\'', '*', '+', '-', '/', '=', '?', '[', ']', '^', '_', '|', '~', '\u{FF0E}', '\u{201C}']);
			cs.insert(i, c);
		},
		_ => {},
	}
	if g.chance(1, 6) {
		// text of any length, for what is at its far end
		let n = *g.pick(&[10usize, 32, 33, 64, 100, 300]) + g.usize(0, 5);
		let c = if g.bool() { 'a' } else { gen_supported(g) };
		cs.splice(0..0, std::iter::repeat(c).take(n));
		g.label("long");
	}
	let s: String = cs.iter().collect();
	g.note(|| esc(&s));
	let sup = s.chars().all(supported_char);
	let blk = s.chars().any(|c| BLOCKED.contains(c));
	g.label(if sup { "supported" } else { "unsupported" });
	g.label(if blk { "blocked" } else { "unblocked" });
	if cs.len() > 1 {
		g.nontrivial();
	}
	check_eq!(consists_of_supported_unicode_character_sets(&s), sup, "support of {}", esc(&s));
	check_eq!(contains_blocked_characters(&s), blk, "blocking of {}", esc(&s));
	check_eq!(is_reserved_handle(&s), RESERVED.contains(&s.as_str()), "reservation of {}", esc(&s));
	Ok(())
}
fn h04_reserved(g: &mut Gen) -> R {
	let w = *g.pick(&RESERVED);
	let mut cs: Vec<char> = w.chars().collect();
	let kind = g.below(6);
	match kind {
		0 => {},
		1 => {
			let i = g.usize(0, cs.len() - 1);
			cs[i] = cs[i].to_ascii_uppercase();
		},
		2 => {
			let i = g.usize(0, cs.len());
			let c = gen_char(g);
			cs.insert(i, c);
		},
		3 => {
			let i = g.usize(0, cs.len() - 1);
			cs.remove(i);
		},
		4 => {
			let x = *g.pick(&RESERVED);
			cs.extend(x.chars());
		},
		_ => {
			let i = g.usize(0, cs.len() - 1);
			let c = gen_char(g);
			cs[i] = c;
		},
	}
	let s: String = cs.into_iter().collect();
	g.note(|| format!("{s:?}"));
	g.nontrivial();
	let want = RESERVED.contains(&s.as_str());
	g.label(if want { "reserved word" } else { "near a reserved word" });
	check_eq!(is_reserved_handle(&s), want, "reservation of {s:?}");
	Ok(())
}

fn main() {
	let blocks = 0x1100;
	engine::dict::load(&engine::root(), &["handles-utils"]);
	engine::main(vec![
		Property {
			id: "H01",
			rule: "random inclusive 16-bit ranges (biased to the ends of the 16-bit range, one-element and long ranges) and handle texts; non-trivial: the range has at least two numbers",
			aspects: vec![
				aspect("permutation", 60_000, 1_000_000, h01_permutation),
				aspect("stable-sequence", 200_000, 1_000_000, h01_reference),
				aspect("order-depends-on-handle", 40_000, 200_000, h01_handles_differ),
			],
			known: vec![],
		},
		Property {
			id: "H02",
			rule: "every code point once (blocks of 256), every look-alike row once, and generated texts over supported scripts, look-alikes, marks and whitespace with metamorphic variants; non-trivial: conversion changes the text / the variant differs from the original",
			aspects: vec![
				enumerated("each-code-point", blocks, h02_each_code_point),
				enumerated("each-look-alike-row", 1500, h02_rows),
				aspect("text-vs-reference", 1_200_000, 4_800_000, h02_text),
				aspect("variants-agree", 1_200_000, 4_800_000, h02_lookalikes),
			],
			known: vec![Known { signature: "ascii-l-case", probe: probe_l }],
		},
		Property {
			id: "H03",
			rule: "display handles built from generated base texts and suffixes, and texts that are nearly of that form; non-trivial: non-empty base / contains the delimiter",
			aspects: vec![aspect("round-trip", 1_200_000, 4_800_000, h03_roundtrip), aspect("texts", 3_000_000, 12_000_000, h03_texts)],
			known: vec![],
		},
		Property {
			id: "H04",
			rule: "every code point alone (blocks of 256), generated texts with one foreign or blocked character at a random position, and near-reserved words; non-trivial: more than one character, or a block with supported or astral code points",
			aspects: vec![
				enumerated("each-code-point", blocks, h04_each_code_point),
				aspect("texts", 3_000_000, 12_000_000, h04_text),
				aspect("reserved", 800_000, 3_200_000, h04_reserved),
			],
			known: vec![],
		},
	]);
}
