//! Dictionary of the literals of the code under test, mixed into the generated inputs (inputs only:
//! no oracle looks at it). A condition on one odd value in the code is then reached quickly.
use std::collections::BTreeSet;
use std::sync::OnceLock;

#[derive(Default, Debug)]
pub struct Dict {
	pub ints: Vec<u64>,
	pub strs: Vec<String>,
}
static DICT: OnceLock<Dict> = OnceLock::new();

pub fn get() -> Option<&'static Dict> {
	DICT.get()
}

/// Reads the sources below wrap/<crate>/ of every given crate.
pub fn load(root: &str, crates: &[&str]) {
	let mut ints = BTreeSet::new();
	let mut strs = BTreeSet::new();
	for c in crates {
		walk(&std::path::PathBuf::from(format!("{root}/wrap/{c}")), &mut ints, &mut strs);
	}
	let _ = DICT.set(Dict { ints: ints.into_iter().collect(), strs: strs.into_iter().collect() });
}
fn walk(p: &std::path::Path, ints: &mut BTreeSet<u64>, strs: &mut BTreeSet<String>) {
	let Ok(rd) = std::fs::read_dir(p) else { return };
	let mut es: Vec<_> = rd.flatten().map(|e| e.path()).collect();
	es.sort();
	for e in es {
		let name = e.file_name().and_then(|n| n.to_str()).unwrap_or("").to_string();
		if e.is_dir() {
			if name != "tests" {
				walk(&e, ints, strs);
			}
		} else if name.ends_with(".rs") && !name.starts_with("test") && !name.starts_with("mock") && name != "weights.rs" && name != "benchmarking.rs" {
			if let Ok(t) = std::fs::read_to_string(&e) {
				scan(&t, ints, strs);
			}
		}
	}
}
fn scan(t: &str, ints: &mut BTreeSet<u64>, strs: &mut BTreeSet<String>) {
	let b: Vec<char> = t.chars().collect();
	let mut i = 0;
	let mut word = false; // inside an identifier
	while i < b.len() {
		let c = b[i];
		if c == '/' && b.get(i + 1) == Some(&'/') {
			while i < b.len() && b[i] != '\n' {
				i += 1;
			}
			word = false;
			continue;
		}
		if c == '"' {
			let mut s = String::new();
			i += 1;
			while i < b.len() && b[i] != '"' {
				if b[i] == '\\' {
					i += 1;
					match b.get(i) {
						Some('n') => s.push('\n'),
						Some('t') => s.push('\t'),
						Some('0') => s.push('\0'),
						Some('u') => {
							let h: String = b[i..].iter().skip(2).take_while(|x| x.is_ascii_hexdigit()).collect();
							if let Some(c) = u32::from_str_radix(&h, 16).ok().and_then(char::from_u32) {
								s.push(c);
							}
							i += h.len() + 2;
						},
						Some(x) => s.push(*x),
						None => {},
					}
				} else {
					s.push(b[i]);
				}
				i += 1;
			}
			i += 1;
			if s.len() <= 64 {
				strs.insert(s);
			}
			word = false;
			continue;
		}
		if c == '\'' {
			if let (Some(x), Some('\'')) = (b.get(i + 1), b.get(i + 2)) {
				strs.insert(x.to_string());
				ints.insert(*x as u64);
				i += 3;
				word = false;
				continue;
			}
			if b.get(i + 1) == Some(&'\\') && b.get(i + 2) == Some(&'u') {
				let h: String = b[i..].iter().skip(4).take_while(|x| x.is_ascii_hexdigit()).collect();
				if let Some(c) = u32::from_str_radix(&h, 16).ok().and_then(char::from_u32) {
					strs.insert(c.to_string());
					ints.insert(c as u64);
				}
				i += 4;
				continue;
			}
		}
		if c.is_ascii_digit() && !word {
			let s: String = b[i..].iter().take_while(|x| x.is_ascii_alphanumeric() || **x == '_').filter(|x| **x != '_').collect();
			let len = b[i..].iter().take_while(|x| x.is_ascii_alphanumeric() || **x == '_').count();
			let v = if let Some(h) = s.strip_prefix("0x") {
				let h: String = h.chars().take_while(|c| c.is_ascii_hexdigit()).collect();
				u64::from_str_radix(&h, 16).ok()
			} else {
				let d: String = s.chars().take_while(|c| c.is_ascii_digit()).collect();
				d.parse().ok()
			};
			if let Some(v) = v {
				ints.insert(v);
			}
			i += len.max(1);
			word = false;
			continue;
		}
		word = c.is_alphanumeric() || c == '_';
		i += 1;
	}
}
