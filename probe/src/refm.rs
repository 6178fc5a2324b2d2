//! Reference semantics (oracle): decomposition, classification and lexing, over the reference
//! grammar and the frozen cmavo table.  Independent of /repo's code.
use crate::peg::{Grammar, Run};
use std::collections::{HashMap, HashSet};

pub struct Ref {
	pub g: Grammar,
	pub table: HashMap<String, (String, bool)>,
	pub fundamental: HashSet<String>,
	pub words: Vec<String>,
}

pub fn is_sep(c: char) -> bool {
	matches!(c, '.' | '\t' | '\n' | '\r' | '?' | '!' | ' ')
}
fn is_cons(c: char) -> bool {
	"bcdfgjklmnprstvxz".contains(c.to_ascii_lowercase())
}
pub fn strip(s: &str) -> Vec<char> {
	s.chars().filter(|&c| c != ',').collect()
}

/// token of the reference lexer; boundaries count non-comma characters
#[derive(Debug, Clone, PartialEq, Eq)]
pub struct Tok {
	pub selmaho: String,
	pub exp: bool,
	pub a: usize,
	pub b: usize,
	/// exact end (bytes) of a raw piece
	pub end: Option<usize>,
}

impl Ref {
	pub fn load(spec: &str) -> Self {
		let mut table = HashMap::new();
		let mut fundamental = HashSet::new();
		let mut words = vec![];
		for l in std::fs::read_to_string(format!("{spec}/selmaho.txt")).unwrap().lines() {
			if l.starts_with('#') || l.is_empty() {
				continue;
			}
			let w: Vec<&str> = l.split(' ').collect();
			if w[0] == "!fundamental" {
				fundamental.extend(w[1..].iter().map(|s| s.to_string()));
				continue;
			}
			for x in &w[2..] {
				table.entry(x.to_string()).or_insert((w[0].to_owned(), w[1] == "e"));
				words.push(x.to_string());
			}
		}
		Ref { g: Grammar::load(&format!("{spec}/morph.peg")), table, fundamental, words }
	}

	/// words of one chunk (no separators), as end positions in the stripped text
	pub fn dec(&self, t: &[char]) -> Vec<usize> {
		let mut r = Run::new(&self.g, t.to_vec());
		let n = t.len();
		if n == 0 {
			return vec![];
		}
		if is_cons(t[n - 1]) {
			return vec![n];
		}
		let mut out = vec![];
		let mut at = 0;
		while at < n {
			let falls = |r: &mut Run, at: usize| {
				r.rule("cmavo_minimal", at).or_else(|| r.rule("explicitly_stressed_brivla_minimal", at))
			};
			let step = falls(&mut r, at).filter(|&b| {
				falls(&mut r, b).is_some()
					|| (r.rule("nucleus", b).is_none()
						&& ["gismu", "fuhivla", "lujvo_minimal", "cmavo_minimal"].iter().any(|x| r.rule(x, b).is_some()))
			});
			match step {
				Some(b) => {
					out.push(b);
					at = b;
				}
				None => {
					out.push(n);
					at = n;
				}
			}
		}
		out
	}

	pub fn classify(&self, word: &str) -> (String, bool) {
		let t = strip(word);
		let norm: String = t.iter().map(|&c| if c == 'h' { '\'' } else { c }).collect();
		let (s, e) = if let Some((s, e)) = self.table.get(&norm) {
			(s.clone(), *e)
		} else if !t.is_empty() && t.iter().all(|&c| c == 'y') {
			("Y".to_owned(), false)
		} else {
			let n = t.len();
			let mut r = Run::new(&self.g, t);
			let all = [("cmevla", "Cmevla"), ("cmavo_minimal", "UnknownCmavo"), ("gismu", "Gismu"), ("fuhivla", "Fuhivla"), ("lujvo_minimal", "Lujvo")];
			(all.iter().find(|(p, _)| r.rule(p, 0) == Some(n)).map_or("AnyText", |x| x.1).to_owned(), false)
		};
		let f = self.fundamental.contains(&s);
		(s, e || f)
	}
}

/// reference state of the word iterator: `at` = index (chars of the text) of the first character
/// not yet given out, None when everything is
pub struct Words<'r> {
	pub r: &'r Ref,
	pub t: Vec<char>,
	pub at: Option<usize>,
}

impl<'r> Words<'r> {
	pub fn new(r: &'r Ref, s: &str) -> Self {
		Words { r, t: s.chars().collect(), at: Some(0) }
	}
	fn cend(&self, i: usize) -> usize {
		(i..self.t.len()).find(|&j| is_sep(self.t[j])).unwrap_or(self.t.len())
	}
	fn after(&self, e: usize) -> Option<usize> {
		let c = self.cend(e);
		if self.t[e..c].iter().any(|&x| x != ',') {
			Some(e)
		} else if c == self.t.len() {
			None
		} else {
			Some(c + 1)
		}
	}
	/// next word; indices into `t`, commas at either side excluded
	pub fn next(&mut self) -> Option<(usize, usize)> {
		let mut i = self.at?;
		self.at = None;
		while i < self.t.len() && (self.t[i] == ',' || is_sep(self.t[i])) {
			i += 1;
		}
		if i == self.t.len() {
			return None;
		}
		let c = self.cend(i);
		let chunk: Vec<char> = self.t[i..c].iter().copied().filter(|&x| x != ',').collect();
		let n = self.r.dec(&chunk)[0];
		let mut e = i;
		let mut k = 0;
		while k < n {
			if self.t[e] != ',' {
				k += 1;
			}
			e += 1;
		}
		self.at = self.after(e);
		Some((i, e))
	}
	pub fn next_raw(&mut self) -> Option<(usize, usize)> {
		let i = self.at?;
		let c = self.cend(i);
		self.at = if c == self.t.len() { None } else { Some(c + 1) };
		Some((i, c))
	}
	fn nc(&self, i: usize) -> usize {
		self.t[..i].iter().filter(|&&c| c != ',').count()
	}
	fn txt(&self, w: (usize, usize)) -> String {
		self.t[w.0..w.1].iter().collect()
	}
}

/// reference lexer: tokens and the error, if any (kind, initiator boundary, delimiter boundary)
pub fn lex(r: &Ref, s: &str) -> (Vec<Tok>, Option<(String, (usize, usize), Option<(usize, usize)>)>) {
	let mut w = Words::new(r, s);
	let mut out = vec![];
	let tok = |w: &Words, sel: &str, exp: bool, x: (usize, usize)| Tok { selmaho: sel.to_owned(), exp, a: w.nc(x.0), b: w.nc(x.1), end: None };
	let raw = |w: &Words, sel: &str, x: (usize, usize)| Tok { end: Some(w.t[..x.1].iter().map(|c| c.len_utf8()).sum()), ..tok(w, sel, false, x) };
	let sp = |w: &Words, x: (usize, usize)| (w.nc(x.0), w.nc(x.1));
	while let Some(x) = w.next() {
		let (sel, exp) = r.classify(&w.txt(x));
		let quotes = match sel.as_str() {
			"Zoi" | "Muhoi" => 1,
			"Sohehai" => 2,
			_ => 0,
		};
		if quotes > 0 {
			let Some(mut d) = w.next() else {
				return (out, Some(("DelimitedQuoteMissingSeparator".into(), sp(&w, x), None)));
			};
			out.push(tok(&w, &sel, exp, x));
			// nothing of a quote is given out before its end is known
			for q in 0..quotes {
				let ds = strip(&w.txt(d));
				let mut text: Option<(usize, usize)> = None;
				let e = loop {
					let Some(p) = w.next_raw() else {
						return (out, Some(("DelimitedQuoteUnclosed".into(), sp(&w, x), Some(sp(&w, d)))));
					};
					if strip(&w.txt(p)) == ds {
						break p;
					}
					text = Some((text.map_or(p.0, |t| t.0), p.1));
				};
				if q == 0 {
					out.push(tok(&w, "ZoiDelimiter", false, d));
				}
				if let Some(t) = text {
					out.push(raw(&w, "AnyText", t));
				}
				out.push(raw(&w, "ZoiDelimiter", e));
				d = e;
			}
			continue;
		}
		out.push(tok(&w, &sel, exp, x));
		match sel.as_str() {
			"Mehoi" | "Zohoi" | "Dohoi" => match w.next_raw() {
				Some(p) => out.push(raw(&w, "AnyText", p)),
				None => return (out, Some(("PauseDelimitedQuoteEof".into(), sp(&w, x), None))),
			},
			"Faho" | "Fahoho" => return (out, None),
			_ => (),
		}
	}
	(out, None)
}
