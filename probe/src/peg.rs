//! Interpreter for the reference grammars in /verif/spec/*.peg (same syntax as tools/vx/peg.py).
use std::collections::HashMap;

#[derive(Debug, Clone)]
pub enum E {
	Nt(usize),
	Cls(Vec<char>),
	Seq(Vec<E>),
	Alt(Vec<E>),
	Not(Box<E>),
	And(Box<E>),
	Opt(Box<E>),
	Rep(Box<E>, usize),
	Longest(Vec<E>),
	Eof,
}

pub struct Grammar {
	pub names: HashMap<String, usize>,
	pub rules: Vec<E>,
}

struct P<'a> {
	t: Vec<String>,
	i: usize,
	names: &'a HashMap<String, usize>,
}

fn tokens(s: &str) -> Vec<String> {
	let c: Vec<char> = s.chars().collect();
	let mut i = 0;
	let mut out = vec![];
	while i < c.len() {
		let ch = c[i];
		if ch.is_whitespace() {
			i += 1;
		} else if ch == '[' {
			let j = (i..c.len()).find(|&j| c[j] == ']').unwrap();
			out.push(c[i..=j].iter().collect());
			i = j + 1;
		} else if ch == '{' {
			let j = (i..c.len()).find(|&j| c[j] == '}').unwrap();
			out.push(c[i..=j].iter().collect());
			i = j + 1;
		} else if ch.is_alphanumeric() || ch == '_' {
			let mut j = i;
			while j < c.len() && (c[j].is_alphanumeric() || c[j] == '_') {
				j += 1;
			}
			out.push(c[i..j].iter().collect());
			i = j;
		} else {
			out.push(ch.to_string());
			i += 1;
		}
	}
	out
}

impl P<'_> {
	fn peek(&self) -> &str {
		self.t.get(self.i).map_or("", |s| s)
	}
	fn alt(&mut self, sep: &str) -> Vec<E> {
		let mut xs = vec![self.seq()];
		while self.peek() == sep {
			self.i += 1;
			xs.push(self.seq());
		}
		xs
	}
	fn alte(&mut self) -> E {
		let mut xs = self.alt("/");
		if xs.len() == 1 {
			xs.pop().unwrap()
		} else {
			E::Alt(xs)
		}
	}
	fn seq(&mut self) -> E {
		let mut xs = vec![];
		while !matches!(self.peek(), "" | "/" | "|" | ")") {
			xs.push(self.prefix());
		}
		if xs.len() == 1 {
			xs.pop().unwrap()
		} else {
			E::Seq(xs)
		}
	}
	fn prefix(&mut self) -> E {
		match self.peek() {
			"!" => {
				self.i += 1;
				E::Not(Box::new(self.prefix()))
			}
			"&" => {
				self.i += 1;
				E::And(Box::new(self.prefix()))
			}
			_ => {
				let mut e = self.atom();
				loop {
					let p = self.peek().to_owned();
					e = match p.as_str() {
						"?" => E::Opt(Box::new(e)),
						"*" => E::Rep(Box::new(e), 0),
						"+" => E::Rep(Box::new(e), 1),
						s if s.starts_with('{') => E::Rep(Box::new(e), s[1..s.len() - 2].parse().unwrap()),
						_ => return e,
					};
					self.i += 1;
				}
			}
		}
	}
	fn atom(&mut self) -> E {
		let t = self.peek().to_owned();
		self.i += 1;
		if t == "(" {
			let e = self.alte();
			assert_eq!(self.peek(), ")");
			self.i += 1;
			e
		} else if t.starts_with('[') {
			let v: Vec<char> = t.chars().collect();
			E::Cls(v[1..v.len() - 1].to_vec())
		} else if t == "eof" {
			E::Eof
		} else if t == "longest" {
			self.i += 1;
			let xs = self.alt("|");
			self.i += 1;
			E::Longest(xs)
		} else {
			E::Nt(*self.names.get(&t).unwrap_or_else(|| panic!("undefined {t}")))
		}
	}
}

impl Grammar {
	pub fn load(path: &str) -> Self {
		let text = std::fs::read_to_string(path).unwrap();
		let mut names = HashMap::new();
		let mut lines = vec![];
		for l in text.lines() {
			let l = l.split('#').next().unwrap();
			if let Some((n, r)) = l.split_once('=') {
				names.insert(n.trim().to_owned(), lines.len());
				lines.push(r.to_owned());
			}
		}
		let rules = lines
			.iter()
			.map(|r| {
				let mut p = P { t: tokens(r), i: 0, names: &names };
				let e = p.alte();
				assert_eq!(p.i, p.t.len(), "{r}");
				e
			})
			.collect();
		Grammar { names, rules }
	}
}

/// memoised evaluation on one text; positions are indices into `s`
pub struct Run<'g> {
	g: &'g Grammar,
	pub s: Vec<char>,
	memo: HashMap<(usize, usize), Option<usize>>,
}

impl<'g> Run<'g> {
	pub fn new(g: &'g Grammar, s: Vec<char>) -> Self {
		Run { g, s, memo: HashMap::new() }
	}
	pub fn rule(&mut self, n: &str, at: usize) -> Option<usize> {
		let i = self.g.names[n];
		self.nt(i, at)
	}
	fn nt(&mut self, i: usize, at: usize) -> Option<usize> {
		if let Some(r) = self.memo.get(&(i, at)) {
			return *r;
		}
		let g = self.g;
		let r = self.e(&g.rules[i], at);
		self.memo.insert((i, at), r);
		r
	}
	fn e(&mut self, e: &E, at: usize) -> Option<usize> {
		match e {
			E::Nt(i) => self.nt(*i, at),
			E::Cls(c) => (at < self.s.len() && c.contains(&self.s[at])).then_some(at + 1),
			E::Seq(xs) => xs.iter().try_fold(at, |a, x| self.e(x, a)),
			E::Alt(xs) => xs.iter().find_map(|x| self.e(x, at)),
			E::Not(x) => self.e(x, at).is_none().then_some(at),
			E::And(x) => self.e(x, at).map(|_| at),
			E::Opt(x) => Some(self.e(x, at).unwrap_or(at)),
			E::Rep(x, min) => {
				let (mut n, mut a) = (0, at);
				while let Some(b) = self.e(x, a) {
					n += 1;
					if b == a {
						break;
					}
					a = b;
				}
				(n >= *min).then_some(a)
			}
			E::Longest(xs) => {
				let mut best: Option<usize> = None;
				for x in xs {
					if let Some(r) = self.e(x, at) {
						if best.map_or(true, |b| r > b) {
							best = Some(r);
						}
					}
				}
				best
			}
			E::Eof => (at == self.s.len()).then_some(at),
		}
	}
}

/// random derivation ignoring lookahead (most results are near-words)
pub fn sample(g: &Grammar, n: &str, r: &mut crate::Rng, depth: usize) -> String {
	let mut out = String::new();
	go(g, &g.rules[g.names[n]], r, depth, &mut out);
	out
}
fn go(g: &Grammar, e: &E, r: &mut crate::Rng, d: usize, out: &mut String) {
	if out.len() > 60 {
		return;
	}
	match e {
		E::Nt(i) => {
			if d > 0 {
				go(g, &g.rules[*i], r, d - 1, out)
			}
		}
		E::Cls(c) => out.push(c[r.below(c.len())]),
		E::Seq(xs) => xs.iter().for_each(|x| go(g, x, r, d, out)),
		E::Alt(xs) | E::Longest(xs) => go(g, &xs[r.below(xs.len())], r, d, out),
		E::Not(_) | E::And(_) | E::Eof => {}
		E::Opt(x) => {
			if r.below(2) == 0 {
				go(g, x, r, d, out)
			}
		}
		E::Rep(x, m) => {
			for _ in 0..*m + [0, 0, 1, 1, 2][r.below(5)] {
				go(g, x, r, d, out)
			}
		}
	}
}
