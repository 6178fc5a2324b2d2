//! Token sequences, the reference token grammar (spec/cst.flat) and the tree oracles.
use crate::Rng;
use sneturfahi::lex::{Selmaho, Token};
use sneturfahi::parse::tree_node::TreeNode;
use std::collections::HashMap;

#[derive(Debug, Clone)]
enum E {
	Ref(usize),
	Any,
	Sel(u16),
	Not1(Vec<u16>),
	Seq(Vec<E>),
	Alt(Vec<E>),
	Opt(Box<E>),
	Star(Box<E>),
	Not(Box<E>),
	Cut(Box<E>),
	Nonempty(Box<E>),
	Till(Box<E>, Box<E>),
}

#[derive(Debug, Clone, Copy, PartialEq, Eq)]
pub enum Out {
	Ok(usize),
	No,
	Cut,
}

pub struct G {
	names: Vec<String>,
	idx: HashMap<String, usize>,
	rules: Vec<E>,
	/// least derivation height of a rule
	h: Vec<u32>,
	up: Vec<Vec<usize>>,
	pub sel: Vec<(String, Selmaho)>,
	byname: HashMap<String, u16>,
	/// selmaho the grammar mentions
	used: Vec<u16>,
}

pub const LIMIT: u64 = 300_000;

impl G {
	pub fn load(spec: &str, words: &[String]) -> Self {
		let mut sel: Vec<(String, Selmaho)> = vec![];
		let mut byname = HashMap::new();
		let mut add = |s: Selmaho| {
			let n = format!("{s:?}");
			byname.entry(n.clone()).or_insert_with(|| {
				sel.push((n, s));
				(sel.len() - 1) as u16
			});
		};
		for w in words.iter().map(|s| s.as_str()).chain(["klama", "lojbo", "brodaklama", "djan", "spageti", "ibu", "zoi", "bu", "zei", "si", "sa", "su"]) {
			if let Ok(s) = std::panic::catch_unwind(|| Selmaho::classify(w).0) {
				add(s);
			}
		}
		for t in ["zoi .a. xyz .a.", "spageti", "brodaklama", "xzqw", "lojbo klama .djan."] {
			let _ = std::panic::catch_unwind(|| sneturfahi::lex(t).filter_map(|k| k.ok()).map(|k| k.selmaho).collect::<Vec<_>>()).map(|v| v.into_iter().for_each(&mut add));
		}
		let text = std::fs::read_to_string(format!("{spec}/cst.flat")).unwrap();
		let lines: Vec<(&str, &str)> = text.lines().filter_map(|l| l.split_once('\t')).collect();
		let names: Vec<String> = lines.iter().map(|l| l.0.to_owned()).collect();
		let idx: HashMap<String, usize> = names.iter().enumerate().map(|(i, n)| (n.clone(), i)).collect();
		let mut g = G { names, idx, rules: vec![], h: vec![], up: vec![], sel, byname, used: vec![] };
		for (_, x) in &lines {
			let x = x.replace('(', " ( ").replace(')', " ) ");
			let ts: Vec<&str> = x.split_whitespace().collect();
			let e = g.expr(&ts, &mut 0);
			g.rules.push(e);
		}
		for r in &g.rules {
			sels(r, &mut g.used);
		}
		g.used.sort_unstable();
		g.used.dedup();
		g.used.retain(|&x| x != 9999);
		let n = g.rules.len();
		g.h = vec![1000; n];
		loop {
			let mut ch = false;
			for i in 0..n {
				let x = g.height(&g.rules[i]) + 1;
				if x < g.h[i] {
					g.h[i] = x;
					ch = true;
				}
			}
			if !ch {
				break;
			}
		}
		g.up = vec![vec![]; n];
		for i in 0..n {
			let mut v = vec![];
			refs(&g.rules[i], &mut v);
			for j in v {
				g.up[j].push(i);
			}
		}
		g
	}

	fn number(&self, n: &str) -> u16 {
		self.byname.get(n).copied().unwrap_or(9999)
	}

	fn expr(&self, ts: &[&str], p: &mut usize) -> E {
		assert_eq!(ts[*p], "(");
		let k = ts[*p + 1];
		*p += 2;
		let mut xs = vec![];
		let mut ws = vec![];
		while ts[*p] != ")" {
			if ts[*p] == "(" {
				xs.push(self.expr(ts, p));
			} else {
				ws.push(ts[*p]);
				*p += 1;
			}
		}
		*p += 1;
		let mut one = || Box::new(xs.remove(0));
		match k {
			"r" => E::Ref(self.idx[ws[0]]),
			"any" => E::Any,
			"s" => E::Sel(self.number(ws[0])),
			"n" => E::Not1(ws.iter().map(|w| self.number(w)).collect()),
			"seq" => E::Seq(xs),
			"alt" => E::Alt(xs),
			"opt" => E::Opt(one()),
			"star" => E::Star(one()),
			"not" => E::Not(one()),
			"cut" => E::Cut(one()),
			"nonempty" => E::Nonempty(one()),
			"till" => {
				let a = one();
				E::Till(a, one())
			}
			_ => panic!("{k}"),
		}
	}

	fn height(&self, e: &E) -> u32 {
		match e {
			E::Ref(i) => self.h[*i],
			E::Any | E::Sel(_) | E::Not1(_) => 1,
			E::Seq(v) => v.iter().map(|x| self.height(x)).max().unwrap_or(0),
			E::Alt(v) => v.iter().map(|x| self.height(x)).min().unwrap_or(0),
			E::Opt(_) | E::Star(_) | E::Not(_) => 0,
			E::Cut(x) | E::Nonempty(x) => self.height(x),
			E::Till(_, x) => self.height(x),
		}
	}
}

fn sels(e: &E, out: &mut Vec<u16>) {
	match e {
		E::Sel(s) => out.push(*s),
		E::Ref(_) | E::Any | E::Not1(_) => {}
		E::Seq(v) | E::Alt(v) => v.iter().for_each(|x| sels(x, out)),
		E::Opt(x) | E::Star(x) | E::Not(x) | E::Cut(x) | E::Nonempty(x) => sels(x, out),
		E::Till(a, b) => {
			sels(a, out);
			sels(b, out);
		}
	}
}

fn refs(e: &E, out: &mut Vec<usize>) {
	match e {
		E::Ref(i) => out.push(*i),
		E::Any | E::Sel(_) | E::Not1(_) => {}
		E::Seq(v) | E::Alt(v) => v.iter().for_each(|x| refs(x, out)),
		E::Opt(x) | E::Star(x) | E::Not(x) | E::Cut(x) | E::Nonempty(x) => refs(x, out),
		E::Till(a, b) => {
			refs(a, out);
			refs(b, out);
		}
	}
}

// ---- matching ------------------------------------------------------------------------------------
/// memoized; also counts the steps a parser without memo would take
struct Run<'a> {
	g: &'a G,
	t: &'a [u16],
	memo: HashMap<(usize, usize), (Out, u64)>,
	cost: u64,
}
impl Run<'_> {
	fn rule(&mut self, r: usize, i: usize) -> Out {
		if let Some(&(o, c)) = self.memo.get(&(r, i)) {
			self.cost = self.cost.saturating_add(c);
			return o;
		}
		let c0 = self.cost;
		self.cost = 0;
		let g = self.g;
		let o = self.e(&g.rules[r], i);
		self.memo.insert((r, i), (o, self.cost));
		self.cost = self.cost.saturating_add(c0);
		o
	}
	fn e(&mut self, e: &E, i: usize) -> Out {
		self.cost = self.cost.saturating_add(1);
		match e {
			E::Ref(r) => self.rule(*r, i),
			E::Any => if i < self.t.len() { Out::Ok(i + 1) } else { Out::No },
			E::Sel(s) => if self.t.get(i) == Some(s) { Out::Ok(i + 1) } else { Out::No },
			E::Not1(v) => if self.t.get(i).map_or(false, |s| !v.contains(s)) { Out::Ok(i + 1) } else { Out::No },
			E::Seq(v) => {
				let mut j = i;
				for x in v {
					match self.e(x, j) {
						Out::Ok(k) => j = k,
						o => return o,
					}
				}
				Out::Ok(j)
			}
			E::Alt(v) => {
				for x in v {
					match self.e(x, i) {
						Out::No => {}
						o => return o,
					}
				}
				Out::No
			}
			E::Opt(x) => match self.e(x, i) {
				Out::No => Out::Ok(i),
				o => o,
			},
			E::Not(x) => match self.e(x, i) {
				Out::No => Out::Ok(i),
				Out::Ok(_) => Out::No,
				o => o,
			},
			E::Cut(x) => match self.e(x, i) {
				Out::No => Out::Cut,
				o => o,
			},
			E::Nonempty(x) => match self.e(x, i) {
				Out::Ok(j) if j == i => Out::No,
				o => o,
			},
			E::Star(x) => {
				let mut j = i;
				loop {
					match self.e(x, j) {
						Out::Ok(k) if k == j => return Out::No,
						Out::Ok(k) => j = k,
						Out::No => return Out::Ok(j),
						o => return o,
					}
				}
			}
			E::Till(a, b) => {
				let mut j = i;
				loop {
					match self.e(b, j) {
						Out::No => {}
						o => return o,
					}
					match self.e(a, j) {
						Out::Ok(k) if k == j => return Out::No,
						Out::Ok(k) => j = k,
						o => return o,
					}
				}
			}
		}
	}
}

// ---- generation ----------------------------------------------------------------------------------
struct Der<'a> {
	g: &'a G,
	r: &'a mut Rng,
	dist: Vec<u32>,
	hit: bool,
	out: Vec<u16>,
	lush: usize,
	/// how often to repeat the first repetition around the target
	long: usize,
}
impl Der<'_> {
	fn edist(&self, e: &E) -> u32 {
		let mut v = vec![];
		refs(e, &mut v);
		v.iter().map(|&i| self.dist[i]).min().unwrap_or(u32::MAX)
	}
	fn repeat(&mut self, a: usize) {
		let w = self.out[a..].to_vec();
		for _ in 0..std::mem::take(&mut self.long) {
			self.out.extend(&w);
		}
	}
	fn word(&mut self) -> u16 {
		word(self.g, self.r)
	}
	fn rule(&mut self, r: usize, d: u32) {
		if self.dist[r] == 0 {
			self.hit = true;
		}
		let g = self.g;
		self.e(&g.rules[r], d);
	}
	fn e(&mut self, e: &E, d: u32) {
		if self.out.len() > 40 {
			return;
		}
		let goal = if self.hit { u32::MAX } else { self.edist(e) };
		let chance = |s: &mut Self, n: usize| s.out.len() < 14 && s.r.below(100) < n && s.g.height(e) <= d;
		match e {
			E::Ref(r) => self.rule(*r, d.saturating_sub(1)),
			E::Any => {
				let w = self.word();
				self.out.push(w);
			}
			E::Sel(s) => self.out.push(*s),
			E::Not1(v) => {
				let mut w = self.word();
				while v.contains(&w) {
					w = self.word();
				}
				self.out.push(w);
			}
			E::Seq(v) => {
				// towards the goal in the one element that is nearest to it
				let best = v.iter().map(|x| self.edist(x)).min().unwrap_or(u32::MAX);
				let at = v.iter().position(|x| self.edist(x) == best);
				for (n, x) in v.iter().enumerate() {
					if !self.hit && goal != u32::MAX && Some(n) != at {
						self.hit = true;
						self.e(x, d);
						self.hit = false;
					} else {
						self.e(x, d);
					}
				}
			}
			E::Alt(v) => {
				if goal != u32::MAX {
					let x = v.iter().find(|x| self.edist(x) == goal).unwrap();
					return self.e(x, d);
				}
				let ok: Vec<&E> = v.iter().filter(|x| self.g.height(x) < d).collect();
				if ok.is_empty() {
					let m = v.iter().map(|x| self.g.height(x)).min().unwrap_or(0);
					if let Some(x) = v.iter().find(|x| self.g.height(x) == m) {
						self.e(x, d);
					}
				} else {
					let x = ok[self.r.below(ok.len())];
					self.e(x, d);
				}
			}
			E::Opt(x) => {
				let l = self.lush;
				if goal != u32::MAX || chance(self, l) {
					self.e(x, d);
				}
			}
			E::Star(x) => {
				if goal != u32::MAX {
					let a = self.out.len();
					self.e(x, d);
					self.repeat(a);
				}
				let l = self.lush;
				while chance(self, l) {
					self.e(x, d);
				}
			}
			E::Not(_) => {}
			E::Cut(x) | E::Nonempty(x) => self.e(x, d),
			E::Till(a, b) => {
				if goal != u32::MAX && self.edist(a) <= self.edist(b) {
					let k = self.out.len();
					self.e(a, d);
					self.repeat(k);
				}
				while chance(self, 40) {
					self.e(a, d);
				}
				self.e(b, d);
			}
		}
	}
}

fn word(g: &G, r: &mut Rng) -> u16 {
	if r.below(12) == 0 {
		r.below(g.sel.len()) as u16
	} else {
		g.used[r.below(g.used.len())]
	}
}

pub fn generate(g: &G, r: &mut Rng, n: u64) -> String {
	let k = g.rules.len();
	let mut toks: Vec<u16>;
	let long = if n % 24 == 7 { [20, 70, 140, 270][r.below(4)] } else { 0 };
	if n < (g.sel.len() * g.sel.len()) as u64 && n % 4 == 0 {
		toks = vec![word(g, r), word(g, r)];
		if r.below(2) == 0 {
			toks.push(word(g, r));
		}
	} else {
		let target = r.below(k);
		let mut dist = vec![u32::MAX; k];
		dist[target] = 0;
		let mut todo = std::collections::VecDeque::from([target]);
		while let Some(x) = todo.pop_front() {
			for &u in &g.up[x] {
				if dist[u] == u32::MAX {
					dist[u] = dist[x] + 1;
					todo.push_back(u);
				}
			}
		}
		let lush = if long > 0 { 3 } else { [5, 15, 30, 50][r.below(4)] };
		let depth = if long > 0 { 2 } else { 8 + r.below(30) as u32 };
		let mut d = Der { g, r: &mut *r, dist, hit: false, out: vec![], lush, long };
		d.rule(0, depth);
		toks = d.out;
	}
	let m = if long > 0 { 0 } else { [0, 0, 1, 1, 2, 3][r.below(6)] };
	for _ in 0..m {
		let l = toks.len();
		let w = if r.below(3) == 0 && l > 0 { toks[r.below(l)] } else { word(g, r) };
		match r.below(5) {
			0 if l > 0 => {
				toks.remove(r.below(l));
			}
			1 | 2 => toks.insert(r.below(l + 1), w),
			3 if l > 0 => toks[r.below(l)] = w,
			4 if l > 1 => {
				let i = r.below(l - 1);
				toks.swap(i, i + 1);
			}
			_ => toks.truncate(r.below(l + 1)),
		}
	}
	toks.truncate(if long > 0 { 600 } else { 45 });
	let exp = [0, 0, 1, 3][r.below(4)];
	toks.iter()
		.filter(|&&t| t != 9999)
		.map(|&t| {
			let n = &g.sel[t as usize].0;
			let star = exp > 0 && r.below(8) < exp && n != "ZoiDelimiter" && n != "AnyText";
			format!("{n}{}", if star { "*" } else { "" })
		})
		.collect::<Vec<_>>()
		.join(" ")
}

// ---- oracles --------------------------------------------------------------------------------------
struct Node<'a> {
	n: &'a dyn TreeNode,
	kids: Vec<Node<'a>>,
	leaves: (usize, usize),
}

fn build<'a>(n: &'a dyn TreeNode, all: &mut Vec<&'a dyn TreeNode>) -> Node<'a> {
	let a = all.len();
	let mut ks: Vec<&'a dyn TreeNode> = vec![];
	n.for_each_child(&mut |c| ks.push(c));
	let kids: Vec<Node<'a>> = ks.into_iter().map(|k| build(k, all)).collect();
	if kids.is_empty() && n.start_location().is_some() {
		all.push(n);
	}
	Node { n, kids, leaves: (a, all.len()) }
}

fn walk<'a, 'b>(n: &'b Node<'a>, f: &mut dyn FnMut(&'b Node<'a>) -> Result<(), String>) -> Result<(), String> {
	f(n)?;
	n.kids.iter().try_for_each(|k| walk(k, f))
}

pub fn check(g: &G, p: &str, case: &str) -> Result<(), String> {
	let mut toks = vec![];
	for (k, w) in case.split_whitespace().enumerate() {
		let (w, e) = w.strip_suffix('*').map_or((w, false), |w| (w, true));
		// a name the crate does not have is not a token sequence
		let Some(&n) = g.byname.get(w) else { return Ok(()) };
		let s = k as u32 * 3 + 1;
		toks.push(Token { experimental: e, selmaho: g.sel[n as usize].1, span: sneturfahi::Span { start: s.into(), end: (s + 1).into() } });
	}
	let nums: Vec<u16> = toks.iter().map(|t| g.byname[&format!("{:?}", t.selmaho)]).collect();
	let mut run = Run { g, t: &nums, memo: HashMap::new(), cost: 0 };
	let want = run.rule(0, 0);
	if run.cost > LIMIT * (1 + toks.len() as u64 / 50) {
		return Ok(()); // too slow for a parser that backtracks
	}
	let arena = sneturfahi::Arena::new();
	let got = sneturfahi::Cst::parse(&toks, &arena);
	let cst = match got {
		Err(e) => {
			if p == "C16" && want == Out::Ok(toks.len()) {
				return Err(format!("rejected ({:?} at token {}), but the reference derives it", e.error, toks.len() as isize - e.location.len() as isize));
			}
			if p == "C15" {
				let n = e.location.len();
				if n > toks.len() || (n > 0 && e.location.as_ptr() != toks[toks.len() - n..].as_ptr()) {
					return Err("the location is not a suffix of the input".into());
				}
				if let sneturfahi::parse::cst::Error::ExpectedGot { got, .. } = &e.error {
					if got.as_ref() != e.location.first() {
						return Err(format!("the error says {got:?}, the location has {:?}", e.location.first()));
					}
				}
			}
			return Ok(());
		}
		Ok(c) => c,
	};
	if p == "C16" && want != Out::Ok(toks.len()) {
		return Err("accepted, but the reference does not derive it".into());
	}
	if !matches!(p, "C12" | "C13" | "C16") {
		return Ok(());
	}
	let mut all = vec![];
	let root = build(cst.root(), &mut all);
	if p == "C12" {
		let got: Vec<_> = all.iter().map(|n| (n.start_location().unwrap(), n.end_location().unwrap(), n.experimental())).collect();
		let want: Vec<_> = toks.iter().map(|t| (t.span.start, t.span.end, t.experimental)).collect();
		if got != want {
			return Err(format!("leaves {got:?}"));
		}
		for (n, t) in all.iter().zip(&toks) {
			if g.byname.contains_key(n.name()) && n.name() != format!("{:?}", t.selmaho) {
				return Err(format!("a leaf {} for a token {:?}", n.name(), t.selmaho));
			}
		}
	}
	if p == "C13" {
		walk(&root, &mut |x| {
			let l = &all[x.leaves.0..x.leaves.1];
			let want = (l.iter().any(|n| n.experimental()), l.first().and_then(|n| n.start_location()), l.last().and_then(|n| n.end_location()));
			let got = (x.n.experimental(), x.n.start_location(), x.n.end_location());
			if got != want {
				return Err(format!("{}: (experimental, start, end) is {got:?}, its tokens say {want:?}", x.n.name()));
			}
			Ok(())
		})?;
		// and the root's leaves are the tokens
		let got: Vec<_> = all.iter().map(|n| (n.start_location(), n.experimental())).collect();
		let want: Vec<_> = toks.iter().map(|t| (Some(t.span.start), t.experimental)).collect();
		if got != want {
			return Err(format!("visited {got:?}"));
		}
	}
	if p == "C16" {
		walk(&root, &mut |x| {
			let (a, b) = x.leaves;
			if b > a && !g.byname.contains_key(x.n.name()) {
				if let Some(&r) = g.idx.get(x.n.name()) {
					let o = run.rule(r, a);
					if o != Out::Ok(b) {
						return Err(format!("{} takes tokens {a} to {b}; the reference says {o:?}", x.n.name()));
					}
				}
			}
			Ok(())
		})?;
	}
	Ok(())
}

/// greedy deletion of tokens
pub fn smaller(case: &str) -> Vec<String> {
	let w: Vec<&str> = case.split_whitespace().collect();
	let mut out = vec![];
	for sz in [128, 64, 32, 16, 8, 4, 2, 1] {
		for i in 0..w.len() {
			if i + sz <= w.len() && sz <= w.len() {
				out.push([&w[..i], &w[i + sz..]].concat().join(" "));
			}
		}
	}
	for i in 0..w.len() {
		if let Some(x) = w[i].strip_suffix('*') {
			let mut v = w.clone();
			v[i] = x;
			out.push(v.join(" "));
		}
	}
	out
}
