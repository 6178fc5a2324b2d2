//! Case generators: small inputs exhaustively, then random ones built from the reference grammar.
use crate::props::Cx;
use crate::{peg, run_case, Rng};

pub struct Gen {
	prop: String,
	r: Rng,
	n: u64,
	ex: Vec<Vec<char>>, // alphabets to enumerate
	exi: usize,
	len: usize,
	cur: Vec<usize>,
	maxlen: Vec<usize>,
	shard: (u64, u64),
	exn: u64,
}

const WORDS: &[&str] = &[
	"zoi", "la'o", "mu'oi", "so'e'ai", "me'oi", "zo'oi", "do'oi", "fa'o", "gy", "gy.", "y", "yy", "zo", "lo'u", "le'u", "broda", "mi", "do", "lo", "se", "na", "ku", "cu", "ko'a", "nelci", "jimpe",
	"bangu", "gerku", "prenu", "klama", "cipna", "djan", "la", "alis", "ckuropn", "spageti", "blabigerku", "tosmabru", "ma", "uenzi", "iglu", "sinkrboa", "brivla", "sneturfa'i", "lojbo", "lobykai",
	"KLama", "klAma", "mlatypre", "ba'e", "cu'u'u", "bu", "si", "sa", "su", "i", "ni'o", "nai", "xu", "ie", "ui", "ai", "a'oi", "pa", "re", "li", "vei", "te", "bi'ai", "fa'u'u'u'u'u'u'u'u",
];

const TEXTY: &[&str] = &["C03", "C04", "C05", "C07", "C09", "C10", "C11"];

fn env(k: &str, d: u64) -> u64 {
	std::env::var(k).ok().and_then(|v| v.parse().ok()).unwrap_or(d)
}

impl Gen {
	pub fn new(_cx: &Cx, prop: &str, seed: u64) -> Self {
		let c = |s: &str| s.chars().collect::<Vec<_>>();
		let (ex, maxlen) = match prop {
			"C06" | "C08" => (vec![c("aiun'rlbktsz"), c("aeiouybcdfgjklmnprstvxz',AEn"), c("aAuykbrst,n'")], vec![4, 3, 4]),
			p if TEXTY.contains(&p) => (vec![c("ai. ,kn"), c("aieu'ybcrl ,.n?é")], vec![5, 3]),
			_ => (vec![], vec![]),
		};
		Gen { prop: prop.to_owned(), r: Rng::new(seed), n: 0, ex, exi: 0, len: 0, cur: vec![], maxlen, shard: (env("PROBE_SHARD", 0), env("PROBE_SHARDS", 1)), exn: 0 }
	}

	fn word(&mut self, cx: &Cx) -> String {
		let r = &mut self.r;
		let g = &cx.r.g;
		let mut w = match r.below(16) {
			0..=3 => WORDS[r.below(WORDS.len())].to_owned(),
			4 | 5 => cx.r.words[r.below(cx.r.words.len())].clone(),
			6 => peg::sample(g, "gismu", r, 12),
			7 => peg::sample(g, "fuhivla", r, 12),
			8 => peg::sample(g, "lujvo_minimal", r, 12),
			9 => peg::sample(g, "cmevla", r, 12),
			10 | 11 => peg::sample(g, "cmavo_form", r, 12),
			12 => peg::sample(g, "explicitly_stressed_brivla_minimal", r, 14),
			13 => peg::sample(g, "cvcy_lujvo", r, 12),
			14 => (0..r.below(7)).map(|_| ["b", "c", "k", "s", "t", "n", "r", "l", "a", "e", "i", "u", "y", "'", "h", "o", "x", "d", "z", "j", "A", "U", "1"][r.below(23)]).collect(),
			_ => ["é", "ß", "", "\u{10348}x", "日本", "1", "23", "x", "bdx", "Ab", ",", ",,"][r.below(12)].to_owned(),
		};
		if r.below(3) > 0 {
			w = w.to_lowercase();
		}
		if r.below(12) == 0 && !w.is_empty() {
			let k = r.below(w.chars().count());
			w = w.chars().enumerate().map(|(i, c)| if i == k { c.to_ascii_uppercase() } else { c }).collect();
		}
		w
	}

	fn text(&mut self, cx: &Cx) -> String {
		let k = 1 + if self.r.below(4) > 0 { self.r.below(3) } else { self.r.below(6) };
		let mut t = String::new();
		let commas = self.r.below(3) == 0;
		for i in 0..k {
			if i > 0 || self.r.below(6) == 0 {
				let s = [" ", "", "", ".", " .", "\n", "?!", "\t\r", "  "][self.r.below(9)];
				t += s;
			}
			if self.r.below(7) == 0 {
				t += ["zoi ", "zoi gy ", "me'oi ", "so'e'ai ", "mu'oi.gy.", "zo'oi", " gy ", " fa'o "][self.r.below(8)];
			}
			t += &self.word(cx);
		}
		if self.r.below(6) == 0 {
			t += [" ", ".", "  ", ",", ". ,"][self.r.below(5)];
		}
		if commas {
			t = self.commas(&t, 5);
		}
		self.cap(&t)
	}

	/// the recognizers take exponential time on some long chunks (not claimed otherwise): keep chunks short
	fn cap(&mut self, t: &str) -> String {
		let max = [6, 6, 7, 8, 8, 9, 9, 10, 11, 13][self.r.below(10)];
		let mut o = String::new();
		let mut run = 0;
		let mut all = 0;
		for ch in t.chars() {
			all += usize::from(ch != ',');
			if all > 48 {
				break;
			}
			run = if crate::refm::is_sep(ch) { 0 } else { run + usize::from(ch != ',') };
			if run > max || (run > 6 && !ch.is_ascii()) {
				o.push(' ');
				run = 1;
			}
			o.push(ch);
		}
		o
	}

	/// commas strewn into a text, about one place in k, sometimes long runs of them
	fn commas(&mut self, t: &str, k: usize) -> String {
		let mut o = String::new();
		let long = if self.r.below(10) == 0 { self.r.below(t.chars().count() + 1) } else { usize::MAX };
		for (i, ch) in t.chars().enumerate() {
			if i == long {
				let n = [8 + self.r.below(12), 16 + self.r.below(40), 48 + self.r.below(250)][self.r.below(3)];
				o.extend(std::iter::repeat(',').take(n));
			} else if self.r.below(k) == 0 {
				self.run(&mut o);
			}
			o.push(ch);
		}
		if self.r.below(3) == 0 {
			self.run(&mut o);
		}
		o
	}
	fn run(&mut self, o: &mut String) {
		let n = [1, 1, 1, 1, 1, 2, 2, 3 + self.r.below(5)][self.r.below(8)];
		o.extend(std::iter::repeat(',').take(n));
	}

	/// quotations: openers, delimiters, text with near-delimiters, closed or not, and what follows
	fn quotes(&mut self, cx: &Cx) -> String {
		let mut t = String::new();
		for _ in 0..1 + self.r.below(3) {
			match self.r.below(8) {
				0 => t += &self.cword(cx),
				1 => {
					t += ["me'oi", "zo'oi", "do'oi"][self.r.below(3)];
					for _ in 0..self.r.below(4) {
						t += [" ", ".", ",", "a", "mi"][self.r.below(5)];
					}
				}
				n => {
					let two = n > 4;
					if !t.is_empty() && self.r.below(8) > 0 {
						self.seps(&mut t, 1);
					}
					t += if two { "so'e'ai" } else { ["zoi", "la'o", "mu'oi"][self.r.below(3)] };
					self.seps(&mut t, 1);
					let d = match self.r.below(6) {
						0 | 1 => "gy".to_owned(),
						2 => ["y", "n", "mi", "zoi", "ab"][self.r.below(5)].to_owned(),
						3 => (0..2 * self.r.below(20)).map(|i| ["b", "k", "s", "a", "o"][if i % 2 == 0 { self.r.below(3) } else { 3 + self.r.below(2) }]).collect::<String>() + "t",
						_ => self.cword(cx),
					};
					t += &self.vary(&d);
					self.seps(&mut t, 1);
					for _ in 0..1 + usize::from(two) {
						for _ in 0..self.r.below(4) {
							let n = d.chars().count();
							let k = self.r.below(n + 1);
							let w: String = match self.r.below(5) {
								// long ones stay regular names: cheap to recognise wherever they end up
								0 if n > 8 => d.chars().take(k | 1).collect(),
								1 if n > 8 => format!("{d}as"),
								2 if n > 8 => d.chars().enumerate().map(|(i, c)| if i == k { ['d', 'e'][i % 2] } else { c }).collect(),
								0 => d.chars().take(k).collect(),
								1 => format!("{d}{}", ["a", "n", "\u{e9}", "y"][self.r.below(4)]),
								2 => d.chars().enumerate().map(|(i, c)| if i == k { 'o' } else { c }).collect(),
								3 => ["", "a", "b", "\u{65e5}\u{672c}", "x,", ","][self.r.below(6)].to_owned(),
								_ => self.cword(cx),
							};
							t += &w;
							self.seps(&mut t, 1);
						}
						if self.r.below(8) > 0 {
							t += &self.vary(&d);
							self.seps(&mut t, 1);
						}
					}
				}
			}
			self.seps(&mut t, 0);
		}
		if self.r.below(3) == 0 {
			while t.ends_with(crate::refm::is_sep) {
				t.pop();
			}
		}
		if self.r.below(6) == 0 {
			t = self.commas(&t, 8);
		}
		t
	}
	fn cword(&mut self, cx: &Cx) -> String {
		let w = self.word(cx);
		self.cap(&w)
	}
	fn seps(&mut self, t: &mut String, min: usize) {
		for _ in 0..min + [0, 0, 0, 1, 2][self.r.below(5)] {
			t.push([' ', '.', '\n', '?', ' '][self.r.below(5)]);
		}
	}
	fn vary(&mut self, d: &str) -> String {
		if self.r.below(5) == 0 {
			self.commas(d, 3)
		} else {
			d.to_owned()
		}
	}

	/// next exhaustive string, if any is left
	fn exhaustive(&mut self) -> Option<String> {
		while self.exi < self.ex.len() {
			let al = &self.ex[self.exi];
			if self.len > self.maxlen[self.exi] {
				self.exi += 1;
				self.len = 0;
				self.cur = vec![];
				continue;
			}
			let s: String = self.cur.iter().map(|&i| al[i]).collect();
			let mut i = 0;
			loop {
				if i == self.cur.len() {
					self.len += 1;
					self.cur = vec![0; self.len];
					break;
				}
				self.cur[i] += 1;
				if self.cur[i] < al.len() {
					break;
				}
				self.cur[i] = 0;
				i += 1;
			}
			self.exn += 1;
			if self.exn % self.shard.1 == self.shard.0 {
				return Some(s);
			}
		}
		None
	}

	pub fn next(&mut self, cx: &Cx) -> Option<String> {
		self.n += 1;
		let p = self.prop.clone();
		match p.as_str() {
			"C01" => {
				let n = self.n - 1;
				let b = [0u32, 1, 2, 3, u32::MAX - 1, u32::MAX];
				if n < 6u64.pow(4) {
					let d: Vec<u64> = (0..4).map(|i| b[(n / 6u64.pow(i) % 6) as usize] as u64).collect();
					return Some(format!("{} {} {} {}", d[0], d[1], d[2], d[3]));
				}
				let m = [4u32, 10, 1000, u32::MAX][self.r.below(4)];
				let v: Vec<String> = (0..4).map(|_| ((self.r.next() as u32) % m).to_string()).collect();
				Some(v.join(" "))
			}
			"C02" => {
				let t: String = (0..self.r.below(7)).map(|_| ['a', 'é', '日', '\u{10348}', ' ', ','][self.r.below(6)]).collect();
				let l = t.len() as u64 + 2;
				let (a, b) = (self.r.next() % l, self.r.next() % l);
				Some(format!("{a} {b} {t}"))
			}
			"C06" | "C08" => {
				// exhaustive and random alternate, so that a short budget samples both
				if self.n % 2 == 0 {
					if let Some(s) = self.exhaustive() {
						return Some(s);
					}
				}
				if p == "C08" && self.n / 2 < 2 * cx.r.words.len() as u64 {
					let w = &cx.r.words[(self.n / 2) as usize % cx.r.words.len()];
					return Some(if self.n / 2 < cx.r.words.len() as u64 { w.clone() } else { w.replace('\'', ",h") });
				}
				let mut w = self.word(cx);
				if self.r.below(4) == 0 {
					w += &self.word(cx);
				}
				if self.r.below(8) == 0 {
					w = w.replace('\'', "h");
				}
				if self.r.below(4) == 0 {
					w = self.commas(&w, 4);
				}
				if p == "C08" && self.r.below(400) == 0 {
					w = "y".repeat(100 + self.r.below(28)); // longer runs: exponential time, see DESIGN.md
				}
				let (max, mut n) = (if w.starts_with("yyyyyyyy") { 140 } else { [8, 10, 12, 12, 16][self.r.below(5)] }, 0);
				Some(w.chars().filter(|&c| !crate::refm::is_sep(c)).take_while(|&c| { n += usize::from(c != ','); n <= max }).collect())
			}
			"C04" => {
				let t = if self.n % 2 == 0 { self.exhaustive() } else { None };
				let t = t.unwrap_or_else(|| self.text(cx));
				let ops: String = (0..(t.chars().count() + 2).min([4, 6, 10, 30][self.r.below(4)])).map(|_| ['n', 'r'][self.r.below(2)]).collect();
				Some(format!("{ops}|{t}"))
			}
			p if TEXTY.contains(&p) => {
				if self.n % 2 == 0 {
					if let Some(s) = self.exhaustive() {
						return Some(s);
					}
				}
				let r = self.r.below(8);
				Some(match p {
					"C05" if r < 4 => {
						let w = cx.r.words[self.r.below(cx.r.words.len())].clone();
						let w = if r < 3 { w } else { self.word(cx) };
						let w = self.cap(&w);
						self.commas(&w, 3)
					}
					"C05" if r < 6 => {
						let t = self.quotes(cx);
						self.commas(&t, 6)
					}
					"C05" => {
						let t = self.text(cx);
						self.commas(&t, 5)
					}
					"C09" | "C10" | "C11" if r < 5 => self.quotes(cx),
					_ => self.text(cx),
				})
			}
			_ => crate::props::gen_more(cx, p.as_str(), &mut self.r, self.n),
		}
	}
}

/// greedy deletion of characters while the case still fails
pub fn shrink(cx: &Cx, p: &str, mut case: String, mut what: String) -> (String, String) {
	if matches!(p, "C01" | "C02") {
		return (case, what);
	}
	let t0 = std::time::Instant::now();
	let mut again = true;
	while again && t0.elapsed().as_secs() < 8 {
		again = false;
		if matches!(p, "C12" | "C13" | "C14" | "C15" | "C16") {
			for cand in crate::cst::smaller(&case) {
				if let Err(w) = run_case(cx, p, &cand) {
					case = cand;
					what = w;
					again = true;
					break;
				}
			}
			continue;
		}
		for sz in [8usize, 4, 2, 1] {
			let cs: Vec<char> = case.chars().collect();
			let mut i = 0;
			while i + sz <= cs.len() {
				let cand: String = cs[..i].iter().chain(&cs[i + sz..]).collect();
				if p == "C04" && !cand.contains('|') {
					i += 1;
					continue;
				}
				if let Err(w) = run_case(cx, p, &cand) {
					case = cand;
					what = w;
					again = true;
					break;
				}
				i += 1;
			}
			if again {
				break;
			}
		}
	}
	(case, what)
}
