//! One executable reading per property, on one input.
use crate::refm::{self, is_sep, strip, Ref};
use sneturfahi::lex::Selmaho;
use sneturfahi::span::Span;

pub struct Cx {
	pub r: Ref,
	pub t: crate::cst::G,
}
impl Cx {
	pub fn new(spec: &str) -> Self {
		let r = Ref::load(spec);
		let t = crate::cst::G::load(spec, &r.words);
		Cx { r, t }
	}
}

pub fn gen_more(cx: &Cx, _p: &str, r: &mut crate::Rng, n: u64) -> Option<String> {
	Some(crate::cst::generate(&cx.t, r, n))
}

fn eq<T: PartialEq + std::fmt::Debug>(what: &str, got: T, want: T) -> Result<(), String> {
	if got == want {
		Ok(())
	} else {
		Err(format!("{what}: got {got:?}, want {want:?}"))
	}
}

pub fn check(cx: &Cx, p: &str, case: &str) -> Result<(), String> {
	match p {
		"C01" => c01(case),
		"C02" => c02(case),
		"C03" => c03(case),
		"C04" => c04(cx, case),
		"C05" => c05(case),
		"C06" => c06(cx, case),
		"C07" => c07(cx, case),
		"C08" => c08(cx, case),
		"C09" => c09(case),
		"C10" => c10(cx, case),
		"C11" => c11(cx, case),
		"C12" | "C13" | "C14" | "C15" | "C16" => crate::cst::check(&cx.t, p, case),
		_ => panic!("unknown property"),
	}
}

fn c01(case: &str) -> Result<(), String> {
	let v: Vec<u32> = case.split(' ').map(|x| x.parse().unwrap()).collect();
	let mk = |a: u32, b: u32| Span::new(a.min(b), a.max(b));
	let (x, y) = (mk(v[0], v[1]), mk(v[2], v[3]));
	let (xs, xe, ys, ye) = (v[0].min(v[1]), v[0].max(v[1]), v[2].min(v[3]), v[2].max(v[3]));
	eq("new", (x.start, x.end), (xs, xe))?;
	eq("len", x.len(), xe - xs)?;
	eq("is_empty", x.is_empty(), xs == xe)?;
	for l in [ys, ye, xs, xe, xs.wrapping_sub(1)] {
		eq(&format!("contains({l})"), x.contains(l), xs <= l && l < xe)?;
	}
	eq("overlaps_with", x.overlaps_with(y), xs < ye && ys < xe)?;
	eq("overlaps_with, swapped", y.overlaps_with(x), xs < ye && ys < xe)?;
	eq("between", Span::between(x, y).map(|s| (s.start, s.end)), (xe < ys).then_some((xe, ys)))?;
	if let Some(e) = v[0].checked_add(v[2]) {
		let s = Span::at(v[0], v[2]);
		eq("at", (s.start, s.end), (v[0], e))?;
	}
	Ok(())
}

fn c02(case: &str) -> Result<(), String> {
	let mut it = case.splitn(3, ' ');
	let a: usize = it.next().unwrap().parse().unwrap();
	let b: usize = it.next().unwrap().parse().unwrap();
	let t = it.next().unwrap();
	let full = Span::entire_slice(t);
	eq("entire_slice", (full.start as usize, full.end as usize), (0, t.len()))?;
	eq("slice of the entire text", full.slice(t), Some(t))?;
	let s = Span { start: a as u32, end: b as u32 };
	let want = if a <= b { t.get(a..b) } else { None };
	eq("slice", s.slice(t), want)?;
	eq("slice_after", s.slice_after(t), t.get(b..))?;
	eq("slice_before", s.slice_before(t), t.get(..a))?;
	if let Some(w) = want {
		eq("pieces", format!("{}{}{}", s.slice_before(t).unwrap(), w, s.slice_after(t).unwrap()), t.to_owned())?;
		let e = Span::from_embedded_slice(t.as_ptr(), w);
		eq("from_embedded_slice", (e.start as usize, e.end as usize), (a, b))?;
	}
	Ok(())
}

/// non-comma characters before a byte offset (None: not a character boundary of the text)
fn nc(t: &str, b: u32) -> Option<usize> {
	t.get(..b as usize).map(|s| strip(s).len())
}
fn nc2(t: &str, s: Span) -> Option<(usize, usize)> {
	Some((nc(t, s.start)?, nc(t, s.end)?))
}

fn noise(t: &str) -> bool {
	t.chars().all(|c| c == ',' || is_sep(c))
}

fn c03(t: &str) -> Result<(), String> {
	let mut at = 0;
	for s in sneturfahi::decompose(t) {
		let (a, b) = (s.start as usize, s.end as usize);
		let w = t.get(a..b).ok_or(format!("{s:?} is not a piece of the text"))?;
		if a < at || !noise(&t[at..a]) {
			return Err(format!("text between {at} and {a} lost or out of order"));
		}
		if w.chars().any(is_sep) {
			return Err(format!("word {w:?} contains a separator"));
		}
		if strip(w).is_empty() {
			return Err(format!("word {w:?} is empty"));
		}
		at = b;
	}
	if !noise(&t[at..]) {
		return Err(format!("text after {at} lost"));
	}
	Ok(())
}

fn c04(cx: &Cx, case: &str) -> Result<(), String> {
	let (ops, t) = case.split_once('|').unwrap();
	let mut d = sneturfahi::decompose(t);
	let mut m = refm::Words::new(&cx.r, t);
	let cnt = |m: &refm::Words, x: (usize, usize)| (m.t[..x.0].iter().filter(|&&c| c != ',').count(), m.t[..x.1].iter().filter(|&&c| c != ',').count());
	for (i, o) in ops.chars().enumerate() {
		let (lo, _) = d.size_hint();
		let left = d.clone().count();
		if lo > left {
			return Err(format!("before step {i}: size_hint promises {lo} words, {left} follow"));
		}
		if let Some(h) = d.size_hint().1 {
			if h < left {
				return Err(format!("before step {i}: size_hint allows {h} words, {left} follow"));
			}
		}
		let (got, want) = if o == 'n' { (d.next(), m.next()) } else { (d.next_no_decomposition(), m.next_raw()) };
		let g = match got {
			None => None,
			Some(s) => Some(nc2(t, s).ok_or(format!("step {i}: {s:?} is not a piece of the text"))?),
		};
		eq(&format!("step {i} ({o})"), g, want.map(|x| cnt(&m, x)))?;
		if let (Some(s), Some(w), 'r') = (got, want, o) {
			let e: usize = m.t[..w.1].iter().map(|c| c.len_utf8()).sum();
			eq(&format!("end of the raw step {i}"), s.end as usize, e)?;
		}
	}
	Ok(())
}

fn toks(t: &str) -> Result<(Vec<refm::Tok>, Option<(String, (usize, usize), Option<(usize, usize)>)>), String> {
	use sneturfahi::lex::Error::*;
	let mut out = vec![];
	for x in sneturfahi::lex(t) {
		let f = |s: Span| nc2(t, s).ok_or(format!("{s:?} is not a piece of the text"));
		match x {
			Ok(k) => {
				let (a, b) = f(k.span)?;
				out.push(refm::Tok { selmaho: format!("{:?}", k.selmaho), exp: k.experimental, a, b, end: None });
			}
			Err(DelimitedQuoteMissingSeparator { initiator_span }) => return Ok((out, Some(("DelimitedQuoteMissingSeparator".into(), f(initiator_span)?, None)))),
			Err(DelimitedQuoteUnclosed { initiator_span, starting_delimiter_span }) => {
				return Ok((out, Some(("DelimitedQuoteUnclosed".into(), f(initiator_span)?, Some(f(starting_delimiter_span)?)))))
			}
			Err(PauseDelimitedQuoteEof { initiator_span }) => return Ok((out, Some(("PauseDelimitedQuoteEof".into(), f(initiator_span)?, None)))),
		}
	}
	Ok((out, None))
}

fn c05(t: &str) -> Result<(), String> {
	let u: String = strip(t).into_iter().collect();
	let ws = |t: &str| -> Result<Vec<_>, String> { sneturfahi::decompose(t).map(|s| nc2(t, s).ok_or(format!("{s:?} is not a piece"))).collect() };
	eq("words with and without commas", ws(t)?, ws(&u)?)?;
	for w in t.split(is_sep) {
		let w = w.trim_end_matches(','); // decomposition never leaves a trailing comma on a word
		let v: String = strip(w).into_iter().collect();
		let (a, b) = (Selmaho::classify(w), Selmaho::classify(&v));
		eq(&format!("class of {w:?}"), (format!("{:?}", a.0), a.1), (format!("{:?}", b.0), b.1))?;
	}
	eq("tokens with and without commas", toks(t)?, toks(&u)?)
}

#[cfg(feature = "hooks")]
fn rule(n: &str, t: &str) -> Option<usize> {
	use sneturfahi::verif_hooks as h;
	let r = match n {
		"nucleus" => h::nucleus(t),
		"cmevla" => h::cmevla(t),
		"gismu" => h::gismu(t),
		"fuhivla" => h::fuhivla(t),
		"lujvo_minimal" => h::lujvo_minimal(t),
		"cmavo_minimal" => h::cmavo_minimal(t),
		_ => h::explicitly_stressed_brivla_minimal(t),
	};
	r.map(|(m, rest)| {
		assert!(m.len() + rest.len() == t.len() && t.starts_with(m) && t.ends_with(rest), "the parts do not make up the text");
		strip(m).len()
	})
}

fn c06(cx: &Cx, t: &str) -> Result<(), String> {
	let t = t.trim_end_matches(',');
	let mut run = crate::peg::Run::new(&cx.r.g, strip(t));
	#[cfg(feature = "hooks")]
	for n in ["nucleus", "cmevla", "gismu", "fuhivla", "lujvo_minimal", "cmavo_minimal", "explicitly_stressed_brivla_minimal"] {
		eq(&format!("letters matched by {n}"), rule(n, t), run.rule(n, 0))?;
	}
	// through the public interface
	let (c, _) = Selmaho::classify(t);
	let n = run.s.len();
	let want = [("cmevla", "Cmevla"), ("cmavo_minimal", "UnknownCmavo"), ("gismu", "Gismu"), ("fuhivla", "Fuhivla"), ("lujvo_minimal", "Lujvo")];
	let w = want.iter().find(|(p, _)| run.rule(p, 0) == Some(n)).map_or("AnyText", |x| x.1);
	let c = format!("{c:?}");
	let c = if want.iter().any(|x| x.1 == c) || c == "AnyText" { c } else { "UnknownCmavo".to_owned() };
	if w == "Cmevla" || w == "UnknownCmavo" || c != "UnknownCmavo" {
		if !(c == "UnknownCmavo" && refm_is_table(cx, t)) {
			eq("class", c, w.to_owned())?;
		}
	}
	Ok(())
}
fn refm_is_table(cx: &Cx, t: &str) -> bool {
	let (c, _) = cx.r.classify(t);
	!["Cmevla", "UnknownCmavo", "Gismu", "Fuhivla", "Lujvo", "AnyText"].contains(&c.as_str())
}

fn c07(cx: &Cx, t: &str) -> Result<(), String> {
	let mut m = refm::Words::new(&cx.r, t);
	let mut want = vec![];
	while let Some(x) = m.next() {
		want.push((m.t[..x.0].iter().filter(|&&c| c != ',').count(), m.t[..x.1].iter().filter(|&&c| c != ',').count()));
	}
	let got: Result<Vec<_>, String> = sneturfahi::decompose(t).map(|s| nc2(t, s).ok_or(format!("{s:?} is not a piece"))).collect();
	eq("word boundaries (non-comma characters)", got?, want)
}

fn c08(cx: &Cx, w: &str) -> Result<(), String> {
	let w = w.trim_end_matches(',');
	let (s, e) = Selmaho::classify(w);
	eq("class", (format!("{s:?}"), e), cx.r.classify(w))
}

fn c09(t: &str) -> Result<(), String> {
	let mut at = 0;
	let mut it = sneturfahi::lex(t);
	let mut done = false;
	while let Some(x) = it.next() {
		let Ok(k) = x else { return Ok(()) };
		let (a, b) = (k.span.start as usize, k.span.end as usize);
		t.get(a..b).ok_or(format!("{:?} is not a piece of the text", k.span))?;
		if a < at || !noise(&t[at..a]) {
			return Err(format!("text between {at} and {a} lost or out of order"));
		}
		at = b;
		done = matches!(k.selmaho, Selmaho::Faho | Selmaho::Fahoho);
	}
	if !done && !noise(&t[at..]) {
		return Err(format!("text after {at} lost"));
	}
	Ok(())
}

fn c10(cx: &Cx, t: &str) -> Result<(), String> {
	let mut want = refm::lex(&cx.r, t);
	// raw pieces (quoted text, closing delimiters) end exactly where their chunk ends
	let ends: Vec<_> = want.0.iter_mut().map(|k| k.end.take()).collect();
	eq("tokens", toks(t)?, want)?;
	for (k, e) in sneturfahi::lex(t).filter_map(|k| k.ok()).zip(ends) {
		if let Some(e) = e {
			eq(&format!("end of {:?}", k.selmaho), k.span.end as usize, e)?;
		}
	}
	Ok(())
}

fn c11(cx: &Cx, t: &str) -> Result<(), String> {
	let mut it = sneturfahi::lex(t);
	let mut n = 0;
	let mut stop = false;
	while let Some(x) = it.next() {
		if stop {
			return Err("more tokens after an error or the end-of-text word".into());
		}
		n += 1;
		if n > t.chars().count() * 3 + 3 {
			return Err("too many tokens".into());
		}
		stop = match x {
			Err(_) => true,
			Ok(k) => matches!(k.selmaho, Selmaho::Faho | Selmaho::Fahoho),
		};
	}
	for i in 0..3 {
		if it.next().is_some() {
			return Err(format!("a token after the end (call {i})"));
		}
	}
	eq("error", toks(t)?.1, refm::lex(&cx.r, t).1)
}
