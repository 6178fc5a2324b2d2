//! astdump FILE: prints the syntax tree of a (macro-expanded) Rust source file as JSON.
//! Purely syntactic: parses with syn and serialises; drops comments, attributes (except
//! derive-free markers), visibility and spans. Used by /verif/tools/extract.
use quote::ToTokens;
use std::fmt::Write;
use syn::*;

enum J { S(String), B(bool), N, A(Vec<J>), O(Vec<(&'static str, J)>) }
use J::*;
fn s(x: impl ToString) -> J { S(x.to_string()) }
fn esc(out: &mut String, v: &str) {
	out.push('"');
	for c in v.chars() {
		match c {
			'"' => out.push_str("\\\""), '\\' => out.push_str("\\\\"), '\n' => out.push_str("\\n"), '\t' => out.push_str("\\t"), '\r' => out.push_str("\\r"),
			c if (c as u32) < 0x20 => { write!(out, "\\u{:04x}", c as u32).unwrap(); }
			c => out.push(c),
		}
	}
	out.push('"');
}
fn w(out: &mut String, j: &J) {
	match j {
		S(x) => esc(out, x), B(b) => out.push_str(if *b { "true" } else { "false" }), N => out.push_str("null"),
		A(v) => { out.push('['); for (i, x) in v.iter().enumerate() { if i > 0 { out.push(','); } w(out, x); } out.push(']'); }
		O(v) => { out.push('{'); for (i, (k, x)) in v.iter().enumerate() { if i > 0 { out.push(','); } esc(out, k); out.push(':'); w(out, x); } out.push('}'); }
	}
}
macro_rules! o { ($k:expr $(, $f:ident : $v:expr)* $(,)?) => { O(vec![("k", s($k)) $(, (stringify!($f), $v))*]) } }
fn opt<T>(x: &Option<T>, f: impl Fn(&T) -> J) -> J { x.as_ref().map_or(N, f) }
fn list<'a, T: 'a>(x: impl IntoIterator<Item = &'a T>, f: impl Fn(&T) -> J) -> J { A(x.into_iter().map(f).collect()) }
fn toks(t: &impl ToTokens) -> J { s(t.to_token_stream()) }
fn path(p: &Path) -> J {
	A(p.segments.iter().map(|g| {
		let args = match &g.arguments {
			PathArguments::None => N,
			PathArguments::AngleBracketed(a) => list(&a.args, |x| match x {
				GenericArgument::Lifetime(l) => o!("lt", name: s(&l.ident)),
				GenericArgument::Type(t) => ty(t),
				GenericArgument::AssocType(b) => o!("binding", name: s(&b.ident), ty: ty(&b.ty)),
				other => o!("garg", toks: toks(other)),
			}),
			PathArguments::Parenthesized(p) => o!("paren", toks: toks(p)),
		};
		O(vec![("id", s(&g.ident)), ("args", args)])
	}).collect())
}
fn ty(t: &Type) -> J {
	match t {
		Type::Path(p) => o!("tpath", qself: opt(&p.qself, |q| O(vec![("ty", ty(&q.ty)), ("pos", s(q.position))])), path: path(&p.path)),
		Type::Reference(r) => o!("tref", mutable: B(r.mutability.is_some()), lt: opt(&r.lifetime, |l| s(&l.ident)), e: ty(&r.elem)),
		Type::Tuple(t) => o!("ttuple", es: list(&t.elems, ty)),
		Type::Slice(x) => o!("tslice", e: ty(&x.elem)),
		Type::Array(x) => o!("tarray", e: ty(&x.elem), n: ex(&x.len)),
		Type::Paren(p) => ty(&p.elem),
		Type::Group(p) => ty(&p.elem),
		Type::Never(_) => o!("tnever"),
		Type::Infer(_) => o!("tinfer"),
		Type::ImplTrait(i) => o!("timpl", toks: toks(i)),
		Type::BareFn(i) => o!("tfn", toks: toks(i)),
		Type::Ptr(p) => o!("tptr", e: ty(&p.elem)),
		other => o!("tother", toks: toks(other)),
	}
}
fn pat(p: &Pat) -> J {
	match p {
		Pat::Ident(i) => o!("pident", name: s(&i.ident), by_ref: B(i.by_ref.is_some()), mutable: B(i.mutability.is_some()), sub: opt(&i.subpat, |x| pat(&x.1))),
		Pat::Wild(_) => o!("pwild"),
		Pat::Rest(_) => o!("prest"),
		Pat::Tuple(t) => o!("ptuple", es: list(&t.elems, pat)),
		Pat::TupleStruct(t) => o!("pts", path: path(&t.path), es: list(&t.elems, pat)),
		Pat::Struct(t) => o!("pstruct", path: path(&t.path), fields: list(&t.fields, |f| O(vec![("name", toks(&f.member)), ("pat", pat(&f.pat))])), rest: B(t.rest.is_some())),
		Pat::Path(x) => o!("ppath", path: path(&x.path)),
		Pat::Lit(l) => o!("plit", e: lit(&l.lit)),
		Pat::Reference(r) => o!("pref", p: pat(&r.pat)),
		Pat::Or(x) => o!("por", es: list(&x.cases, pat)),
		Pat::Range(r) => o!("prange", lo: opt(&r.start, |x| ex(x)), hi: opt(&r.end, |x| ex(x)), incl: B(matches!(r.limits, RangeLimits::Closed(_)))),
		Pat::Type(t) => o!("ptype", p: pat(&t.pat), ty: ty(&t.ty)),
		Pat::Slice(x) => o!("pslice", es: list(&x.elems, pat)),
		Pat::Paren(x) => pat(&x.pat),
		other => o!("pother", toks: toks(other)),
	}
}
fn lit(l: &Lit) -> J {
	match l {
		Lit::Str(x) => o!("lit", t: s("str"), v: s(x.value())),
		Lit::Char(x) => o!("lit", t: s("char"), v: s(x.value())),
		Lit::Int(x) => o!("lit", t: s("int"), v: s(x.base10_digits()), suffix: s(x.suffix())),
		Lit::Bool(x) => o!("lit", t: s("bool"), v: s(x.value())),
		Lit::Byte(x) => o!("lit", t: s("byte"), v: s(x.value())),
		Lit::ByteStr(x) => o!("lit", t: s("bytestr"), v: A(x.value().iter().map(|b| s(b)).collect())),
		other => o!("lit", t: s("other"), v: toks(other)),
	}
}
fn block(b: &Block) -> J { o!("block", stmts: list(&b.stmts, stmt), line: s(b.brace_token.span.open().start().line)) }
fn stmt(x: &Stmt) -> J {
	match x {
		Stmt::Local(l) => { let (p, t) = match &l.pat { Pat::Type(t) => (pat(&t.pat), ty(&t.ty)), p => (pat(p), N) };
			o!("let", pat: p, ty: t, init: opt(&l.init, |x| ex(&x.expr)), els: opt(&l.init.as_ref().and_then(|x| x.diverge.as_ref()), |x| ex(&x.1))) }
		Stmt::Item(i) => o!("sitem", item: item(i)),
		Stmt::Expr(e, None) => o!("tail", e: ex(e)),
		Stmt::Expr(e, Some(_)) => o!("semi", e: ex(e)),
		Stmt::Macro(m) => { let e = o!("macro", name: toks(&m.mac.path), toks: s(&m.mac.tokens)); if m.semi_token.is_some() { o!("semi", e: e) } else { o!("tail", e: e) } }
	}
}
fn bop(b: &BinOp) -> (String, bool) {
	let t = b.to_token_stream().to_string();
	let assign = matches!(b, BinOp::AddAssign(_)|BinOp::SubAssign(_)|BinOp::MulAssign(_)|BinOp::DivAssign(_)|BinOp::RemAssign(_)|BinOp::BitAndAssign(_)|BinOp::BitOrAssign(_)|BinOp::BitXorAssign(_)|BinOp::ShlAssign(_)|BinOp::ShrAssign(_));
	(t, assign)
}
fn ex(e: &Expr) -> J {
	match e {
		Expr::Path(p) => o!("path", qself: opt(&p.qself, |q| O(vec![("ty", ty(&q.ty)), ("pos", s(q.position))])), path: path(&p.path)),
		Expr::Lit(l) => lit(&l.lit),
		Expr::Call(c) => o!("call", f: ex(&c.func), args: list(&c.args, ex)),
		Expr::MethodCall(c) => o!("mcall", recv: ex(&c.receiver), name: s(&c.method), args: list(&c.args, ex),
			turbo: opt(&c.turbofish, toks)),
		Expr::Closure(c) => o!("closure", mv: B(c.capture.is_some()), params: list(&c.inputs, pat), ret: match &c.output { ReturnType::Default => N, ReturnType::Type(_, t) => ty(t) }, body: ex(&c.body)),
		Expr::Block(b) => { let mut j = block(&b.block); if let (O(v), Some(l)) = (&mut j, &b.label) { v.push(("label", s(&l.name.ident))); } j }
		Expr::Unsafe(b) => o!("unsafe", b: block(&b.block)),
		Expr::If(i) => o!("if", c: ex(&i.cond), t: block(&i.then_branch), e: opt(&i.else_branch, |x| ex(&x.1))),
		Expr::Let(l) => o!("letcond", pat: pat(&l.pat), e: ex(&l.expr)),
		Expr::Match(m) => o!("match", e: ex(&m.expr), arms: list(&m.arms, |a| O(vec![("pat", pat(&a.pat)), ("guard", opt(&a.guard, |g| ex(&g.1))), ("body", ex(&a.body))]))),
		Expr::Return(r) => o!("return", e: opt(&r.expr, |x| ex(x))),
		Expr::Break(r) => o!("break", e: opt(&r.expr, |x| ex(x)), label: opt(&r.label, |l| s(&l.ident))),
		Expr::Continue(r) => o!("continue", label: opt(&r.label, |l| s(&l.ident))),
		Expr::Try(t) => o!("try", e: ex(&t.expr)),
		Expr::Tuple(t) => o!("tuple", es: list(&t.elems, ex)),
		Expr::Array(t) => o!("array", es: list(&t.elems, ex)),
		Expr::Repeat(t) => o!("repeat", e: ex(&t.expr), n: ex(&t.len)),
		Expr::Index(i) => o!("index", e: ex(&i.expr), i: ex(&i.index)),
		Expr::Range(r) => o!("range", a: opt(&r.start, |x| ex(x)), b: opt(&r.end, |x| ex(x)), incl: B(matches!(r.limits, RangeLimits::Closed(_)))),
		Expr::Cast(c) => o!("cast", e: ex(&c.expr), ty: ty(&c.ty)),
		Expr::Reference(r) => o!("ref", mutable: B(r.mutability.is_some()), e: ex(&r.expr)),
		Expr::Unary(u) => o!("unary", op: toks(&u.op), e: ex(&u.expr)),
		Expr::Binary(b) => { let (op, asg) = bop(&b.op); o!(if asg { "assignop" } else { "binary" }, op: s(op), a: ex(&b.left), b: ex(&b.right)) }
		Expr::Assign(a) => o!("assign", a: ex(&a.left), b: ex(&a.right)),
		Expr::Field(f) => o!("field", e: ex(&f.base), name: toks(&f.member)),
		Expr::Struct(x) => o!("struct", path: path(&x.path), fields: list(&x.fields, |f| O(vec![("name", toks(&f.member)), ("e", ex(&f.expr))])), rest: opt(&x.rest, |r| ex(r))),
		Expr::While(x) => o!("while", c: ex(&x.cond), body: block(&x.body), label: opt(&x.label, |l| s(&l.name.ident))),
		Expr::Loop(x) => o!("loop", body: block(&x.body), label: opt(&x.label, |l| s(&l.name.ident))),
		Expr::ForLoop(x) => o!("for", pat: pat(&x.pat), e: ex(&x.expr), body: block(&x.body), label: opt(&x.label, |l| s(&l.name.ident))),
		Expr::Paren(p) => ex(&p.expr),
		Expr::Group(p) => ex(&p.expr),
		Expr::Macro(m) => o!("macro", name: toks(&m.mac.path), toks: s(&m.mac.tokens)),
		other => o!("eother", toks: toks(other)),
	}
}
fn sig(g: &Signature) -> J {
	O(vec![("name", s(&g.ident)), ("generics", generics(&g.generics)),
		("params", list(&g.inputs, |a| match a {
			FnArg::Receiver(r) => o!("self", by_ref: B(r.reference.is_some()), mutable: B(r.mutability.is_some())),
			FnArg::Typed(t) => o!("param", pat: pat(&t.pat), ty: ty(&t.ty)) })),
		("ret", match &g.output { ReturnType::Default => N, ReturnType::Type(_, t) => ty(t) })])
}
fn generics(g: &Generics) -> J {
	O(vec![("params", list(&g.params, |p| match p {
		GenericParam::Lifetime(l) => o!("lt", name: s(&l.lifetime.ident)),
		GenericParam::Type(t) => o!("type", name: s(&t.ident), bounds: toks(&t.bounds)),
		GenericParam::Const(t) => o!("const", name: s(&t.ident)) })), ("where", opt(&g.where_clause, toks))])
}
fn is_test(a: &[Attribute]) -> bool { a.iter().any(|x| { let t = x.to_token_stream().to_string(); t.contains("cfg (test)") || t == "# [test]" }) }
fn item(i: &Item) -> J {
	match i {
		Item::Fn(f) => { if is_test(&f.attrs) { return o!("skip"); } o!("fn", sig: sig(&f.sig), body: block(&f.block)) }
		Item::Mod(m) => { if is_test(&m.attrs) { return o!("skip"); } o!("mod", name: s(&m.ident), items: opt(&m.content, |c| list(&c.1, item))) }
		Item::Struct(x) => o!("struct", name: s(&x.ident), generics: generics(&x.generics), fields: fields(&x.fields)),
		Item::Enum(x) => o!("enum", name: s(&x.ident), generics: generics(&x.generics), variants: list(&x.variants, |v| O(vec![("name", s(&v.ident)), ("fields", fields(&v.fields)), ("disc", opt(&v.discriminant, |d| ex(&d.1)))]))),
		Item::Type(t) => o!("type", name: s(&t.ident), generics: generics(&t.generics), ty: ty(&t.ty)),
		Item::Const(c) => o!("const", name: s(&c.ident), ty: ty(&c.ty), e: ex(&c.expr)),
		Item::Static(c) => o!("static", name: s(&c.ident), ty: ty(&c.ty), e: ex(&c.expr)),
		Item::Use(u) => o!("use", tree: toks(&u.tree)),
		Item::Impl(x) => o!("impl", generics: generics(&x.generics), tr: opt(&x.trait_, |t| path(&t.1)), ty: ty(&x.self_ty), items: list(&x.items, |y| match y {
			ImplItem::Fn(m) => o!("fn", sig: sig(&m.sig), body: block(&m.block)),
			ImplItem::Type(t) => o!("type", name: s(&t.ident), ty: ty(&t.ty)),
			ImplItem::Const(c) => o!("const", name: s(&c.ident), ty: ty(&c.ty), e: ex(&c.expr)),
			_ => o!("other") })),
		Item::Trait(x) => o!("trait", name: s(&x.ident), generics: generics(&x.generics), items: list(&x.items, |y| match y {
			TraitItem::Fn(m) => o!("fn", sig: sig(&m.sig), body: opt(&m.default, block)),
			TraitItem::Const(c) => o!("const", name: s(&c.ident), ty: ty(&c.ty), e: opt(&c.default, |d| ex(&d.1))),
			_ => o!("other") })),
		_ => o!("skip"),
	}
}
fn fields(f: &Fields) -> J {
	match f {
		Fields::Named(n) => o!("named", fs: list(&n.named, |f| O(vec![("name", toks(&f.ident)), ("ty", ty(&f.ty)), ("attrs", list(&f.attrs, toks))]))),
		Fields::Unnamed(n) => o!("unnamed", fs: list(&n.unnamed, |f| O(vec![("ty", ty(&f.ty)), ("attrs", list(&f.attrs, toks))]))),
		Fields::Unit => o!("unit"),
	}
}
fn main() {
	let f = std::env::args().nth(1).expect("usage: astdump FILE");
	let src = std::fs::read_to_string(f).unwrap();
	let file = syn::parse_file(&src).unwrap();
	let mut out = String::new();
	w(&mut out, &list(&file.items, item));
	println!("{out}");
}
